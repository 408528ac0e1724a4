/* C14: the code of patterns (compiler/compiler.c): what the visitors of pattern nodes emit. */
#include "yvh.h"
#include "compiler/compiler.h"
#include "compiler/ast.h"
#include "opcode.h"
#include "data-structures/YASL_ByteBuffer.h"
static struct Compiler yv_c;
static struct YASL_ByteBuffer yv_buf, yv_code, yv_lines;
static int yv_n; static int64_t yv_log[16];      /* what is emitted, a number of 8 bytes as one entry */
#ifdef YV_NATIVE
#error proofs only
#endif
#define ADD(x) do { yv_assert(bb == &yv_buf, "into the code"); if (yv_n < 16) yv_log[yv_n] = x; yv_n++; } while (0)
void YASL_ByteBuffer_add_byte(struct YASL_ByteBuffer *const bb, const unsigned char x) { ADD(x); }
void YASL_ByteBuffer_add_int(struct YASL_ByteBuffer *const bb, const yasl_int x) { ADD(x); }
#include "compiler/compiler.c"
#define EMIT1(a) yv_assert(yv_n == 1 && yv_log[0] == (a), "the pattern's code")
#define EMIT2(a, b) yv_assert(yv_n == 2 && yv_log[0] == (a) && yv_log[1] == (b), "the pattern's code and operand")
static struct Node n, kid;
static struct { struct Node n; struct Node *child[3]; } nd;
static void start(void) {
	yv_c.buffer = &yv_buf; yv_c.code = &yv_code; yv_c.lines = &yv_lines; yv_n = 0; yv_c.line = 10;
	n.line = 10; n.children_len = 0; kid.line = 10; kid.children_len = 0; kid.nodetype = N_PATANY;
}
#define SIMPLE(name, type, op) void u_##name(void) { start(); n.nodetype = type; visit(&yv_c, &n); EMIT1(op); yv_reach(); }
SIMPLE(undef, N_PATUNDEF, P_UNDEF) SIMPLE(any, N_PATANY, P_ANY) SIMPLE(tbool, N_PATBOOLTYPE, P_TYPE_BOOL) SIMPLE(tint, N_PATINTTYPE, P_TYPE_INT)
SIMPLE(tfloat, N_PATFLOATTYPE, P_TYPE_FLOAT) SIMPLE(tstr, N_PATSTRTYPE, P_TYPE_STR) SIMPLE(tls, N_PATLSTYPE, P_TYPE_LS) SIMPLE(ttable, N_PATTABLETYPE, P_TYPE_TABLE)
void u_bool(void) {
	start(); n.nodetype = N_PATBOOL; bool b = yv_get(0) != 0; n.value.ival = 0; n.value.ival = b;
	visit(&yv_c, &n); EMIT2(P_BOOL, Boolean_get_bool(&n)); yv_reach();
}
/* the index of the constant in a byte, or in 8 if it is too large: the operand is that index for every index */
void u_lit(void) {
	start(); int64_t i = yv_range(0, 0, INT64_MAX);
	compiler_add_literal_pattern(&yv_c, i);
	yv_assert(yv_n == 2 && (yv_log[0] == P_LIT || yv_log[0] == P_LIT8) && yv_log[1] == i, "the constant's index");
	yv_reach();
}
static void coll(int type, int op, int k) {
	start(); nd.n.line = 10; nd.n.nodetype = type; nd.n.children_len = k;
	for (int i = 0; i < k; i++) nd.n.children[i] = &kid;
	visit(&yv_c, &nd.n);
	yv_assert(yv_n == 2 + k && yv_log[0] == op && yv_log[1] == k, "how many patterns follow");
	for (int i = 0; i < k; i++) yv_assert(yv_log[2 + i] == P_ANY, "the patterns");
	yv_reach();
}
#define COLL(name, type, op) void u_##name##_0(void) { coll(type, op, 0); } void u_##name##_2(void) { coll(type, op, 2); }
COLL(ls, N_PATLS, P_LS) COLL(vls, N_PATVLS, P_VLS) COLL(table, N_PATTABLE, P_TABLE) COLL(vtable, N_PATVTABLE, P_VTABLE)
