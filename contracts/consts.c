/* C20: how compiler/compiler.c numbers and stores constants, and the code a literal becomes. The pool is arbitrary: what it says of one arbitrary constant is a ghost. */
#include "yvh.h"
#ifdef YV_NATIVE
#error proofs only
#endif
#include "compiler/compiler.h"
#include "compiler/ast.h"
#include "opcode.h"
#include "data-structures/YASL_ByteBuffer.h"
static struct Compiler yv_c;
static struct YASL_ByteBuffer yv_code, yv_header;
static struct YASL_Table yv_strings;
static struct Node yv_node;
static char yv_text[1];
static size_t yv_len;
static struct YASL_Object yv_key;          /* the constant; Y_STR: yv_text */
static bool yv_known;                      /* it is in the pool already, */
static int64_t yv_idx;                     /* as this number */
static int yv_inserts; static int64_t yv_as;
static int yv_n, yv_h; static int64_t yv_log[4], yv_hlog[4];
static int yv_kind[4]; static uint64_t yv_extlen; static int yv_ext;

static uint64_t bits(yasl_float f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static bool same(struct YASL_Object a) { return a.type == yv_key.type && (a.type == Y_INT ? a.value.ival == yv_key.value.ival : a.type == Y_FLOAT && bits(a.value.dval) == bits(yv_key.value.dval)); }
static void put(const struct YASL_ByteBuffer *bb, int kind, int64_t x) {
	yv_assert(bb == &yv_code || bb == &yv_header, "into the code or among the constants");
	if (bb == &yv_code) { if (yv_n < 4) yv_log[yv_n] = x; yv_n++; }
	else { if (yv_h < 4) { yv_hlog[yv_h] = x; yv_kind[yv_h] = kind; } yv_h++; }
}
void YASL_ByteBuffer_add_byte(struct YASL_ByteBuffer *const bb, const unsigned char x) { put(bb, 1, x); }
void YASL_ByteBuffer_add_int(struct YASL_ByteBuffer *const bb, const yasl_int x) { put(bb, 8, x); }
void YASL_ByteBuffer_add_float(struct YASL_ByteBuffer *const bb, const yasl_float x) { put(bb, 9, (int64_t)bits(x)); }
void YASL_ByteBuffer_extend(struct YASL_ByteBuffer *const bb, const unsigned char *const s, const size_t n) { yv_assert((const char *)s == yv_text && n == yv_len, "the text of the string"); put(bb, 10, 0); }
static struct YASL_Object found(const struct YASL_Table *t) {
	yv_assert(t == &yv_strings, "the pool of constants");
	return yv_known ? YASL_INT(yv_idx) : YASL_END();
}
static void insert(struct YASL_Table *t, int64_t v) { yv_assert(t == &yv_strings && !yv_known && !yv_inserts, "each constant once"); yv_inserts++; yv_as = v; t->count++; }
struct YASL_Object YASL_Table_search(const struct YASL_Table *const t, const struct YASL_Object k) { yv_assert(same(k), "the constant itself is looked up"); return found(t); }
struct YASL_Object YASL_Table_search_string_int(const struct YASL_Table *const t, const char *const s, const size_t n) {
	yv_assert(yv_key.type == Y_STR && s == yv_text && n == yv_len, "the string is looked up"); return found(t);
}
bool YASL_Table_insert(struct YASL_Table *const t, const struct YASL_Object k, const struct YASL_Object v) {
	yv_assert(same(k) && v.type == Y_INT, "the constant itself is remembered"); insert(t, v.value.ival); return true;
}
void YASL_Table_insert_string_int(struct YASL_Table *const t, const char *const s, const size_t n, const yasl_int v) {
	yv_assert(yv_key.type == Y_STR && s == yv_text && n == yv_len, "the string is remembered"); insert(t, v);
}
#define ST yv_strings.count, yv_inserts, yv_as, yv_n, yv_h, __CPROVER_object_whole(yv_log), __CPROVER_object_whole(yv_hlog), __CPROVER_object_whole(yv_kind), yv_ext, yv_extlen
#define FRAME YV_REQUIRES(compiler == &yv_c) YV_ASSIGNS(ST)
yasl_int compiler_intern_string(struct Compiler *const compiler, const char *const str, const size_t len) FRAME;
yasl_int compiler_intern_float(struct Compiler *const compiler, const yasl_float val) FRAME;
yasl_int compiler_intern_int(struct Compiler *const compiler, const yasl_int val) FRAME;
static void visit_Float(struct Compiler *const compiler, const struct Node *const node) FRAME;
static void visit_Integer(struct Compiler *const compiler, const struct Node *const node) FRAME;
static void visit_Boolean(struct Compiler *const compiler, const struct Node *const node) FRAME;
static void visit_Undef(struct Compiler *const compiler, const struct Node *const node) FRAME;
static void visit_String(struct Compiler *const compiler, const struct Node *const node) FRAME;
static void visit_FloatPattern(struct Compiler *const compiler, const struct Node *const node) FRAME;
static void visit_IntPattern(struct Compiler *const compiler, const struct Node *const node) FRAME;
static void visit_StringPattern(struct Compiler *const compiler, const struct Node *const node) FRAME;

#include "compiler/compiler.c"

static int64_t count0;
static void start(int type) {
	yv_c.strings = &yv_strings; yv_c.header = &yv_header; yv_c.code = &yv_code; yv_c.buffer = &yv_code; yv_c.status = YASL_SUCCESS;
	yv_strings.count = yv_size(0, 40);
	yv_assume(yv_strings.count < (size_t)1 << 40);
	count0 = (int64_t)yv_strings.count;
	yv_known = yv_get(1) != 0; yv_idx = yv_range(2, 0, ((int64_t)1 << 40) - 1);
	yv_len = yv_size(3, 40);
	yv_key.type = type;
	if (type == Y_INT) yv_key.value.ival = yv_get(4);
	if (type == Y_FLOAT) { int64_t b = yv_get(4); yv_assume(!YV_NANBITS(b)); memcpy(&yv_key.value.dval, &b, 8); }
	yv_inserts = yv_n = yv_h = yv_ext = 0;
}
/* after interning: the number is the one it had, or the next one, under which it is then stored and remembered */
static void stored(int64_t r) {
	if (yv_known) { yv_assert(r == yv_idx && !yv_inserts && !yv_h, "a known constant keeps its number and is stored once"); return; }
	yv_assert(r == count0 && yv_inserts == 1 && yv_as == r && yv_strings.count == (size_t)count0 + 1, "a new constant gets the next number");
	if (yv_key.type == Y_STR) yv_assert(yv_h == 3 && yv_hlog[0] == C_STR && yv_kind[1] == 8 && yv_hlog[1] == (int64_t)yv_len && yv_kind[2] == 10, "the string is stored with its length");
	if (yv_key.type == Y_FLOAT) yv_assert(yv_h == 2 && yv_hlog[0] == C_FLOAT && yv_kind[1] == 9 && (uint64_t)yv_hlog[1] == bits(yv_key.value.dval), "the float is stored");
	if (yv_key.type == Y_INT) yv_assert(yv_h == 2 && (yv_hlog[0] == C_INT_1 ? yv_kind[1] == 1 && (signed char)yv_hlog[1] == yv_key.value.ival : yv_hlog[0] == C_INT_8 && yv_kind[1] == 8 && yv_hlog[1] == yv_key.value.ival), "the integer is stored");
	yv_assert(yv_kind[0] == 1, "with its kind in front");
}
static int64_t number(void) { return yv_known ? yv_idx : count0; }
static void code(int short_op, int long_op, bool neg) {
	int64_t i = number();
	yv_assert(i < 128 ? yv_log[0] == short_op && yv_log[1] == i : yv_log[0] == long_op && yv_log[1] == i, "the instruction takes the constant with that number");
	yv_assert(yv_n == 2 + neg && (!neg || yv_log[2] == O_NEG), "and nothing else");
	stored(i);
	yv_reach();
}
void u_intern_string(void) { start(Y_STR); stored(compiler_intern_string(&yv_c, yv_text, yv_len)); yv_assert(!yv_n, "no code"); yv_reach(); }
void u_intern_float(void) { start(Y_FLOAT); stored(compiler_intern_float(&yv_c, yv_key.value.dval)); yv_assert(!yv_n, "no code"); yv_reach(); }
void u_intern_int(void) { start(Y_INT); stored(compiler_intern_int(&yv_c, yv_key.value.ival)); yv_assert(!yv_n, "no code"); yv_reach(); }
static const struct Node *lit(int kind) {
	yv_node.nodetype = kind;
	if (yv_key.type == Y_INT) yv_node.value.ival = yv_key.value.ival;
	if (yv_key.type == Y_FLOAT) { yv_node.value.dval = yv_key.value.dval; if (yv_key.value.dval == 0) yv_key.value.dval = 0.0; }
	if (yv_key.type == Y_STR) { yv_node.value.sval.str = yv_text; yv_node.value.sval.str_len = yv_len; }
	return &yv_node;
}
void u_lit_int(void) { start(Y_INT); visit_Integer(&yv_c, lit(N_INT)); code(O_LIT, O_LIT8, false); }
void u_lit_float(void) { start(Y_FLOAT); const struct Node *n = lit(N_FLOAT); bool neg = bits(n->value.dval) == (uint64_t)1 << 63; visit_Float(&yv_c, n); code(O_LIT, O_LIT8, neg); }
void u_lit_string(void) { start(Y_STR); visit_String(&yv_c, lit(N_STR)); code(O_LIT, O_LIT8, false); }
void u_lit_bool(void) { start(Y_BOOL); yv_node.nodetype = N_BOOL; bool b = yv_get(4) != 0; yv_node.value.ival = b; visit_Boolean(&yv_c, &yv_node); yv_assert(yv_n == 1 && !yv_h && yv_log[0] == (b ? O_BCONST_T : O_BCONST_F), "true and false"); yv_reach(); }
void u_lit_undef(void) { start(Y_UNDEF); yv_node.nodetype = N_UNDEF; visit_Undef(&yv_c, &yv_node); yv_assert(yv_n == 1 && !yv_h && yv_log[0] == O_NCONST, "undef"); yv_reach(); }
void u_pat_int(void) { start(Y_INT); visit_IntPattern(&yv_c, lit(N_PATINT)); code(P_LIT, P_LIT8, false); }
void u_pat_float(void) { start(Y_FLOAT); visit_FloatPattern(&yv_c, lit(N_PATFL)); code(P_LIT, P_LIT8, false); }
void u_pat_string(void) { start(Y_STR); visit_StringPattern(&yv_c, lit(N_PATSTR)); code(P_LIT, P_LIT8, false); }
