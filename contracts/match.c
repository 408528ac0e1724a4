/*
 * C14: the pattern matcher of interpreter/VM.c: vm_ff_subpattern, vm_ff_subpatterns_multiple, vm_MATCH_subpattern, MATCH_list,
 * vm_MATCH_table_elements, O_MATCH.
 *
 * Ghosts: a pattern starts at some offset o of the code. yv_E[o] is where it ends; in a sequence of patterns yv_K[o] is its number, so that the
 * pattern that follows it has the next number; yv_M says which patterns match their value. These are arbitrary functions, of which each unit
 * assumes the definition at the pattern it executes. yv_all stands for: every pattern of the sequence matches.
 */
#include "yvh.h"
#include "opcode.h"
#include "data-structures/YASL_Table.h"
#include "data-structures/YASL_List.h"
static unsigned char *yv_p;        /* the code */
static size_t yv_E[__CPROVER_constant_infinity_uint], yv_K[__CPROVER_constant_infinity_uint];
static unsigned char yv_M[__CPROVER_constant_infinity_uint];
enum { ONE, COLL, SEQ };           /* one pattern; a collection whose patterns are counted by yv_K; the elements of a sequence */
static int yv_mode;
static _Bool yv_all, yv_shape, yv_tab, yv_keychk;
static size_t yv_len, yv_w, yv_k0;        /* length of the sequence; any pattern of it; the number of the first one */
static struct YASL_Object *yv_base;
static struct YASL_Table *yv_t; static struct YASL_List *yv_l;
static struct YASL_Object yv_key;
static const struct YASL_Object *yv_eqa, *yv_eqb;
static size_t yv_N;                /* the patterns end here at the latest */
#define AT(q) __CPROVER_POINTER_OFFSET(q)
#define OLD __CPROVER_POINTER_OFFSET(__CPROVER_old(vm->pc))
#define NEW __CPROVER_POINTER_OFFSET(vm->pc)
#define PCOK (__CPROVER_same_object(vm->pc, yv_p) && NEW <= yv_N)
#define KEYSIZE(op) ((op) == P_UNDEF ? 1 : (op) == P_LIT8 ? 9 : 2)
#define ISKEY(op) ((op) == P_UNDEF || (op) == P_BOOL || (op) == P_LIT || (op) == P_LIT8)
/* a pattern of a value ends before the code of the next key, or at the end of the table pattern */
#define NEXTKEY (yv_K[NEW] == yv_len || (yv_p[NEW] == yv_op && ISKEY(yv_op) && yv_oz == KEYSIZE(yv_op) && yv_K[NEW + yv_oz] == yv_K[NEW] + 1 && NEW + yv_oz <= yv_N))
static unsigned char yv_op; static size_t yv_oz;      /* that key's kind and size */
#define VM0 vm == &yv_vm && PCOK

#define YV_MORE_CONTRACTS \
static yasl_int vm_read_int(struct VM *const vm) \
	YV_REQUIRES(vm == &yv_vm) YV_ASSIGNS(vm->pc) \
	YV_ENSURES(vm->pc == __CPROVER_old(vm->pc) + 8 && 0 <= __CPROVER_return_value && __CPROVER_return_value < 256); \
static void vm_ff_subpattern(struct VM *const vm) \
	YV_REQUIRES(VM0) YV_ASSIGNS(vm->pc) \
	YV_ENSURES(PCOK && (yv_mode == COLL || vm->pc == yv_p + yv_E[OLD])) \
	YV_ENSURES(yv_mode == ONE || (yv_mode == COLL ? yv_K[NEW] == yv_len : yv_K[NEW] == yv_K[OLD] + 1)); \
static void vm_ff_subpatterns_multiple(struct VM *const vm, const size_t n) \
	YV_REQUIRES(VM0) YV_ASSIGNS(vm->pc) \
	YV_ENSURES(PCOK && yv_K[NEW] == yv_K[OLD] + n); \
static _Bool vm_MATCH_subpattern(struct VM *const vm, struct YASL_Object *expr) \
	YV_REQUIRES(VM0) \
	YV_REQUIRES(yv_tab ? expr->type == Y_INT && expr->value.ival == (int64_t)yv_K[NEW] : expr == yv_base + (yv_mode == SEQ ? yv_K[NEW] : 0)) \
	YV_ASSIGNS(vm->pc YV_MATCHASSIGNS) \
	YV_ENSURES(PCOK && (yv_mode == COLL || vm->pc == yv_p + yv_E[OLD])) \
	YV_ENSURES(yv_mode == ONE || (yv_mode == COLL ? yv_K[NEW] == yv_len : yv_K[NEW] == yv_K[OLD] + 1)) \
	YV_ENSURES(yv_mode == COLL || (__CPROVER_return_value != 0) == (yv_M[yv_mode == ONE ? OLD : yv_K[OLD]] != 0)) \
	YV_ENSURES(yv_mode != SEQ || !yv_all || __CPROVER_return_value != 0) \
	YV_ENSURES(yv_mode != COLL || !(__CPROVER_return_value != 0) || (yv_shape && (!WIT(yv_len) || yv_M[yv_w] != 0))) \
	YV_ENSURES(yv_mode != COLL || !(yv_shape && yv_all) || __CPROVER_return_value != 0) \
	YV_ENSURES(!yv_tab || NEXTKEY); \
static _Bool MATCH_list(struct VM *vm, struct YASL_List *ls, size_t len) \
	YV_REQUIRES(VM0 && yv_K[NEW] == 0 && ls == yv_l && len == yv_len && len <= ls->count) \
	YV_ASSIGNS(vm->pc YV_SEQASSIGNS) \
	YV_ENSURES(PCOK && yv_K[NEW] == len) \
	YV_ENSURES(!(__CPROVER_return_value != 0 && yv_w < len) || yv_M[yv_w] != 0) \
	YV_ENSURES(!yv_all || __CPROVER_return_value != 0); \
static _Bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL_Table *table) \
	YV_REQUIRES(VM0 && yv_K[NEW] == 0 && table == yv_t && 2 * len == yv_len) \
	YV_ASSIGNS(vm->pc YV_SEQASSIGNS) \
	YV_ENSURES(PCOK && yv_K[NEW] == 2 * len) \
	YV_ENSURES(!(__CPROVER_return_value != 0 && yv_w < 2 * len && (yv_w & 1)) || yv_M[yv_w] != 0) \
	YV_ENSURES(!yv_all || __CPROVER_return_value != 0); \
struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const struct YASL_Object key) \
	YV_REQUIRES(table == yv_t && (!yv_keychk || (key.type == yv_key.type && key.value.ival == yv_key.value.ival))) \
	YV_ASSIGNS() \
	YV_ENSURES(__CPROVER_return_value.type == Y_END || (__CPROVER_return_value.type == Y_INT && __CPROVER_return_value.value.ival == (int64_t)yv_K[AT(yv_vm.pc)])) \
	YV_ENSURES(!yv_all || __CPROVER_return_value.type == Y_INT); \
bool isequal(const struct YASL_Object *const a, const struct YASL_Object *const b) \
	YV_REQUIRES(a == yv_eqa && b == yv_eqb) YV_ASSIGNS() YV_ENSURES((__CPROVER_return_value != 0) == (yv_M[0] != 0)); \
static _Bool vm_MATCH_pattern(struct VM *const vm, struct YASL_Object *expr) \
	YV_REQUIRES(vm == &yv_vm && vm->pc == yv_code + 33 && expr->type == yv_stack[yv_vm.sp].type && expr->value.ival == yv_stack[yv_vm.sp].value.ival) \
	YV_ASSIGNS(vm->pc) \
	YV_ENSURES(vm->pc == yv_code + 45 && (__CPROVER_return_value != 0) == (yv_M[0] != 0));
#define WIT(n) (yv_w < (n) && (!yv_istab || (yv_w & 1)))
static _Bool yv_istab;
#ifdef YV_SEQ
#define YV_SEQASSIGNS , yv_op, yv_oz
#define YV_MATCHASSIGNS , yv_op, yv_oz
#else
#define YV_SEQASSIGNS
#define YV_MATCHASSIGNS , vm->status, __CPROVER_object_whole(vm->stack), yv_s[0].rc.refs, yv_s[1].rc.refs, yv_ud.rc.refs
#endif
#define YV_STACK 8
#include "vmh.h"

static struct YASL_Object val;
static struct YASL_List l; static struct YASL_Table t;

#ifndef YV_SEQ
static void setup(int op, int mode) {
	yv_vm_setup(0, 2);
	yv_p = yv_code; yv_vm.pc = yv_code + 24; yv_N = 59;
	yv_code[24] = (unsigned char)op;
	yv_mode = mode; yv_all = 0; yv_tab = 0; yv_keychk = 0; yv_istab = 0; yv_shape = 0; yv_base = &val; yv_l = &l; yv_t = &t;
	yv_vm_snap();
	yv_assume(yv_E[24] <= 59);
}
static size_t operand(void) { int64_t n = yv_get(0); memcpy(yv_code + 25, &n, 8); return (size_t)n; }
#define SKIP(name, op, size) void u_skip_##name(void) { setup(op, ONE); yv_assume(yv_E[24] == 24 + size); vm_ff_subpattern(&yv_vm); yv_reach(); }
SKIP(UNDEF, P_UNDEF, 1) SKIP(TBOOL, P_TYPE_BOOL, 1) SKIP(TINT, P_TYPE_INT, 1) SKIP(TFLOAT, P_TYPE_FLOAT, 1) SKIP(TSTR, P_TYPE_STR, 1)
SKIP(TLS, P_TYPE_LS, 1) SKIP(TTABLE, P_TYPE_TABLE, 1) SKIP(ANY, P_ANY, 1) SKIP(BIND, P_BIND, 2) SKIP(BOOL, P_BOOL, 2) SKIP(LIT, P_LIT, 2) SKIP(LIT8, P_LIT8, 9)
/* the patterns inside follow the count */
#define SKIPN(name, op) void u_skip_##name(void) { setup(op, COLL); yv_len = operand(); yv_assume(yv_K[33] == 0); vm_ff_subpattern(&yv_vm); yv_reach(); }
SKIPN(LS, P_LS) SKIPN(VLS, P_VLS) SKIPN(TABLE, P_TABLE) SKIPN(VTABLE, P_VTABLE)
void u_skip_ALT(void) { setup(P_ALT, COLL); yv_len = 2; yv_assume(yv_K[25] == 0); vm_ff_subpattern(&yv_vm); yv_reach(); }

static void value(void) {
	val.type = (enum YASL_Types)yv_range(0, Y_UNDEF, Y_USERDATA_W);
	val.value.ival = yv_get(1);
	yv_assume(val.type != Y_BOOL || val.value.ival == 0 || val.value.ival == 1);
	yv_assume(val.type != Y_STR_W && val.type != Y_LIST_W && val.type != Y_TABLE_W && val.type != Y_USERDATA_W);    /* no value has these types */
}
#define LEAF(name, op, size, spec) void u_one_##name(void) { setup(op, ONE); value(); yv_assume(yv_E[24] == 24 + size); \
	yv_assume((yv_M[24] != 0) == (spec)); vm_MATCH_subpattern(&yv_vm, &val); yv_reach(); }
#define T(t) (val.type == t)
LEAF(UNDEF, P_UNDEF, 1, T(Y_UNDEF)) LEAF(TBOOL, P_TYPE_BOOL, 1, T(Y_BOOL)) LEAF(TINT, P_TYPE_INT, 1, T(Y_INT)) LEAF(TFLOAT, P_TYPE_FLOAT, 1, T(Y_FLOAT))
LEAF(TSTR, P_TYPE_STR, 1, T(Y_STR) || T(Y_STR_W)) LEAF(TLS, P_TYPE_LS, 1, T(Y_LIST) || T(Y_LIST_W)) LEAF(TTABLE, P_TYPE_TABLE, 1, T(Y_TABLE) || T(Y_TABLE_W))
LEAF(ANY, P_ANY, 1, 1)
void u_one_BOOL(void) {
	setup(P_BOOL, ONE); value(); yv_code[25] = (unsigned char)yv_range(2, 0, 1); yv_assume(yv_E[24] == 26);
	yv_assume((yv_M[24] != 0) == (val.type == Y_BOOL && (val.value.ival != 0) == yv_code[25]));
	vm_MATCH_subpattern(&yv_vm, &val); yv_reach();
}
void u_one_LIT(void) {
	setup(P_LIT, ONE); value(); int k = yv_code[25] = (unsigned char)yv_range(2, 0, 3); yv_assume(yv_E[24] == 26 && (yv_M[24] != 0) == (yv_M[0] != 0));
	yv_eqa = yv_consts + k; yv_eqb = &val;
	vm_MATCH_subpattern(&yv_vm, &val); yv_reach();
}
void u_one_LIT8(void) {
	setup(P_LIT8, ONE); value(); int64_t k = yv_range(0, 0, 3); memcpy(yv_code + 25, &k, 8); yv_assume(yv_E[24] == 33 && (yv_M[24] != 0) == (yv_M[0] != 0));
	yv_eqa = yv_consts + k; yv_eqb = &val;
	vm_MATCH_subpattern(&yv_vm, &val); yv_reach();
}
void u_one_ALT(void) {
	setup(P_ALT, ONE); value();
	yv_assume(yv_E[25] < 59 && yv_E[24] == yv_E[yv_E[25]] && (yv_M[24] != 0) == (yv_M[25] != 0 || yv_M[yv_E[25]] != 0));
	vm_MATCH_subpattern(&yv_vm, &val); yv_reach();
}
static void coll(int op, int ty) {
	setup(op, COLL); yv_len = operand(); yv_assume(yv_K[33] == 0);
	yv_istab = op == P_TABLE || op == P_VTABLE;
	yv_assume(!yv_istab || ((yv_len & 1) == 0 && yv_len < (size_t)1 << 63));
	yv_w = yv_size(4, 0); yv_all = (_Bool)yv_range(5, 0, 1);
	val.type = (enum YASL_Types)ty; val.value.ival = yv_get(1);
	if (ty == Y_LIST) { yv_ud.data = &l; l.count = yv_size(6, 0); val.value.uval = &yv_ud; yv_shape = op == P_LS ? l.count == yv_len : op == P_VLS && l.count >= yv_len; }
	else if (ty == Y_TABLE) { yv_ud.data = &t; t.count = yv_size(6, 0); val.value.uval = &yv_ud; yv_shape = op == P_TABLE ? t.count == yv_len / 2 : op == P_VTABLE; }
	vm_MATCH_subpattern(&yv_vm, &val); yv_reach();
}
#define COLLS(name, ty) void u_one_LS_##name(void) { coll(P_LS, ty); } void u_one_VLS_##name(void) { coll(P_VLS, ty); } \
	void u_one_TABLE_##name(void) { coll(P_TABLE, ty); } void u_one_VTABLE_##name(void) { coll(P_VTABLE, ty); }
COLLS(i, Y_INT) COLLS(u, Y_UNDEF) COLLS(s, Y_STR) COLLS(l, Y_LIST) COLLS(t, Y_TABLE) COLLS(d, Y_USERDATA)

/* a binding stores the value above the subject, with a reference of its own */
static void bind(int off, int kind) {
	setup(P_BIND, ONE); yv_assume(yv_E[24] == 26 && yv_M[24] != 0);
	yv_code[25] = (unsigned char)off;
	val = kind == 'i' ? YASL_INT(yv_get(1)) : YASL_STR(&yv_s[0]);
	yv_s[0].rc.refs = 7; yv_s[1].rc.refs = 5; yv_ud.rc.refs = 3;
	yv_stack[off + 2] = YASL_STR(&yv_s[1]);      /* stale */
	yv_vm_snap();
	vm_MATCH_subpattern(&yv_vm, &val);
	yv_assert(yv_sameobj(yv_stack[off + 2], val), "the variable holds the value");
	yv_assert(yv_s[0].rc.refs == (kind == 'i' ? 7 : 8) && yv_s[1].rc.refs == 4 && yv_ud.rc.refs == 3, "and a reference to it, and no longer to what was there");
	yv_assert((off == 1 || yv_sameobj(yv_stack[3], yv_stack0[3])) && (off == 2 || yv_sameobj(yv_stack[4], yv_stack0[4])) && yv_sameobj(yv_stack[0], yv_stack0[0]) &&
	          yv_sameobj(yv_stack[1], yv_stack0[1]) && yv_sameobj(yv_stack[2], yv_stack0[2]), "nothing else changes");
	yv_reach();
}
void u_bind_1i(void) { bind(1, 'i'); }
void u_bind_1s(void) { bind(1, 's'); }
void u_bind_2i(void) { bind(2, 'i'); }
void u_bind_2s(void) { bind(2, 's'); }
void u_bind_over(void) {
	setup(P_BIND, ONE); yv_code[25] = (unsigned char)yv_range(2, 0, 255);
	val = YASL_INT(1); yv_vm.fp = STACK_SIZE - 2 - yv_code[25] + (int)yv_range(3, 0, 1);
	yv_x.err = YASL_STACK_OVERFLOW_ERROR;
	vm_MATCH_subpattern(&yv_vm, &val);
}

/* O_MATCH: on with the pattern's code, or to the next arm; the subject is the top of the stack, and stays there */
static void match(int k) {
	yv_vm_setup(0, 3);
	yv_code[24] = O_MATCH; int64_t a = yv_range(0, 0, 20); yv_put_int(a);
	yv_stack[3] = k == 'i' ? YASL_INT(yv_get(1)) : YASL_STR(&yv_s[0]);
	yv_vm_snap();
	yv_x.pc = yv_M[0] != 0 ? yv_code + 45 : yv_code + 33 + a;
	YV_EXEC();
}
void u_match_i(void) { match('i'); }
void u_match_s(void) { match('s'); }
#else
static void seq(void) {
	yv_vm_setup(0, 2);
	yv_N = yv_size(0, 1UL << 40);
	yv_p = malloc(yv_N + 16); yv_assume(yv_p != NULL);
	size_t o = yv_size(1, 0); yv_assume(o <= yv_N);
	yv_vm.pc = yv_p + o;
	yv_mode = SEQ; yv_tab = 0; yv_keychk = 0; yv_istab = 0; yv_l = &l; yv_t = &t;
	yv_all = (_Bool)yv_range(2, 0, 1); yv_w = yv_size(3, 0);
	yv_k0 = yv_K[o];
}
void u_skips(void) { seq(); vm_ff_subpatterns_multiple(&yv_vm, yv_size(4, 0)); yv_reach(); }
void u_list(void) {
	seq(); yv_assume(yv_k0 == 0);
	l.count = yv_size(4, 1UL << 40); l.items = malloc(l.count * sizeof(struct YASL_Object)); yv_assume(l.items != NULL);
	yv_base = l.items; yv_len = yv_size(5, 0); yv_assume(yv_len <= l.count);
	MATCH_list(&yv_vm, &l, yv_len); yv_reach();
}
void u_table(void) {
	seq(); yv_assume(yv_k0 == 0);
	yv_tab = 1; size_t n = yv_size(5, 1UL << 40); yv_len = 2 * n;
	yv_vm.constants = malloc(256 * sizeof(struct YASL_Object)); yv_assume(yv_vm.constants != NULL);
	unsigned char op = yv_op = yv_p[AT(yv_vm.pc)]; yv_oz = KEYSIZE(op);
	yv_assume(n == 0 || (ISKEY(op) && yv_K[AT(yv_vm.pc) + yv_oz] == 1 && AT(yv_vm.pc) + yv_oz <= yv_N));
	vm_MATCH_table_elements(&yv_vm, n, &t); yv_reach();
}
static void key(int op) {
	yv_vm_setup(0, 2);
	yv_p = yv_code; yv_N = 59; yv_vm.pc = yv_code + 24; yv_code[24] = (unsigned char)op;
	yv_mode = SEQ; yv_tab = 1; yv_keychk = 1; yv_istab = 0; yv_t = &t; yv_all = (_Bool)yv_range(2, 0, 1); yv_w = yv_size(3, 0);
	int64_t k = yv_range(0, 0, 3);
	if (op == P_LIT8) memcpy(yv_code + 25, &k, 8); else if (op == P_LIT) yv_code[25] = (unsigned char)k; else if (op == P_BOOL) yv_code[25] = (unsigned char)(k & 1);
	for (int i = 0; i < 4; i++) yv_consts[i] = YASL_INT(1000 + i);
	yv_key = op == P_UNDEF ? YASL_UNDEF() : op == P_BOOL ? YASL_BOOL(k & 1) : YASL_INT(1000 + k);
	yv_len = 2; yv_assume(yv_K[24] == 0 && yv_K[24 + KEYSIZE(op)] == 1);
	vm_MATCH_table_elements(&yv_vm, 1, &t); yv_reach();
}
void u_key_UNDEF(void) { key(P_UNDEF); }
void u_key_BOOL(void) { key(P_BOOL); }
void u_key_LIT(void) { key(P_LIT); }
void u_key_LIT8(void) { key(P_LIT8); }
#endif
