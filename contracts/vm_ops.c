/* C01 / C03: the instructions of the operators against spec_ops.h. */
#include "vmh.h"

static void binop(enum spec_op op, unsigned char code, enum spec_tag ta, enum spec_tag tb) {
	yv_vm_setup(2, 6);
	struct spec_val a = yv_sym(ta, 0), b = yv_sym(tb, 1), r = spec_undef();
	enum spec_res res = spec_binop(op, a, b, &r);
	yv_assume(res != SR_UNSPEC);
	yv_stack[5] = yv_obj(a);
	yv_stack[6] = yv_obj(b);
	*yv_vm.pc = code;
	yv_vm_snap();
	yv_x.sp = 5; yv_x.keep = 5; yv_x.pc++; yv_x.ntop = 1; yv_x.top[0] = yv_obj(r);
	yv_x.err = yv_err(res);
	YV_EXEC();
}
static void unop(enum spec_op op, unsigned char code, enum spec_tag ta) {
	yv_vm_setup(2, 6);
	struct spec_val a = yv_sym(ta, 0), r = spec_undef();
	enum spec_res res = spec_unop(op, a, &r);
	yv_assume(res != SR_UNSPEC);
	yv_stack[6] = yv_obj(a);
	*yv_vm.pc = code;
	yv_vm_snap();
	yv_x.keep = 6; yv_x.pc++; yv_x.ntop = 1; yv_x.top[0] = yv_obj(r);
	yv_x.err = yv_err(res);
	YV_EXEC();
}

#define B(name, S, O) \
	void u_##name##_ii(void) { binop(S, O, TV_INT, TV_INT); } \
	void u_##name##_if(void) { binop(S, O, TV_INT, TV_FLOAT); } \
	void u_##name##_fi(void) { binop(S, O, TV_FLOAT, TV_INT); } \
	void u_##name##_ff(void) { binop(S, O, TV_FLOAT, TV_FLOAT); } \
	void u_##name##_ib(void) { binop(S, O, TV_INT, TV_BOOL); } \
	void u_##name##_bf(void) { binop(S, O, TV_BOOL, TV_FLOAT); } \
	void u_##name##_bb(void) { binop(S, O, TV_BOOL, TV_BOOL); } \
	void u_##name##_ui(void) { binop(S, O, TV_UNDEF, TV_INT); } \
	void u_##name##_uu(void) { binop(S, O, TV_UNDEF, TV_UNDEF); }
#define U(name, S, O) \
	void u_##name##_i(void) { unop(S, O, TV_INT); } \
	void u_##name##_f(void) { unop(S, O, TV_FLOAT); } \
	void u_##name##_b(void) { unop(S, O, TV_BOOL); } \
	void u_##name##_u(void) { unop(S, O, TV_UNDEF); }

B(add, S_ADD, O_ADD) B(sub, S_SUB, O_SUB) B(mul, S_MUL, O_MUL) B(fdiv, S_FDIV, O_FDIV) B(idiv, S_IDIV, O_IDIV)
B(mod, S_MOD, O_MOD) B(pow, S_POW, O_EXP) B(bor, S_BOR, O_BOR) B(bxor, S_BXOR, O_BXOR) B(band, S_BAND, O_BAND)
B(bandnot, S_BANDNOT, O_BANDNOT) B(shl, S_SHL, O_BSL) B(shr, S_SHR, O_BSR)
B(lt, S_LT, O_LT) B(le, S_LE, O_LE) B(gt, S_GT, O_GT) B(ge, S_GE, O_GE) B(eq, S_EQ, O_EQ) B(id, S_ID, O_ID)
U(neg, S_NEG, O_NEG) U(pos, S_POS, O_POS) U(bnot, S_BNOT, O_BNOT) U(not, S_NOT, O_NOT)

/* branches: `op` pops the condition (where it has one) and adds the offset exactly when it must */
static void branch(unsigned char op, enum spec_tag t, bool popped) {
	yv_vm_setup(2, 6);
	int64_t off = yv_range(1, -20, 20);
	struct spec_val a = yv_sym(t, 0);
	yv_stack[6] = yv_obj(a);
	*yv_vm.pc = op;
	yv_put_int(off);
	yv_vm_snap();
	bool taken = op == O_BR_8 || (op == O_BRF_8 && spec_falsey(a)) || (op == O_BRT_8 && !spec_falsey(a)) || (op == O_BRN_8 && t != TV_UNDEF);
	if (popped) { yv_x.sp = 5; yv_x.keep = 6; }
	yv_x.pc += 9 + (taken ? off : 0);
	YV_EXEC();
}
#define BR(name, O) \
	void u_##name##_i(void) { branch(O, TV_INT, true); } \
	void u_##name##_f(void) { branch(O, TV_FLOAT, true); } \
	void u_##name##_b(void) { branch(O, TV_BOOL, true); } \
	void u_##name##_u(void) { branch(O, TV_UNDEF, true); }
BR(brf, O_BRF_8) BR(brt, O_BRT_8) BR(brn, O_BRN_8)
void u_br(void) { branch(O_BR_8, TV_INT, false); }

/* strings: every content of up to YV_STRN bytes on both sides */
#ifndef YV_STRN
#define YV_STRN 3
#endif
static char yv_sbuf[2][YV_STRN + 1];
static void mkstr(int w, int k) {
	int64_t len = yv_range(k, 0, YV_STRN);
	for (int i = 0; i < YV_STRN; i++) yv_sbuf[w][i] = (char)yv_range(k + 1 + i, 0, 255);
	yv_s[w].str = yv_sbuf[w]; yv_s[w].start = 0; yv_s[w].end = len; yv_s[w].on_heap = false; yv_s[w].rc = NEW_RC();
	yv_s[w].rc.refs = 5;
}
static int cmpstr(void) {
	int64_t la = yv_s[0].end, lb = yv_s[1].end;
	for (int i = 0; i < YV_STRN; i++) {
		if (i >= la || i >= lb) break;
		int x = (unsigned char)yv_sbuf[0][i], y = (unsigned char)yv_sbuf[1][i];
		if (x != y) return x < y ? -1 : 1;
	}
	return la < lb ? -1 : la > lb;
}
static void strop(unsigned char code) {
	yv_vm_setup(2, 6);
	mkstr(0, 0); mkstr(1, 8);
	yv_stack[5] = YASL_STR(&yv_s[0]);
	yv_stack[6] = YASL_STR(&yv_s[1]);
	*yv_vm.pc = code;
	yv_vm_snap();
	int c = cmpstr();
	yv_x.sp = 5; yv_x.keep = 5; yv_x.pc++; yv_x.ntop = 1;
	yv_x.top[0] = YASL_BOOL(code == O_EQ ? c == 0 : code == O_LT ? c < 0 : code == O_LE ? c <= 0 : code == O_GT ? c > 0 : c >= 0);
	YV_EXEC();
	yv_refs_ok();
}
void u_str_eq(void) { strop(O_EQ); }
void u_str_lt(void) { strop(O_LT); }
void u_str_le(void) { strop(O_LE); }
void u_str_gt(void) { strop(O_GT); }
void u_str_ge(void) { strop(O_GE); }
