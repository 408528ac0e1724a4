/* The instructions that move values: constants, the stack, locals, branches to functions and back, loops, slices (C09, C11, C12, C17, C18, C20). */
#include "vmh.h"

/* a value of kind `k` ('i'nt, 'f'loat, 's'tring) from inputs */
static struct YASL_Object val(char k, int in) {
	switch (k) {
	case 's': return YASL_STR(&yv_s[0]);
	case 't': return YASL_STR(&yv_s[1]);
	case 'f': return YASL_FLOAT(yv_getd(in));
	case 'b': return YASL_BOOL(yv_range(in, 0, 1));
	case 'u': return YASL_UNDEF();
	default: return YASL_INT(yv_get(in));
	}
}
static void strs(void) {
	for (int i = 0; i < 2; i++) { yv_s[i].str = (char *)"abcdefgh"; yv_s[i].start = 0; yv_s[i].end = i; yv_s[i].on_heap = false; yv_s[i].rc = NEW_RC(); yv_s[i].rc.refs = 9; }
}
/* four locals (slots 3..6) above the function at slot 2; the kinds are given bottom up */
static void locals(const char *kinds) {
	yv_vm_setup(2, 6);
	strs();
	for (int i = 0; i < 4; i++) yv_stack[3 + i] = val(kinds[i], 8 + i);
}
static void op1(unsigned char op, int arg) { yv_vm.pc[0] = op; yv_vm.pc[1] = (unsigned char)arg; }
static void push_expect(struct YASL_Object v, int len) { yv_x.sp = 7; yv_x.keep = 7; yv_x.pc += len; yv_x.ntop = 1; yv_x.top[0] = v; }

/* ---- constants */
void u_bconst_t(void) { locals("iiis"); op1(O_BCONST_T, 0); yv_vm_snap(); push_expect(YASL_BOOL(true), 1); YV_EXEC(); yv_refs_ok(); }
void u_bconst_f(void) { locals("iiis"); op1(O_BCONST_F, 0); yv_vm_snap(); push_expect(YASL_BOOL(false), 1); YV_EXEC(); yv_refs_ok(); }
void u_nconst(void) { locals("iiis"); op1(O_NCONST, 0); yv_vm_snap(); push_expect(YASL_UNDEF(), 1); YV_EXEC(); yv_refs_ok(); }
void u_end(void) { locals("iiis"); op1(O_END, 0); yv_vm_snap(); push_expect(YASL_END(), 1); YV_EXEC(); yv_refs_ok(); }
static void lit(char kind, bool eight) {
	locals("iiis");
	int64_t k = yv_range(0, 0, 3);
	for (int i = 0; i < 4; i++) yv_consts[i] = val(kind, 16 + i);
	if (eight) { op1(O_LIT8, 0); yv_put_int(k); } else op1(O_LIT, (int)k);
	yv_vm_snap();
	push_expect(yv_consts[k], eight ? 9 : 2);
	YV_EXEC();
	yv_refs_ok();
}
void u_lit_i(void) { lit('i', false); }
void u_lit_f(void) { lit('f', false); }
void u_lit_s(void) { lit('t', false); }
void u_lit8_i(void) { lit('i', true); }
void u_lit8_s(void) { lit('t', true); }
void u_fconst(void) {
	locals("iiii");
	int64_t len = yv_range(0, 0, 20);
	op1(O_FCONST, 0); yv_put_int(len);
	yv_vm_snap();
	push_expect(YASL_FN(yv_vm.pc + 9), 9 + (int)len);
	YV_EXEC();
}
/* ---- stack */
static void dup(const char *kinds) { locals(kinds); op1(O_DUP, 0); yv_vm_snap(); push_expect(yv_stack[6], 1); YV_EXEC(); yv_refs_ok(); }
void u_dup_i(void) { dup("iiii"); }
void u_dup_s(void) { dup("iits"); }
static void swap(const char *kinds) {
	locals(kinds); op1(O_SWAP, 0); yv_vm_snap();
	yv_x.pc++; yv_x.keep = 5; yv_x.ntop = 2; yv_x.top[0] = yv_stack[5]; yv_x.top[1] = yv_stack[6];
	YV_EXEC(); yv_refs_ok();
}
void u_swap_i(void) { swap("iiii"); }
void u_swap_s(void) { swap("iits"); }
static void pop(const char *kinds) { locals(kinds); op1(O_POP, 0); yv_vm_snap(); yv_x.pc++; yv_x.sp = 5; yv_x.keep = 6; YV_EXEC(); yv_refs_ok(); }
void u_pop_i(void) { pop("iiii"); }
void u_pop_s(void) { pop("siis"); }
void u_decsp(void) { locals("iiis"); int n = (int)yv_range(0, 0, 4); op1(O_DECSP, n); yv_vm_snap(); yv_x.pc += 2; yv_x.sp = 6 - n; yv_x.keep = 7; YV_EXEC(); yv_refs_ok(); }
void u_incsp(void) { locals("iiis"); int n = (int)yv_range(0, 0, 4); op1(O_INCSP, n); yv_vm_snap(); yv_x.pc += 2; yv_x.sp = 6 + n; yv_x.keep = 7; YV_EXEC(); yv_refs_ok(); }
/* ---- locals */
static void lload(const char *kinds, int k) { locals(kinds); op1(O_LLOAD, k); yv_vm_snap(); push_expect(yv_stack[3 + k], 2); YV_EXEC(); yv_refs_ok(); }
static void lstore(const char *kinds, int k) {
	locals(kinds); op1(O_LSTORE, k); yv_vm_snap();
	yv_x.pc += 2; yv_x.sp = 5; yv_x.keep = 6; yv_x.but = 3 + k;
	struct YASL_Object v = yv_stack[6];
	YV_EXEC();
	yv_assert(yv_sameobj(yv_stack[3 + k], v), "the local holds the value");
	yv_refs_ok();
}
static void del_fp(const char *kinds, int k) {
	locals(kinds); op1(O_DEL_FP, k); yv_vm_snap();
	yv_x.pc += 2; yv_x.sp = 5; yv_x.keep = 3 + k;
	struct YASL_Object was[4];
	for (int i = 0; i < 4; i++) was[i] = yv_stack[3 + i];
	YV_EXEC();
	for (int i = k; i < 3; i++) yv_assert(yv_sameobj(yv_stack[3 + i], was[i + 1]), "the locals above move down");
	yv_refs_ok();
}
static void moveup(const char *kinds, int k) {
	locals(kinds); op1(O_MOVEUP_FP, k); yv_vm_snap();
	yv_x.pc += 2; yv_x.keep = 3 + k; yv_x.ntop = 1; yv_x.top[0] = yv_stack[3 + k];
	struct YASL_Object was[4];
	for (int i = 0; i < 4; i++) was[i] = yv_stack[3 + i];
	YV_EXEC();
	for (int i = k; i < 3; i++) yv_assert(yv_sameobj(yv_stack[3 + i], was[i + 1]), "the values above move down");
	yv_refs_ok();
}
#define EACH(fn) \
	void u_##fn##_0(void) { fn("iiii", 0); } void u_##fn##_1(void) { fn("ifbi", 1); } void u_##fn##_2(void) { fn("iifi", 2); } void u_##fn##_3(void) { fn("ibif", 3); } \
	void u_##fn##_s0(void) { fn("siit", 0); } void u_##fn##_s1(void) { fn("tsis", 1); } void u_##fn##_s2(void) { fn("itsi", 2); } void u_##fn##_s3(void) { fn("itss", 3); }
EACH(lload) EACH(lstore) EACH(del_fp) EACH(moveup)

/* ---- calls: a function at slot 4 with the arguments above it, called from the frame at slot 2 */
static unsigned char *yv_fcode;
static void callee(int args, int num_params, int expected, char kind) {
	yv_vm_setup(2, 4 + args);
	strs();
	yv_fcode = yv_code + 40;
	*yv_fcode = (unsigned char)num_params;
	yv_stack[4] = YASL_FN(yv_fcode);
	for (int i = 0; i < args; i++) yv_stack[5 + i] = val(i ? 'i' : kind, 8 + i);
	yv_vm.frame_num = 1;
	yv_vm.frames[1] = ((struct CallFrame) { yv_code + 20, 2, -1, -1, expected });
	yv_vm.next_fp = 4;
}
static void call(int args, int params, char kind) {
	callee(args, params, 1, kind);
	op1(O_CALL, 0);
	yv_vm_snap();
	unsigned char *ret = yv_vm.pc + 1;
	yv_x.pc = yv_fcode + 1; yv_x.fp = 4; yv_x.sp = 4 + params; yv_x.keep = 5 + (args < params ? args : params);
	struct CallFrame f0 = yv_vm.frames[0];
	YV_EXEC();
	for (int i = args; i < params; i++) yv_assert(yv_stack[5 + i].type == Y_UNDEF, "missing arguments are undef");
	yv_assert(yv_vm.frames[1].pc == ret, "the call returns behind the instruction");
	yv_assert(yv_vm.frames[1].prev_fp == 2 && yv_vm.frames[1].num_returns == 1, "the frame keeps the caller");
	yv_assert(yv_vm.frames[0].pc == f0.pc && yv_vm.frames[0].prev_fp == f0.prev_fp, "the frame of the caller stays");
	yv_refs_ok();
}
#define CALLS(a, p) void u_call_##a##_##p(void) { call(a, p, 'i'); } void u_calls_##a##_##p(void) { call(a, p, 's'); }
CALLS(0, 0) CALLS(0, 2) CALLS(1, 0) CALLS(1, 1) CALLS(2, 1) CALLS(2, 3) CALLS(3, 0) CALLS(3, 3)

void u_init_call(void) {
	yv_vm_setup(2, 5);
	yv_stack[5] = YASL_FN(yv_code + 40);
	int n = (int)yv_range(0, -1, 20);
	op1(O_INIT_CALL, n);
	yv_vm.next_fp = (int)yv_range(1, -1, 6);
	yv_vm.loopframe_num = (int)yv_range(2, -1, 100);
	yv_vm_snap();
	int next = yv_vm.next_fp, lp = yv_vm.loopframe_num;
	yv_x.pc += 2; yv_x.next_fp = 5; yv_x.frame_num = 1;
	YV_EXEC();
	struct CallFrame f = yv_vm.frames[1];
	yv_assert(f.prev_fp == 2 && f.curr_fp == next && f.lp == lp && f.num_returns == n, "the frame records the caller");
}
void u_init_call_notfn(void) {
	yv_vm_setup(2, 5);
	yv_stack[5] = YASL_INT(yv_get(0));
	op1(O_INIT_CALL, 1);
	yv_vm_snap();
	yv_x.err = YASL_TYPE_ERROR;
	YV_EXEC();
}
/* a return from the frame at slot 4, whose function has `nlocals` values of which the last `have` are returned and `want` are expected (-1: any) */
static void ret(unsigned char op, int nlocals, int have, int want, char kind, int lp, int loops) {
	yv_vm_setup(2, 4 + nlocals);
	strs();
	yv_stack[4] = YASL_FN(yv_code + 40);
	for (int i = 0; i < nlocals; i++) yv_stack[5 + i] = val(i == nlocals - have ? kind : i == 0 ? 't' : 'i', 8 + i);
	yv_vm.frame_num = 1;
	int prev = (int)yv_range(0, 0, 3), curr = (int)yv_range(1, -1, 3);
	yv_vm.frames[1] = ((struct CallFrame) { yv_code + 30, prev, curr, lp, want });
	yv_vm.fp = 4;
	yv_vm.loopframe_num = loops;
	yv_vm.loopframes[0].iterable = YASL_INT(3);
	yv_vm.loopframes[1].iterable = YASL_INT(4);
	op1(op, nlocals - have);
	yv_vm_snap();
	struct YASL_Object was[4];
	for (int i = 0; i < 4; i++) was[i] = yv_stack[5 + nlocals - have + (i < have ? i : 0)];
	int n = want < 0 ? have : want;
	yv_x.pc = yv_code + 30; yv_x.fp = prev; yv_x.next_fp = curr; yv_x.frame_num = 0; yv_x.loopframe_num = lp;
	yv_x.sp = 3 + n; yv_x.keep = 4;
	YV_EXEC();
	for (int i = 0; i < n; i++)
		yv_assert(yv_sameobj(yv_stack[4 + i], i < have ? was[i] : YASL_UNDEF()), "the results are where the function was, missing ones are undef");
	yv_refs_ok();
}
#define RETS(name, l, h, w) void u_ret_##name(void) { ret(O_RET, l, h, w, 'i', -1, -1); } void u_rets_##name(void) { ret(O_CRET, l, h, w, 's', 0, 1); }
RETS(1_1_1, 1, 1, 1) RETS(2_1_1, 2, 1, 1) RETS(3_1_1, 3, 1, 1) RETS(3_2_1, 3, 2, 1) RETS(2_2_3, 2, 2, 3) RETS(1_1_0, 1, 1, 0) RETS(3_3_m, 3, 3, -1) RETS(3_2_m, 3, 2, -1) RETS(1_1_3, 1, 1, 3)

/* ---- loops */
static void initfor(char kind) {
	locals("iiii");
	yv_stack[6] = val(kind, 11);
	yv_vm.loopframe_num = (int)yv_range(0, -1, NUM_LOOPFRAMES - 2);
	op1(O_INITFOR, 0);
	yv_vm_snap();
	yv_x.pc++; yv_x.sp = 5; yv_x.keep = 6; yv_x.loopframe_num++;
	struct YASL_Object v = yv_stack[6];
	int refs = yv_s[0].rc.refs;
	YV_EXEC();
	yv_assert(yv_sameobj(yv_vm.loopframes[yv_x.loopframe_num].iterable, v) && yv_vm.loopframes[yv_x.loopframe_num].iter == 0, "the loop starts at the first element of the value");
	yv_assert((int)yv_s[0].rc.refs == refs + (kind == 's'), "the loop holds a reference");
}
void u_initfor_i(void) { initfor('i'); }
void u_initfor_s(void) { initfor('s'); }
void u_initfor_full(void) { locals("iiii"); yv_vm.loopframe_num = NUM_LOOPFRAMES - 1; op1(O_INITFOR, 0); yv_vm_snap(); yv_x.err = YASL_STACK_OVERFLOW_ERROR; YV_EXEC(); }
static void endfor(int at) {
	locals("iiii");
	yv_vm.loopframe_num = at;
	yv_vm.loopframes[yv_vm.loopframe_num].iterable = YASL_STR(&yv_s[0]);
	op1(O_ENDFOR, 0);
	yv_vm_snap();
	yv_x.pc++; yv_x.loopframe_num--;
	int refs = yv_s[0].rc.refs;
	YV_EXEC();
	yv_assert((int)yv_s[0].rc.refs == refs - 1, "the loop gives its reference back");
}
void u_endfor_0(void) { endfor(0); }
void u_endfor_2(void) { endfor(2); }
static char yv_heap[16];
static void iter_str(bool heap) {
	locals("iiis");
	int64_t len, start;
	if (heap) { start = yv_range(1, 0, 15); len = yv_range(2, 0, 15); yv_assume(start + len <= 16); yv_s[1].str = yv_heap; }
	else { start = yv_range(1, 0, 1LL << 40); len = yv_range(2, 0, 1LL << 30); }
	yv_s[1].on_heap = heap; yv_s[1].start = start; yv_s[1].end = start + len;
	int it = (int)yv_range(0, 0, 1LL << 30);
	yv_assume(it <= len);
	yv_vm.loopframe_num = 0;
	yv_vm.loopframes[0].iterable = YASL_STR(&yv_s[1]);
	yv_vm.loopframes[0].iter = it;
	op1(O_ITER_1, 0);
	yv_vm_snap();
	bool more = it < len;
	yv_x.pc++; yv_x.sp = more ? 8 : 7; yv_x.keep = 7; yv_x.ntop = 1; yv_x.top[0] = YASL_BOOL(more);
	int refs = yv_s[1].rc.refs;
	YV_EXEC();
	yv_assert(yv_vm.loopframes[0].iter == it + more, "the loop moves on by one");
	yv_assert((int)yv_s[1].rc.refs == refs, "the string keeps its references");
	if (more) {
		yv_assert(yv_stack[7].type == Y_STR, "the element of a string is a string");
		struct YASL_String *c = yv_stack[7].value.sval;
		yv_assert(c->end == c->start + 1 && c->rc.refs == 1 && c->on_heap == heap, "of one byte");
		if (heap) yv_assert(c->str[c->start] == yv_heap[start + it], "which is the next one");
		else yv_assert(c->str == yv_s[1].str && (int64_t)c->start == start + it, "which is the next one");
	}
}
void u_iter_str(void) { iter_str(false); }
void u_iter_strheap(void) { for (int i = 0; i < 16; i++) yv_heap[i] = (char)yv_range(20 + i, 0, 255); iter_str(true); }
void u_iter_bad(void) { locals("iiis"); yv_vm.loopframe_num = 0; yv_vm.loopframes[0].iterable = YASL_INT(3); op1(O_ITER_1, 0); yv_vm_snap(); yv_x.err = YASL_TYPE_ERROR; YV_EXEC(); }

/* ---- slices: [start, end) with negative indices from the end, clipped to the value */
static int64_t clip(int64_t i, int64_t len) { if (i < 0) i += len; return i < 0 ? 0 : i > len ? len : i; }
static void slice(char ks, char ke, bool heap) {
	yv_vm_setup(2, 6);
	strs();
	int64_t len, at = 0;
	{
		if (heap) { for (int i = 0; i < 6; i++) yv_heap[i] = (char)yv_range(20 + i, 0, 255); at = yv_range(2, 0, 5); len = yv_range(3, 0, 5); yv_assume(at + len <= 6); yv_s[0].str = yv_heap; }
		else { at = yv_range(2, 0, 1LL << 40); len = yv_range(3, 0, 1LL << 40); }
		yv_s[0].on_heap = heap; yv_s[0].start = at; yv_s[0].end = at + len; yv_s[0].rc.refs = 3;
		yv_stack[4] = YASL_STR(&yv_s[0]);
	}
	yv_stack[5] = val(ks, 0);
	yv_stack[6] = val(ke, 1);
	op1(O_SLICE, 0);
	yv_vm_snap();
	yv_x.pc++; yv_x.sp = 4; yv_x.keep = 4;
	int64_t s = ks == 'u' ? 0 : clip(yv_stack[5].value.ival, len), e = ke == 'u' ? len : clip(yv_stack[6].value.ival, len);
	if (!((ks == 'i' || ks == 'u') && (ke == 'i' || ke == 'u'))) yv_x.err = YASL_TYPE_ERROR;
	if (s > e) s = e;
	YV_EXEC();
	{
		yv_assert(yv_stack[4].type == Y_STR, "a slice of a string is a string");
		struct YASL_String *r = yv_stack[4].value.sval;
		yv_assert(r->rc.refs == 1 && r != &yv_s[0], "a new one");
		yv_assert((int64_t)(r->end - r->start) == e - s, "of the bytes from start up to end");
		if (heap) { for (int i = 0; i < 6; i++) yv_assert(i >= e - s || r->str[r->start + i] == yv_heap[at + s + i], "in order"); }
		else yv_assert(r->str == yv_s[0].str && (int64_t)r->start == at + s, "in order");
	}
}
void u_slice_str_ii(void) { slice('i', 'i', false); }
void u_slice_str_iu(void) { slice('i', 'u', false); }
void u_slice_str_ui(void) { slice('u', 'i', false); }
void u_slice_str_uu(void) { slice('u', 'u', false); }
void u_slice_str_fi(void) { slice('f', 'i', false); }
void u_slice_str_ib(void) { slice('i', 'b', false); }
void u_slice_heap_ii(void) { slice('i', 'i', true); }
void u_len_str(void) {
	locals("iiis");
	int64_t at = yv_range(0, 0, 1LL << 40), len = yv_range(1, 0, 1LL << 40);
	yv_s[0].start = at; yv_s[0].end = at + len;
	op1(O_LEN, 0);
	yv_vm_snap();
	yv_x.pc++; yv_x.keep = 6; yv_x.ntop = 1; yv_x.top[0] = YASL_INT(len);
	YV_EXEC(); yv_refs_ok();
}
/* ---- limits: nothing is written outside the stack; here the stack ends at slot STACK_SIZE - 1, the harness has only the first slots */
static void full(unsigned char op, int arg) {
	locals("iiii");
	yv_vm.sp = STACK_SIZE - 1;
	op1(op, arg);
	yv_vm_snap();
	yv_x.err = YASL_STACK_OVERFLOW_ERROR;
	YV_EXEC();
}
void u_full_bconst(void) { full(O_BCONST_T, 0); }
void u_full_nconst(void) { full(O_NCONST, 0); }
void u_full_end(void) { full(O_END, 0); }
static void ints(void) { for (int i = 0; i < 4; i++) yv_consts[i] = YASL_INT(yv_get(10 + i)); }
void u_full_lit(void) { ints(); full(O_LIT, 0); }
void u_full_lit8(void) { ints(); locals("iiii"); yv_vm.sp = STACK_SIZE - 1; op1(O_LIT8, 0); yv_put_int(1); yv_vm_snap(); yv_x.err = YASL_STACK_OVERFLOW_ERROR; YV_EXEC(); }
void u_full_lload(void) { full(O_LLOAD, 1); }
void u_full_fconst(void) { locals("iiii"); yv_vm.sp = STACK_SIZE - 1; op1(O_FCONST, 0); yv_put_int(3); yv_vm_snap(); yv_x.err = YASL_STACK_OVERFLOW_ERROR; YV_EXEC(); }
void u_full_frames(void) {
	yv_vm_setup(2, 5);
	yv_stack[5] = YASL_FN(yv_code + 40);
	yv_vm.frame_num = NUM_FRAMES - 1;
	op1(O_INIT_CALL, 1);
	yv_vm_snap();
	yv_x.err = YASL_STACK_OVERFLOW_ERROR;
	YV_EXEC();
}
void u_halt(void) { locals("iiii"); op1(O_HALT, 0); yv_vm_snap(); yv_x.err = YASL_SUCCESS; YV_EXEC(); }
static void badop(int op) { locals("iiii"); op1((unsigned char)op, 0); yv_vm_snap(); yv_x.err = YASL_ERROR; YV_EXEC(); }
void u_badop_0(void) { badop(0); }
void u_badop_77(void) { badop(0x77); }
void u_badop_fe(void) { badop(0xFE); }
