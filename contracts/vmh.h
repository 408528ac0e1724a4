/* A VM in an arbitrary (valid) state around one instruction, and the contract of vm_executenext and friends. */
#ifndef VMH_H_
#define VMH_H_
#include "yvh.h"
#define pow yv_pow
double yv_pow(double, double);
#undef longjmp
#define longjmp yv_longjmp
void yv_longjmp(jmp_buf b, int v);
#include "spec_ops.h"
#include "interpreter/VM.h"
#include "opcode.h"
#include "yasl_error.h"
#include "interpreter/closure.h"
#include "interpreter/YASL_Object.h"

/* The same macros, applied to a copy of the value: CBMC does not follow a pointer out of a union within one expression. */
static inline struct YASL_List *yv_getlist(struct YASL_Object v) { return YASL_GETLIST(v); }
static inline struct YASL_Table *yv_gettable(struct YASL_Object v) { return YASL_GETTABLE(v); }
static inline struct RC_UserData *yv_getud(struct YASL_Object v) { return YASL_GETUSERDATA(v); }
#undef YASL_GETLIST
#undef YASL_GETTABLE
#undef YASL_GETUSERDATA
#define YASL_GETLIST(v) yv_getlist(v)
#define YASL_GETTABLE(v) yv_gettable(v)
#define YASL_GETUSERDATA(v) yv_getud(v)

#ifndef YV_STACK
#define YV_STACK 24
#endif
#ifdef YV_NATIVE
#define YV_CODE 96
#else
#define YV_CODE 60    /* CBMC keeps arrays of up to 64 elements element by element */
#endif
#ifdef YV_STATE      /* the machine as part of a state, for functions of the C API */
#include "yasl_state.h"
static struct YASL_State yv_S;
#define yv_vm yv_S.vm
#else
static struct VM yv_vm;
#endif
static struct YASL_Object yv_stack[YV_STACK];
static struct YASL_Object yv_stack0[YV_STACK];
static unsigned char yv_code[YV_CODE];
static struct RC_UserData *yv_builtins[NUM_TYPES];
static struct YASL_Object yv_consts[4];
static struct YASL_String yv_s[2];      /* strings of which slots of the stack may hold references */

static struct RC_UserData yv_ud;        /* a list, table or userdata likewise */
#ifndef YV_EXTRA_ASSIGNS
#define YV_EXTRA_ASSIGNS
#endif
#define YV_NKEEP 8

/* what the postcondition requires of the state */
static struct {
	int sp, fp, next_fp, frame_num, loopframe_num;
	unsigned char *pc;
	int keep;                     /* slots [0, keep) are as before, except slot `but` */
	int but;
	int ntop;                     /* this many slots on top are as in top[] */
	struct YASL_Object top[3];    /* top[0] is the top of the stack */
	bool any_nan;
	int err;                      /* the error that has to be thrown; -1: none */
} yv_x;

static inline bool yv_sameobj(struct YASL_Object a, struct YASL_Object b) {
	if (a.type != b.type) return false;
	if (a.type == Y_FLOAT) return YV_SAMEBITS(a.value.ival, b.value.ival);
	if (a.type == Y_BOOL) return (!a.value.ival) == (!b.value.ival);
	if (a.type == Y_UNDEF || a.type == Y_END) return true;
	if (a.type == Y_INT) return a.value.ival == b.value.ival;
	return a.value.sval == b.value.sval;
}

static bool yv_post_regs(void) {
	return yv_vm.sp == yv_x.sp && yv_vm.fp == yv_x.fp && yv_vm.next_fp == yv_x.next_fp &&
		yv_vm.frame_num == yv_x.frame_num && yv_vm.loopframe_num == yv_x.loopframe_num && yv_vm.stack == yv_stack;
}
static bool yv_post_pc(void) { return yv_vm.pc == yv_x.pc; }
/* no loops here: loop contracts elsewhere would make CBMC's frame checks reject their counters */
#define YV_TOP1(i) (!((i) < yv_x.ntop) || yv_sameobj(yv_stack[yv_x.sp - (i)], yv_x.top[i]))
static bool yv_post_top(void) { return YV_TOP1(0) && YV_TOP1(1) && YV_TOP1(2); }
#define YV_KEEP1(i) (!((i) < yv_x.keep && (i) != yv_x.but) || yv_sameobj(yv_stack[i], yv_stack0[i]))
static bool yv_post_rest(void) {
	return YV_KEEP1(0) && YV_KEEP1(1) && YV_KEEP1(2) && YV_KEEP1(3) && YV_KEEP1(4) && YV_KEEP1(5) && YV_KEEP1(6) && YV_KEEP1(7);
}
static bool yv_post_noerr(void) { return yv_x.err < 0; }

#define YV_VM_CONTRACT \
	YV_REQUIRES(vm == &yv_vm) \
	YV_ASSIGNS(__CPROVER_object_whole(vm), __CPROVER_object_whole(vm->stack), __CPROVER_object_whole(yv_s), __CPROVER_object_whole(&yv_ud) YV_EXTRA_ASSIGNS) \
	YV_ENSURES(yv_post_noerr()) \
	YV_ENSURES(yv_post_regs()) \
	YV_ENSURES(yv_post_pc()) \
	YV_ENSURES(yv_post_top()) \
	YV_ENSURES(yv_post_rest())

void vm_executenext(struct VM *const vm) YV_VM_CONTRACT;
#ifdef YV_MORE_CONTRACTS
YV_MORE_CONTRACTS
#endif
#ifndef YV_NATIVE
double __CPROVER_uninterpreted_pow(double, double);
double yv_pow(double a, double b) { return __CPROVER_uninterpreted_pow(a, b); }
void vm_print_err(struct VM *vm, const char *const fmt, ...) YV_REQUIRES(1) YV_ASSIGNS() YV_ENSURES(1);
#endif

#ifndef YV_NATIVE
#include "refs.h"       /* the contracts of inc_ref and dec_ref */
#endif

#include "interpreter/VM.c"
#undef longjmp

void yv_longjmp(jmp_buf b, int v) {
	(void) b; (void) v;
	yv_assert(yv_x.err >= 0, "throws only when the specification says so");
	yv_assert(yv_vm.status == yv_x.err, "throws the specified error");
#ifdef YV_NATIVE
	yv_stop();
#else
	if (yv_x.err >= 0) yv_reach();
	__CPROVER_assume(0);
#endif
}

#ifdef YV_NATIVE
#undef pow
double yv_pow(double a, double b) { return pow(a, b); }
static size_t yv_noprint(struct IO *const io, const char *const fmt, va_list a) { (void)io; (void)fmt; (void)a; return 0; }
#define YV_EXEC() do { vm_executenext(&yv_vm); yv_checkall(); } while (0)
#else
#define YV_EXEC() do { vm_executenext(&yv_vm); yv_assert(yv_post_noerr(), "returns only when no error is specified"); if (yv_x.err < 0) yv_reach(); } while (0)
#endif
static inline void yv_checkall(void) {
	yv_assert(yv_post_noerr(), "an error is thrown when the specification says so");
	yv_assert(yv_post_regs(), "stack, frame and loop registers");
	yv_assert(yv_post_pc(), "program counter");
	yv_assert(yv_post_top(), "result on top of the stack");
	yv_assert(yv_post_rest(), "the rest of the stack is unchanged");
}

/* every slot of the stack (popped ones included, until they are overwritten) counts as one reference: refs - slots is what it was */
static int yv_slots(void *p) {
	int n = 0;
	for (int i = 0; i < YV_NKEEP; i++) if (yv_stack[i].type == Y_STR && (void *)yv_stack[i].value.sval == p) n++;
	return n;
}
static int yv_refs0[2];
static void yv_refs_snap(void) { for (int i = 0; i < 2; i++) yv_refs0[i] = (int)yv_s[i].rc.refs - yv_slots(&yv_s[i]); }
static void yv_refs_ok(void) {
	for (int i = 0; i < 2; i++) yv_assert((int)yv_s[i].rc.refs - yv_slots(&yv_s[i]) == yv_refs0[i], "reference counts follow the references");
}

/* A valid VM: the current frame starts at `fp`, `sp` is the top. Slots hold ints unless a unit sets them. */
static void yv_vm_setup(int fp, int sp) {
#ifdef YV_NATIVE
	memset(&yv_vm, 0, sizeof yv_vm);
	memset(yv_code, 0, sizeof yv_code);
	memset(yv_stack, 0, sizeof yv_stack);
	((int64_t *)yv_code)[1] = 88;
	yv_code[88] = 0x7F;
	yv_vm.err.print = yv_noprint;
	yv_vm.out.print = yv_noprint;
#endif
	yv_vm.stack = yv_stack;
	yv_vm.code = yv_code;
	yv_vm.pc = yv_code + 24;
	yv_vm.sp = sp;
	yv_vm.fp = fp;
	yv_vm.next_fp = -1;
	yv_vm.frame_num = fp >= 0 ? 0 : -1;
	if (fp >= 0) yv_vm.frames[0] = ((struct CallFrame) { yv_code + 24, -1, -1, -1, 1 });
	yv_vm.loopframe_num = -1;
	yv_vm.pending = NULL;
	yv_vm.builtins_htable = yv_builtins;
	yv_vm.constants = yv_consts;
	yv_vm.num_constants = 4;
	yv_vm.status = 0;
	for (int i = 0; i < NUM_TYPES; i++) yv_builtins[i] = NULL;
	for (int i = 0; i < YV_STACK; i++) yv_stack[i] = YASL_UNDEF();
	for (int i = 0; i < YV_NKEEP && i < YV_STACK; i++) yv_stack[i] = YASL_INT(1000 + i);
	if (fp >= 0) yv_stack[fp] = YASL_FN(yv_code);
}
/* snapshot: call when the state is complete. By default nothing changes but the pc. */
static void yv_vm_snap(void) {
	for (int i = 0; i < YV_NKEEP && i < YV_STACK; i++) yv_stack0[i] = yv_stack[i];
	yv_x.sp = yv_vm.sp; yv_x.fp = yv_vm.fp; yv_x.next_fp = yv_vm.next_fp; yv_x.frame_num = yv_vm.frame_num;
	yv_x.loopframe_num = yv_vm.loopframe_num; yv_x.pc = yv_vm.pc; yv_x.keep = yv_vm.sp + 1; yv_x.but = -1;
	yv_x.ntop = 0; yv_x.err = -1;
	yv_refs_snap();
}
static void yv_put_int(int64_t v) { memcpy(yv_vm.pc + 1, &v, 8); }

static struct YASL_Object yv_obj(struct spec_val v) {
	switch (v.t) {
	case TV_INT: return YASL_INT(v.i);
	case TV_FLOAT: return YASL_FLOAT(v.d);
	case TV_BOOL: return YASL_BOOL(v.i);
	default: return YASL_UNDEF();
	}
}
static struct spec_val yv_sym(enum spec_tag t, int k) {
	switch (t) {
	case TV_INT: return spec_int(yv_get(k));
	case TV_FLOAT: return spec_float(yv_getd(k));
	case TV_BOOL: return spec_bool(yv_range(k, 0, 1));
	default: return spec_undef();
	}
}
static int yv_err(enum spec_res r) {
	return r == SR_TYPE ? YASL_TYPE_ERROR : r == SR_DIV0 ? YASL_DIVIDE_BY_ZERO_ERROR : -1;
}
#endif
