/* C12: vm_cleanup gives up everything that a machine holds, once. Calls of dec_ref and free are logged (nothing is freed here). */
#include "yvh.h"
static int yv_bt[7];
static int yv_hits, yv_closed, yv_tables, yv_bad;
static int yv_w, yv_loops;            /* the witness: which array, and which position in it */
static size_t yv_wk;
static int yv_freed[5];
static void *yv_p[5];
static void yv_free(void *p) {
	if (p == yv_p[0]) yv_freed[0]++;
	if (p == yv_p[1]) yv_freed[1]++;
	if (p == yv_p[2]) yv_freed[2]++;
	if (p == yv_p[3]) yv_freed[3]++;
	if (p == yv_p[4]) yv_freed[4]++;
}
#include "interpreter/VM.h"
static struct VM yv_vm;
static struct YASL_Object *yv_at;          /* a reference the machine holds */
static bool yv_inobj(const void *p, const void *o) { return __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(o); }
static struct RC_UserData yv_uds[7];
#define G1(i) if (p == &yv_uds[i]) yv_bt[i]++
static void yv_given(const void *p) { G1(0); G1(1); G1(2); G1(3); G1(4); G1(5); G1(6); }
void dec_ref(struct YASL_Object *v) {
	if (yv_closed == 0) yv_bad = 1;    /* captured variables have to be closed first: they refer to the stack */
	if (v == yv_at) yv_hits++;
	if (!yv_inobj(v, yv_p[0]) && !yv_inobj(v, yv_p[1]) && !yv_inobj(v, &yv_vm) && v->type == Y_TABLE) yv_given(v->value.uval);
}
static int yv_io;
void io_cleanup(struct IO *const io) { yv_io += io == &yv_vm.out ? 1 : io == &yv_vm.err ? 100 : 1000; }
void YASL_Table_del(struct YASL_Table *const t) {
	if (t == yv_vm.globals) yv_tables += 1;
	else if (t == yv_vm.metatables) yv_tables += 100;
	else yv_bad = 1;
}
void vm_close_all(struct VM *const vm)
	YV_REQUIRES(vm->fp == -1)
	YV_ASSIGNS(yv_closed)
	YV_ENSURES(yv_closed == __CPROVER_old(yv_closed) + 1);
void vm_cleanup(struct VM *const vm)
	YV_REQUIRES(vm == &yv_vm)
	YV_ASSIGNS(yv_hits, __CPROVER_object_whole(yv_bt), yv_closed, yv_tables, yv_bad, yv_io, __CPROVER_object_whole(yv_freed), *vm)
	YV_ENSURES(1);
#define free yv_free
#include "interpreter/VM.c"
#undef free

static struct RC_UserData *yv_ht[NUM_TYPES];
/* which: 0 a slot of the stack, 1 the collection of a loop, 2 a constant, 3 a header */
static void cleanup(int which) {
	const size_t k = yv_size(0, 40);
	yv_vm.stack = yv_block(STACK_SIZE * sizeof(struct YASL_Object));
	yv_vm.num_constants = yv_size(1, 40);
	yv_vm.headers_size = yv_size(2, 40);
	yv_assume(yv_vm.num_constants > 0 && yv_vm.num_constants <= 1 << 20 && yv_vm.headers_size > 0 && yv_vm.headers_size <= 1 << 20);
	yv_vm.constants = yv_block(yv_vm.num_constants * sizeof(struct YASL_Object));
	yv_vm.headers = yv_block(yv_vm.headers_size * sizeof(unsigned char *));
	yv_vm.loopframe_num = (int)yv_range(3, -1, NUM_LOOPFRAMES - 1);
	yv_vm.fp = (int)yv_range(4, -1, 100);
	yv_vm.sp = (int)yv_range(5, -1, STACK_SIZE - 1);
	yv_vm.globals = yv_block(8); yv_vm.metatables = yv_block(8);
	yv_vm.builtins_htable = yv_ht;
	const int ts[7] = {Y_UNDEF, Y_FLOAT, Y_INT, Y_BOOL, Y_STR, Y_LIST, Y_TABLE};
	for (int i = 0; i < 7; i++) yv_ht[ts[i]] = &yv_uds[i];
	yv_p[0] = yv_vm.stack; yv_p[1] = yv_vm.constants; yv_p[2] = yv_vm.headers; yv_p[3] = yv_ht;
	yv_at = NULL; yv_p[4] = (void *)&yv_w;
	if (which == 0) { yv_assume(k < STACK_SIZE); yv_at = &yv_vm.stack[k]; }
	if (which == 1) { yv_assume(k < NUM_LOOPFRAMES); yv_at = &yv_vm.loopframes[k].iterable; }
	if (which == 2) { yv_assume(k < (size_t)yv_vm.num_constants); yv_at = &yv_vm.constants[k]; }
	if (which == 3) { yv_assume(k < yv_vm.headers_size); yv_vm.headers[k] = (unsigned char *)yv_p[4]; }
	const int loops = yv_vm.loopframe_num;
	yv_w = which; yv_wk = k; yv_loops = loops;
	yv_io = yv_hits = yv_closed = yv_tables = yv_bad = 0;
	for (int i = 0; i < 5; i++) yv_freed[i] = 0;
	for (int i = 0; i < 7; i++) yv_bt[i] = 0;
	vm_cleanup(&yv_vm);
	yv_assert(yv_closed == 1 && !yv_bad, "captured variables are closed before anything goes");
	if (which < 3) yv_assert(yv_hits == (which != 1 || (int)k <= loops ? 1 : 0), "every slot, constant and collection of a loop is given up, once");
	if (which == 3) yv_assert(yv_freed[4] >= 1, "every header is freed");
	yv_assert(yv_bt[0] == 1 && yv_bt[1] == 1 && yv_bt[2] == 1 && yv_bt[3] == 1 && yv_bt[4] == 1 && yv_bt[5] == 1 && yv_bt[6] == 1, "the tables of methods are given up, once");
	yv_assert(yv_io == 101, "both streams are closed, once");
	yv_assert(yv_tables == 101, "the tables of globals and metatables are deleted, once");
	yv_assert(yv_freed[0] >= 1 && yv_freed[1] >= 1 && yv_freed[2] >= 1 && yv_freed[3] >= 1, "the arrays are freed");
	yv_reach();
}
void u_cleanup_stack(void) { cleanup(0); } void u_cleanup_loops(void) { cleanup(1); } void u_cleanup_consts(void) { cleanup(2); }
