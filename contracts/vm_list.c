/* The instructions on lists: slices, iteration, indexing, list literals (C06, C09). Lists of any length. */
#include "data-structures/YASL_List.h"
#include "interpreter/YASL_Object.h"
#include "yvh.h"
/* The contract of YASL_List_append (proved in list.c: it appends the value), over ghosts: how many values were appended, and the k-th of them. */
static int64_t yv_cnt, yv_k;
static struct YASL_Object yv_kth;
static struct YASL_List *yv_to;
#ifndef YV_NATIVE
void YASL_List_append(struct YASL_List *const ls, struct YASL_Object value)
	YV_REQUIRES(yv_cnt == 0 || ls == yv_to)
	YV_ASSIGNS(yv_cnt, yv_kth, yv_to)
	YV_ENSURES(yv_cnt == __CPROVER_old(yv_cnt) + 1)
	YV_ENSURES(yv_to == ls)
	YV_ENSURES(yv_kth.type == (__CPROVER_old(yv_cnt) == yv_k ? value.type : __CPROVER_old(yv_kth.type)))
	YV_ENSURES(yv_kth.value.ival == (__CPROVER_old(yv_cnt) == yv_k ? value.value.ival : __CPROVER_old(yv_kth.value.ival)));
#define COUNT(l) yv_cnt
#define KTH(l) yv_kth
#else
#define COUNT(l) ((int64_t)(l)->count)
#define KTH(l) ((l)->items[yv_k])
#endif
#define YV_EXTRA_ASSIGNS , yv_cnt, yv_kth, yv_to
#define YV_MORE_CONTRACTS static void vm_SLICE_list(struct VM *const vm) YV_VM_CONTRACT;
#include "vmh.h"

static struct YASL_List yv_ls;

static void list(int slot) {
	size_t n = yv_size(40, 6);
	yv_assume(n > 0);
	yv_ls.size = n;
	yv_ls.count = yv_size(41, 6);
	yv_assume(yv_ls.count <= n);
	yv_ls.items = (struct YASL_Object *)yv_block(n * sizeof(struct YASL_Object));
	for (size_t i = 0; YV_MODE_NATIVE && i < n; i++) yv_ls.items[i] = YASL_INT(yv_get(20 + (int)i));
	yv_ud.rc = NEW_RC(); yv_ud.rc.refs = 3; yv_ud.data = &yv_ls; yv_ud.mt = NULL;
	yv_stack[slot] = YASL_LIST(&yv_ud);
	yv_cnt = 0; yv_to = NULL;
	yv_k = yv_range(42, 0, YV_MODE_NATIVE ? 6 : (int64_t)1 << 40);
}
static void strs(void) {
	for (int i = 0; i < 2; i++) { yv_s[i].str = (char *)"abcdefgh"; yv_s[i].start = 0; yv_s[i].end = i; yv_s[i].on_heap = false; yv_s[i].rc = NEW_RC(); yv_s[i].rc.refs = 9; }
}
static struct YASL_Object val(char k, int in) {
	switch (k) {
	case 's': return YASL_STR(&yv_s[0]);
	case 'f': return YASL_FLOAT(yv_getd(in));
	case 'b': return YASL_BOOL(yv_range(in, 0, 1));
	case 'u': return YASL_UNDEF();
	default: return YASL_INT(yv_get(in));
	}
}
static bool same(struct YASL_Object a, struct YASL_Object b) { return a.type == b.type && a.value.ival == b.value.ival; }
static int64_t clip(int64_t i, int64_t len) { if (i < 0) i += len; return i < 0 ? 0 : i > len ? len : i; }
static void slice(char ks, char ke, bool part) {
	yv_vm_setup(2, 6);
	strs();
	list(4);
	yv_stack[5] = val(ks, 0);
	yv_stack[6] = val(ke, 1);
	yv_vm.pc[0] = O_SLICE;
	yv_vm_snap();
	yv_x.pc += !part; yv_x.sp = 4; yv_x.keep = 4;
	int64_t len = (int64_t)yv_ls.count;
	int64_t s = ks == 'u' ? 0 : clip(yv_stack[5].value.ival, len), e = ke == 'u' ? len : clip(yv_stack[6].value.ival, len);
	if (!((ks == 'i' || ks == 'u') && (ke == 'i' || ke == 'u'))) yv_x.err = YASL_TYPE_ERROR;
	if (s > e) s = e;
	size_t c0 = yv_ls.count;
	if (part) { vm_SLICE_list(&yv_vm); if (YV_MODE_NATIVE) yv_checkall(); yv_reach(); } else YV_EXEC();
	yv_assert(yv_stack[4].type == Y_LIST, "a slice of a list is a list");
	struct RC_UserData *u = yv_stack[4].value.uval;
	struct YASL_List *r = (struct YASL_List *)u->data;
	yv_assert(u != &yv_ud && r != &yv_ls, "a new one");
	yv_assert(COUNT(r) == e - s, "of as many elements as the range has");
	yv_assert(!(yv_k < e - s) || same(KTH(r), yv_ls.items[s + yv_k]), "which are those from start on, in order");
	yv_assert(yv_ud.rc.refs == 2 && yv_ls.count == c0, "the list that was sliced stays as it was, but for the reference of the stack");
}
void u_slice_ii(void) { slice('i', 'i', false); } void u_slicel_ii(void) { slice('i', 'i', true); }
void u_slice_iu(void) { slice('i', 'u', false); } void u_slicel_iu(void) { slice('i', 'u', true); }
void u_slice_ui(void) { slice('u', 'i', false); } void u_slicel_ui(void) { slice('u', 'i', true); }
void u_slice_uu(void) { slice('u', 'u', false); } void u_slicel_uu(void) { slice('u', 'u', true); }
void u_slice_if(void) { slice('i', 'f', false); } void u_slicel_if(void) { slice('i', 'f', true); }
void u_slice_bi(void) { slice('b', 'i', false); } void u_slicel_bi(void) { slice('b', 'i', true); }
/* ---- iteration: the next element, and whether there is one */
void u_iter(void) {
	yv_vm_setup(2, 6);
	strs();
	list(7);
	yv_stack[7] = YASL_UNDEF();
	int64_t it = yv_range(0, 0, YV_MODE_NATIVE ? 6 : 0x7ffffffe);
	yv_assume(it <= (int64_t)yv_ls.count);
	yv_vm.loopframe_num = 1;
	yv_vm.loopframes[1].iterable.type = Y_LIST; yv_vm.loopframes[1].iterable.value.uval = &yv_ud;
	yv_vm.loopframes[1].iter = (int)it;
	bool more = it < (int64_t)yv_ls.count;
	if (more) yv_assume(yv_ls.items[it].type == Y_INT || yv_ls.items[it].type == Y_FLOAT || yv_ls.items[it].type == Y_BOOL);
	yv_vm.pc[0] = O_ITER_1;
	yv_vm_snap();
	yv_x.pc++; yv_x.sp = more ? 8 : 7; yv_x.keep = 7; yv_x.ntop = more ? 2 : 1; yv_x.top[0] = YASL_BOOL(more);
	if (more) yv_x.top[1] = yv_ls.items[it];
	YV_EXEC();
	yv_assert(yv_vm.loopframes[1].iter == it + more, "the loop moves on by one");
	yv_assert(yv_ud.rc.refs == 3, "the loop keeps its reference");
}
/* ---- list literals */
static void newlist(int n) {
	yv_vm_setup(2, 4 + n);
	strs();
	yv_cnt = 0; yv_to = NULL;
	yv_k = yv_range(42, 0, 8);
	yv_stack[4] = YASL_END();
	for (int i = 0; i < n; i++) yv_stack[5 + i] = val(i == 1 ? 's' : 'i', 8 + i);
	yv_vm.pc[0] = O_NEWLIST;
	yv_vm_snap();
	yv_x.pc++; yv_x.sp = 4; yv_x.keep = 4;
	struct YASL_Object was[9];
	for (int i = 0; i < n; i++) was[i] = yv_stack[5 + i];
	YV_EXEC();
	struct RC_UserData *u = yv_stack[4].value.uval;
	yv_assert(yv_stack[4].type == Y_LIST && u != &yv_ud, "a new list");
	struct YASL_List *r = (struct YASL_List *)u->data;
	yv_assert(COUNT(r) == n, "of the values above the mark");
	yv_assert(!(yv_k < n) || same(KTH(r), was[yv_k]), "in order");
}
void u_newlist_0(void) { newlist(0); }
void u_newlist_1(void) { newlist(1); }
void u_newlist_3(void) { newlist(3); }
void u_newlist_8(void) { newlist(8); }
