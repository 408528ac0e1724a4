/* C12: interpreter/refcount.c. What is deleted is logged by stand-ins for the deleting functions (proved in release.c). */
#include "yvh.h"
#include "interpreter/YASL_Object.h"
#include "interpreter/userdata.h"
#include "interpreter/closure.h"
#include "data-structures/YASL_String.h"

static struct YASL_String yv_s[2];
static struct RC_UserData yv_ud;
static struct CFunction yv_cf;
static union { struct Closure c; char room[64]; } yv_cl;
static int yv_data[4], yv_rc[4];     /* how often the data and the counters of the string, userdata, C function and closure were deleted */
static int yv_else;

/* (CBMC does not follow a pointer out of a union within one expression: in the verified text, v->value.uval->rc is read from a copy, see SUB in props/c12.py) */
static inline struct RC_UserData *yv_ptr_uval(struct YASL_Object v) { return v.value.uval; }
static inline struct CFunction *yv_ptr_cval(struct YASL_Object v) { return v.value.cval; }
static inline struct Closure *yv_ptr_lval(struct YASL_Object v) { return v.value.lval; }

#include "refs.h"
#include "interpreter/refcount.c"

#define LOG(what, k, is) do { if (is) what[k]++; else yv_else++; } while (0)
void str_del_data(struct YASL_String *const s) { LOG(yv_data, 0, s == &yv_s[0] && yv_rc[0] == 0); }
void str_del_rc(struct YASL_String *const s) { LOG(yv_rc, 0, s == &yv_s[0] && yv_data[0] <= 1); }
void ud_del_data(struct RC_UserData *u) { LOG(yv_data, 1, u == &yv_ud && yv_rc[1] == 0); }
void ud_del_rc(struct RC_UserData *u) { LOG(yv_rc, 1, u == &yv_ud); }
void cfn_del_data(struct CFunction *c) { LOG(yv_data, 2, c == &yv_cf && yv_rc[2] == 0); }
void cfn_del_rc(struct CFunction *c) { LOG(yv_rc, 2, c == &yv_cf); }
void closure_del_data(struct Closure *c) { LOG(yv_data, 3, c == &yv_cl.c && yv_rc[3] == 0); }
void closure_del_rc(struct Closure *c) { LOG(yv_rc, 3, c == &yv_cl.c); }

static struct YASL_Object of(int type) {
	struct YASL_Object v;
	v.type = type;
	v.value.ival = yv_get(0);
	switch (type) {
	case Y_STR: case Y_STR_W: v.value.sval = &yv_s[0]; break;
	case Y_LIST: case Y_TABLE: case Y_USERDATA: case Y_LIST_W: case Y_TABLE_W: v.value.uval = &yv_ud; break;
	case Y_CFN: v.value.cval = &yv_cf; break;
	case Y_CLOSURE: v.value.lval = &yv_cl.c; break;
	}
	return v;
}
static struct RC *rcs(int k) { return k == 0 ? &yv_s[0].rc : k == 1 ? &yv_ud.rc : k == 2 ? &yv_cf.rc : &yv_cl.c.rc; }
static int which(int type) {
	switch (type) {
	case Y_STR: case Y_STR_W: return 0;
	case Y_LIST: case Y_TABLE: case Y_USERDATA: case Y_LIST_W: case Y_TABLE_W: return 1;
	case Y_CFN: return 2;
	case Y_CLOSURE: return 3;
	}
	return -1;
}
static bool weak(int type) { return type == Y_STR_W || type == Y_LIST_W || type == Y_TABLE_W; }

/* the contracts the other units rely on */
static void start(void) {
	for (int k = 0; k < 2; k++) { yv_s[k].rc.refs = yv_size(10 + k, 5) + 2; yv_s[k].rc.weak_refs = yv_size(12 + k, 3); }
	yv_ud.rc.refs = yv_size(14, 5) + 2; yv_ud.rc.weak_refs = yv_size(15, 3);
	yv_cf.rc.refs = yv_size(16, 5) + 2; yv_cf.rc.weak_refs = yv_size(17, 3);
	yv_cl.c.rc.refs = yv_size(18, 5) + 2; yv_cl.c.rc.weak_refs = yv_size(19, 3);
	for (int k = 0; k < 4; k++) yv_data[k] = yv_rc[k] = 0;
	yv_else = 0;
}
#define CONTRACT(name, T, obj) \
	void u_inc_##name(void) { start(); struct YASL_Object v = of(T); obj; inc_ref(&v); yv_reach(); } \
	void u_dec_##name(void) { start(); struct YASL_Object v = of(T); obj; dec_ref(&v); yv_reach(); }
CONTRACT(undef, Y_UNDEF, (void)0) CONTRACT(int, Y_INT, (void)0) CONTRACT(float, Y_FLOAT, (void)0) CONTRACT(bool, Y_BOOL, (void)0) CONTRACT(fn, Y_FN, (void)0) CONTRACT(end, Y_END, (void)0)
CONTRACT(ptr, Y_USERPTR, (void)0) CONTRACT(s0, Y_STR, (void)0) CONTRACT(s1, Y_STR, v.value.sval = &yv_s[1]) CONTRACT(list, Y_LIST, (void)0) CONTRACT(table, Y_TABLE, (void)0) CONTRACT(ud, Y_USERDATA, (void)0)

/* every kind of value, and every count: what happens to the counters, and what is deleted when */
static void full(int type, bool inc) {
	start();
	const int k = which(type);
	struct RC was[4];
	if (k >= 0) {
		rcs(k)->refs = yv_size(1, 3);
		rcs(k)->weak_refs = yv_size(2, 3);
		if (!inc) yv_assume(weak(type) ? rcs(k)->weak_refs > 0 : rcs(k)->refs > 0);
	}
	for (int i = 0; i < 4; i++) was[i] = *rcs(i);
	struct YASL_Object v = of(type), v0 = v;
	if (inc) inc_ref(&v); else dec_ref(&v);
	const bool w = weak(type);
	for (int i = 0; i < 4; i++) {
		const size_t d = inc ? 1 : (size_t)-1;
		yv_assert(rcs(i)->refs == was[i].refs + (i == k && !w ? d : 0), "the count of references follows, of this object alone");
		yv_assert(rcs(i)->weak_refs == was[i].weak_refs + (i == k && w ? d : 0), "the count of weak references follows, of this object alone");
		const bool last = !inc && i == k && !w && rcs(i)->refs == 0;
		const bool none = !inc && i == k && rcs(i)->refs == 0 && rcs(i)->weak_refs == 0;
		yv_assert(yv_data[i] == (last ? 1 : 0), "the contents go with the last reference, once");
		yv_assert(yv_rc[i] == (none ? 1 : 0), "the counters go with the last reference of either kind, once");
		if (none) yv_assert(v.type == Y_UNDEF, "nothing refers to the object any more");
		else if (i == k) yv_assert(v.type == v0.type && v.value.ival == v0.value.ival, "the value stays");
	}
	if (k < 0) yv_assert(v.type == v0.type && v.value.ival == v0.value.ival, "the value stays");
	yv_assert(yv_else == 0, "nothing else is deleted");
	yv_reach();
}
#define FULL(name, T) void u_full_inc_##name(void) { full(T, true); } void u_full_dec_##name(void) { full(T, false); }
FULL(undef, Y_UNDEF) FULL(int, Y_INT) FULL(float, Y_FLOAT) FULL(bool, Y_BOOL) FULL(fn, Y_FN) FULL(end, Y_END) FULL(ptr, Y_USERPTR) FULL(str, Y_STR) FULL(list, Y_LIST) FULL(table, Y_TABLE)
FULL(ud, Y_USERDATA) FULL(cfn, Y_CFN) FULL(closure, Y_CLOSURE) FULL(strw, Y_STR_W) FULL(listw, Y_LIST_W) FULL(tablew, Y_TABLE_W)
