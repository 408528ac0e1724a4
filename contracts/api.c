/* C15: the functions of yasl.c that observe, pop and push values, from any stack and frame. */
#define YV_STATE
#include "yvh.h"
#include "yasl.h"
struct YASL_State;
static int64_t yv_ri;                 /* the result that is specified */
static bool yv_rb;
static void *yv_rp;
static bool yv_real(double v);
static bool yv_post_regs(void), yv_post_top(void), yv_post_rest(void), yv_post_noerr(void), yv_post_refs(void);
#define RV __CPROVER_return_value
/* observers: they have a result, and change nothing at all */
#define OBSERVER(T, decl, post) T YASL_##decl YV_REQUIRES(S == &yv_S) YV_ASSIGNS() YV_ENSURES(post);
#define OB(name) OBSERVER(bool, name(struct YASL_State *S), (RV != 0) == (yv_rb != 0))
#define OBN(name) OBSERVER(bool, name(struct YASL_State *S, unsigned n), (RV != 0) == (yv_rb != 0))
/* the others: the stack afterwards is as in yv_x */
#define CHANGER(T, decl, post) T YASL_##decl YV_REQUIRES(S == &yv_S) \
	YV_ASSIGNS(__CPROVER_object_whole(S), __CPROVER_object_whole(S->vm.stack), __CPROVER_object_whole(yv_s), __CPROVER_object_whole(&yv_ud), __CPROVER_object_whole(&yv_ud2), yv_calls) \
	YV_ENSURES(yv_post_noerr()) YV_ENSURES(yv_post_regs()) YV_ENSURES(yv_post_top()) YV_ENSURES(yv_post_rest()) YV_ENSURES(yv_post_refs()) YV_ENSURES(post);
static bool yv_declared, yv_const;
static int yv_calls, yv_xcalls;
#define YV_MORE_CONTRACTS \
	static struct RC_UserData yv_ud2; \
	OB(isundef) OB(isbool) OB(isfloat) OB(isint) OB(isstr) OB(islist) OB(istable) OB(isuserptr) OB(peekbool) \
	OBN(isnundef) OBN(isnbool) OBN(isnfloat) OBN(isnint) OBN(isnstr) OBN(isnlist) OBN(isntable) OBN(isnuserptr) OBN(peeknbool) \
	OBSERVER(bool, isuserdata(struct YASL_State *S, const char *tag), (RV != 0) == (yv_rb != 0)) \
	OBSERVER(bool, isnuserdata(struct YASL_State *S, const char *tag, unsigned n), (RV != 0) == (yv_rb != 0)) \
	OBSERVER(yasl_int, peekint(struct YASL_State *S), RV == yv_ri) OBSERVER(yasl_int, peeknint(struct YASL_State *S, unsigned n), RV == yv_ri) \
	OBSERVER(int, peektype(struct YASL_State *S), RV == yv_ri) OBSERVER(int, peekntype(struct YASL_State *S, unsigned n), RV == yv_ri) \
	OBSERVER(yasl_int, peekvargscount(struct YASL_State *S), RV == yv_ri) \
	OBSERVER(yasl_float, peekfloat(struct YASL_State *S), yv_real(RV)) OBSERVER(yasl_float, peeknfloat(struct YASL_State *S, unsigned n), yv_real(RV)) \
	OBSERVER(void *, peeknuserdata(struct YASL_State *S, unsigned n), RV == yv_rp) \
	CHANGER(void, pop(struct YASL_State *S), 1) CHANGER(bool, popbool(struct YASL_State *S), (RV != 0) == (yv_rb != 0)) \
	CHANGER(yasl_int, popint(struct YASL_State *S), RV == yv_ri) CHANGER(yasl_float, popfloat(struct YASL_State *S), yv_real(RV)) \
	CHANGER(void *, popuserdata(struct YASL_State *S), RV == yv_rp) CHANGER(void *, popuserptr(struct YASL_State *S), RV == yv_rp) \
	CHANGER(void, pushundef(struct YASL_State *S), 1) CHANGER(void, pushint(struct YASL_State *S, yasl_int value), 1) \
	CHANGER(void, pushfloat(struct YASL_State *S, yasl_float value), 1) CHANGER(void, pushbool(struct YASL_State *S, bool value), 1) \
	CHANGER(void, pushuserptr(struct YASL_State *S, void *userpointer), 1) CHANGER(int, duptop(struct YASL_State *S), RV == YASL_SUCCESS) \
	CHANGER(int, setmt(struct YASL_State *S), RV == yv_ri && yv_ud2.mt == yv_rp) \
	CHANGER(int, listget(struct YASL_State *S, yasl_int n), RV == yv_ri) \
	CHANGER(int, listpush(struct YASL_State *S), RV == yv_ri && yv_calls == yv_xcalls) CHANGER(int, tableset(struct YASL_State *S), RV == yv_ri && yv_calls == yv_xcalls) \
	CHANGER(bool, tablenext(struct YASL_State *S), (RV != 0) == (yv_rb != 0)) \
	CHANGER(int, setglobal(struct YASL_State *S, const char *name), RV == yv_ri && yv_calls == yv_xcalls) CHANGER(int, loadglobal(struct YASL_State *S, const char *name), RV == yv_ri && yv_calls == yv_xcalls) \
	CHANGER(int, registermt(struct YASL_State *S, const char *name), RV == yv_ri && yv_calls == yv_xcalls) CHANGER(int, loadmt(struct YASL_State *S, const char *name), RV == yv_ri && yv_calls == yv_xcalls)
/* the containers: what they are called with is required, what they return is specified; their own contracts are those of C04, C05 */
static struct YASL_List yv_ls;
static struct YASL_Table yv_tab;
static struct YASL_Object yv_k, yv_e;
static bool yv_tabret;
static bool yv_iskey(struct YASL_Object k), yv_isval(struct YASL_Object v), yv_isname(struct YASL_Object k);
static void *yv_dict;
#ifndef YV_NATIVE
void YASL_List_append(struct YASL_List *const ls, struct YASL_Object value) YV_REQUIRES(ls == &yv_ls && yv_isval(value)) YV_ASSIGNS(yv_calls) YV_ENSURES(yv_calls == __CPROVER_old(yv_calls) + 1);
bool YASL_Table_insert(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value)
	YV_REQUIRES(table == &yv_tab && yv_iskey(key) && yv_isval(value)) YV_ASSIGNS(yv_calls) YV_ENSURES(yv_calls == __CPROVER_old(yv_calls) + 1 && (RV != 0) == (yv_tabret != 0));
void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value)
	YV_REQUIRES((void *)table == yv_dict && yv_isname(key) && yv_isval(value)) YV_ASSIGNS(yv_calls) YV_ENSURES(yv_calls == __CPROVER_old(yv_calls) + 1);
void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
	YV_REQUIRES(table == &yv_tab && yv_iskey(key)) YV_ASSIGNS(yv_calls) YV_ENSURES(yv_calls == __CPROVER_old(yv_calls) + 2);
struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const struct YASL_Object key)
	YV_REQUIRES((void *)table == yv_dict && yv_isname(key)) YV_ASSIGNS(yv_calls) YV_ENSURES(yv_calls == __CPROVER_old(yv_calls) + 1 && RV.type == yv_e.type && RV.value.ival == yv_e.value.ival);
size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Object key)
	YV_REQUIRES(table == &yv_tab && yv_iskey(key)) YV_ASSIGNS() YV_ENSURES(RV == (size_t)yv_ri);
bool scope_contains(const struct Scope *const scope, const char *const name) YV_REQUIRES(1) YV_ASSIGNS() YV_ENSURES((RV != 0) == (yv_declared != 0));
int64_t scope_get(const struct Scope *const scope, const char *const name) YV_REQUIRES(yv_declared) YV_ASSIGNS() YV_ENSURES((RV < 0) == (yv_const != 0));
#endif
#include "vmh.h"
static bool yv_real(double v) { return yv_samed(v, yv_bits2d(yv_ri)); }
/* each slot of the stack counts as one reference: the counts of the strings and of the userdata follow the slots */
#define SLOTREF(i, p) (((yv_stack[i].type == Y_STR && (void *)yv_stack[i].value.sval == (void *)(p)) || ((yv_stack[i].type == Y_LIST || yv_stack[i].type == Y_TABLE || yv_stack[i].type == Y_USERDATA) && (void *)yv_stack[i].value.uval == (void *)(p))) ? 1 : 0)
#define SLOTREFS(p) (SLOTREF(0, p) + SLOTREF(1, p) + SLOTREF(2, p) + SLOTREF(3, p) + SLOTREF(4, p) + SLOTREF(5, p) + SLOTREF(6, p) + SLOTREF(7, p))
static int yv_r0[4];                  /* what the counts are without the slots */
static bool yv_post_refs(void) {
	return (int)yv_s[0].rc.refs - SLOTREFS(&yv_s[0]) == yv_r0[0] && (int)yv_s[1].rc.refs - SLOTREFS(&yv_s[1]) == yv_r0[1] &&
		(int)yv_ud.rc.refs - SLOTREFS(&yv_ud) == yv_r0[2] && (int)yv_ud2.rc.refs - SLOTREFS(&yv_ud2) == yv_r0[3];
}
#ifndef YV_NATIVE
void vvm_print_err(struct VM *vm, const char *const fmt, va_list args) YV_REQUIRES(1) YV_ASSIGNS() YV_ENSURES(1);
#endif
#include "yasl.c"
#undef YASL_INF
#undef YASL_NAN
#undef bool          /* it is part of names that macros put together below */
typedef _Bool bool;

static struct CFunction yv_cf;
static const char yv_tagA[] = "A", yv_tagB[] = "A";
static int yv_payload;
static struct YASL_Object yv_items[8];
/* kinds: i int, f float, b bool, u undef, s str, L list, T table, D userdata, P userptr, c C function */
static struct YASL_Object yv_val(char kind, int k) {
	int64_t v = yv_get(k);
	struct YASL_Object o = YASL_UNDEF();
	switch (kind) {
	case 'i': return YASL_INT(v);
	case 'f': return YASL_FLOAT(yv_bits2d(v));
	case 'b': return YASL_BOOL(v & 1);
	case 's': return YASL_STR(&yv_s[0]);
	case 'L': return YASL_LIST(&yv_ud);
	case 'T': return YASL_TABLE(&yv_ud);
	case 'D': return YASL_USERDATA(&yv_ud);
	case 'P': return YASL_USERPTR(&yv_payload);
	case 'c': o.type = Y_CFN; o.value.cval = &yv_cf; return o;
	default: return o;
	}
}
static struct YASL_Object yv_v;
/* a frame at 1 with values of arbitrary contents above it; slot `at` holds yv_v */
static void setup(char kind, int at) {
	yv_vm_setup(1, 5);
	yv_cf.rc = NEW_RC(); yv_cf.rc.refs = 5; yv_cf.num_args = 2;
	for (int i = 0; i < 2; i++) { yv_s[i].str = (char *)"abc"; yv_s[i].start = 0; yv_s[i].end = 3; yv_s[i].on_heap = false; yv_s[i].rc = NEW_RC(); yv_s[i].rc.refs = 9; }
	yv_ud.rc = NEW_RC(); yv_ud.rc.refs = 9; yv_ud.tag = yv_tagA; yv_ud.destructor = NULL; yv_ud.mt = NULL; yv_ud.data = kind == 'L' ? (void *)&yv_ls : (void *)&yv_payload;
	yv_ud2.rc = NEW_RC(); yv_ud2.rc.refs = 9; yv_ud2.tag = YASL_TABLE_NAME; yv_ud2.destructor = NULL; yv_ud2.mt = NULL; yv_ud2.data = &yv_payload;
	yv_v = yv_val(kind, 20);
	for (int i = 2; i < 8; i++) yv_stack[i] = YASL_INT(yv_get(10 + i));
	yv_stack[3] = YASL_STR(&yv_s[1]);
	yv_stack[at] = yv_v;
}
static void snap(void) {
	yv_vm_snap();
	yv_r0[0] = (int)yv_s[0].rc.refs - SLOTREFS(&yv_s[0]); yv_r0[1] = (int)yv_s[1].rc.refs - SLOTREFS(&yv_s[1]);
	yv_r0[2] = (int)yv_ud.rc.refs - SLOTREFS(&yv_ud); yv_r0[3] = (int)yv_ud2.rc.refs - SLOTREFS(&yv_ud2);
}
static void same(void) {
	yv_assert(yv_post_noerr(), "an error is thrown when the specification says so");
	yv_assert(yv_post_regs(), "the stack's height, and the frame"); yv_assert(yv_post_top(), "the values on top"); yv_assert(yv_post_rest(), "the values below");
	yv_assert(yv_post_refs(), "reference counts follow the references");
}
#define OBS(T, call, ok, what) do { snap(); T r_ = call; yv_assert(ok, what); same(); yv_reach(); } while (0)
#define KINDS(F, ...) F(i, __VA_ARGS__) F(f, __VA_ARGS__) F(b, __VA_ARGS__) F(u, __VA_ARGS__) F(s, __VA_ARGS__) F(L, __VA_ARGS__) F(T, __VA_ARGS__) F(D, __VA_ARGS__) F(P, __VA_ARGS__) F(c, __VA_ARGS__)
#define K0 (*k)
#define IS1(k_, name, c) \
	void u_is##name##_##k_(void) { const char *k = #k_; setup(K0, 5); yv_rb = K0 == c; OBS(bool, YASL_is##name(&yv_S), (r_ != 0) == (yv_rb != 0), "the result"); } \
	void u_isn##name##_##k_(void) { const char *k = #k_; setup(K0, 4); yv_rb = K0 == c; OBS(bool, YASL_isn##name(&yv_S, 2), (r_ != 0) == (yv_rb != 0), "the result"); }
KINDS(IS1, undef, 'u') KINDS(IS1, bool, 'b') KINDS(IS1, float, 'f') KINDS(IS1, int, 'i') KINDS(IS1, str, 's') KINDS(IS1, list, 'L') KINDS(IS1, table, 'T') KINDS(IS1, userptr, 'P')
/* the tag is compared by its address */
#define UD1(k_, tag, n) \
	void u_isuserdata_##n##_##k_(void) { const char *k = #k_; setup(K0, 5); yv_rb = K0 == 'D' && tag == yv_tagA; OBS(bool, YASL_isuserdata(&yv_S, tag), (r_ != 0) == (yv_rb != 0), "the result"); } \
	void u_isnuserdata_##n##_##k_(void) { const char *k = #k_; setup(K0, 4); yv_rb = K0 == 'D' && tag == yv_tagA; OBS(bool, YASL_isnuserdata(&yv_S, tag, 2), (r_ != 0) == (yv_rb != 0), "the result"); }
KINDS(UD1, yv_tagA, same) UD1(D, yv_tagB, other)
#define PEEK1(k_, T, name, c, spec, ok) \
	void u_peek##name##_##k_(void) { const char *k = #k_; setup(K0, 5); spec; OBS(T, YASL_peek##name(&yv_S), ok, "the value"); } \
	void u_peekn##name##_##k_(void) { const char *k = #k_; setup(K0, 4); spec; OBS(T, YASL_peekn##name(&yv_S, 2), ok, "the value"); }
#define POP1(k_, T, name, c, spec, ok) \
	void u_pop##name##_##k_(void) { const char *k = #k_; setup(K0, 5); spec; snap(); yv_x.sp = 4; yv_x.keep = 6; T r_ = YASL_pop##name(&yv_S); yv_assert(ok, "the value"); same(); yv_reach(); }
#define B_SPEC yv_rb = K0 == 'b' && yv_v.value.ival
#define I_SPEC yv_ri = K0 == 'i' ? yv_v.value.ival : 0
#define F_SPEC yv_ri = K0 == 'f' ? yv_v.value.ival : 0
#define D_SPEC yv_rp = K0 == 'D' ? (void *)&yv_payload : NULL
KINDS(PEEK1, bool, bool, 'b', B_SPEC, (r_ != 0) == (yv_rb != 0)) KINDS(POP1, bool, bool, 'b', B_SPEC, (r_ != 0) == (yv_rb != 0))
KINDS(PEEK1, yasl_int, int, 'i', I_SPEC, r_ == yv_ri) KINDS(POP1, yasl_int, int, 'i', I_SPEC, r_ == yv_ri)
KINDS(PEEK1, yasl_float, float, 'f', F_SPEC, yv_real(r_)) KINDS(POP1, yasl_float, float, 'f', F_SPEC, yv_real(r_))
KINDS(PEEK1, int, type, 0, yv_ri = yv_v.type, r_ == yv_ri)
#define PNU(k_, x) void u_peeknuserdata_##k_(void) { const char *k = #k_; setup(K0, 4); D_SPEC; OBS(void *, YASL_peeknuserdata(&yv_S, 2), r_ == yv_rp, "the data"); }
PNU(i, 0) PNU(f, 0) PNU(b, 0) PNU(u, 0) PNU(s, 0) PNU(D, 0) PNU(P, 0) PNU(c, 0)
POP1(D, void *, userdata, 0, D_SPEC, r_ == yv_rp)
POP1(P, void *, userptr, 0, yv_rp = &yv_payload, r_ == yv_rp)
#define POP(k_, x) void u_pop_##k_(void) { const char *k = #k_; setup(K0, 5); snap(); yv_x.sp = 4; yv_x.keep = 6; YASL_pop(&yv_S); same(); yv_reach(); }
KINDS(POP, 0)
void u_vargs(void) { setup('i', 4); yv_cf.num_args = ~2; yv_stack[1] = yv_val('c', 0); yv_ri = yv_v.value.ival; OBS(yasl_int, YASL_peekvargscount(&yv_S), r_ == yv_ri, "the count"); }

/* pushing: the value of another kind that the slot held until then is released */
#define PUSHED(call, obj) do { snap(); yv_x.sp = 6; yv_x.ntop = 1; yv_x.top[0] = obj; call; same(); yv_reach(); } while (0)
#define PUSH1(k_, x) \
	void u_pushint_##k_(void) { const char *k = #k_; setup(K0, 6); int64_t v = yv_get(0); PUSHED(YASL_pushint(&yv_S, v), YASL_INT(v)); } \
	void u_pushundef_##k_(void) { const char *k = #k_; setup(K0, 6); PUSHED(YASL_pushundef(&yv_S), YASL_UNDEF()); }
PUSH1(i, 0) PUSH1(s, 0) PUSH1(L, 0) PUSH1(D, 0)
void u_pushfloat(void) { setup('s', 6); double v = yv_getd(0); PUSHED(YASL_pushfloat(&yv_S, v), YASL_FLOAT(v)); }
void u_pushbool(void) { setup('s', 6); bool v = yv_get(0) & 1; PUSHED(YASL_pushbool(&yv_S, v), YASL_BOOL(v)); }
void u_pushuserptr(void) { setup('s', 6); PUSHED(YASL_pushuserptr(&yv_S, &yv_payload), YASL_USERPTR(&yv_payload)); }
#define DUP(k_, x) void u_dup_##k_(void) { const char *k = #k_; setup(K0, 5); PUSHED(yv_ri = YASL_duptop(&yv_S), yv_v); }
DUP(i, 0) DUP(f, 0) DUP(b, 0) DUP(u, 0) DUP(s, 0) DUP(L, 0) DUP(T, 0) DUP(D, 0) DUP(P, 0)

/* YASL_setmt: a table, or undef to remove it, on top of what gets it */
static void setmt(char kind, char mt, bool had) {
	setup('i', 4);
	yv_stack[4] = yv_val(kind, 31);
	if (kind == 'L' || kind == 'T' || kind == 'D') yv_stack[4].value.uval = &yv_ud2;
	if (had) { yv_ud2.mt = &yv_ud; yv_ud.rc.refs = 10; }
	yv_stack[5] = mt == 'T' ? YASL_TABLE(&yv_ud) : yv_val(mt, 30);
	bool okmt = mt == 'T' || mt == 'u', okv = kind == 'L' || kind == 'T' || kind == 'D';
	snap();
	yv_ri = okmt && okv ? YASL_SUCCESS : YASL_TYPE_ERROR;
	if (okmt) { yv_x.sp = 4; yv_x.keep = 6; }
	yv_rp = okmt && okv ? (mt == 'T' ? &yv_ud : NULL) : yv_ud2.mt;
	if (okmt && okv) yv_r0[2] += (mt == 'T') - had;
	int r = YASL_setmt(&yv_S);
	yv_assert(r == yv_ri, "the result"); yv_assert(yv_ud2.mt == yv_rp, "the metatable"); same(); yv_reach();
}
#define SM(a, b) void u_setmt_##a##b(void) { setmt(*#a, *#b, false); } void u_setmt_##a##b##_had(void) { setmt(*#a, *#b, true); }
SM(L, T) SM(L, u) SM(D, T) SM(D, u) SM(T, u) SM(D, i) SM(i, T) SM(s, u)

/* YASL_listpush, YASL_tableset, globals and registered metatables: what the containers are given */
static bool yv_isval(struct YASL_Object v) { return yv_sameobj(v, yv_v); }
static bool yv_iskey(struct YASL_Object k) { return yv_sameobj(k, yv_k); }
static bool yv_isname(struct YASL_Object k) {
	return k.type == Y_STR && k.value.sval->end - k.value.sval->start == 2 && k.value.sval->str[k.value.sval->start] == 'g' && k.value.sval->str[k.value.sval->start + 1] == 'x';
}
static void listpush(char kind, char below) {
	setup(kind, 5);
	yv_ud.data = below == 'L' ? (void *)&yv_ls : (void *)&yv_tab;
	yv_stack[4] = yv_val(below, 30);
	yv_calls = 0; yv_xcalls = below == 'L'; yv_ri = below == 'L' ? YASL_SUCCESS : YASL_TYPE_ERROR;
	snap(); yv_x.sp = 4; yv_x.keep = 6;
	int r = YASL_listpush(&yv_S);
	yv_assert(r == yv_ri && yv_calls == yv_xcalls, "the result and the list"); same(); yv_reach();
}
#define LP(a, b) void u_listpush_##a##b(void) { listpush(*#a, *#b); }
LP(i, L) LP(f, L) LP(b, L) LP(u, L) LP(s, L) LP(P, L) LP(i, T) LP(i, i) LP(s, D)
static void tableset(char kv, char kk, char below) {
	setup(kv, 5);
	yv_ud.data = &yv_tab;
	yv_stack[3] = yv_val(below, 30);
	yv_stack[4] = yv_k = yv_val(kk, 31);
	yv_tabret = kk != 'L';
	yv_calls = 0; yv_xcalls = below != 'T' ? 0 : kv == 'u' ? 2 : 1;
	yv_ri = below == 'T' && (kv == 'u' || yv_tabret) ? YASL_SUCCESS : YASL_TYPE_ERROR;
	snap(); yv_x.sp = 3; yv_x.keep = 6;
	int r = YASL_tableset(&yv_S);
	yv_assert(r == yv_ri && yv_calls == yv_xcalls, "the result and the table"); same(); yv_reach();
}
#define TS(v, k, b) void u_tableset_##v##k##b(void) { tableset(*#v, *#k, *#b); }
TS(i, i, T) TS(s, i, T) TS(u, i, T) TS(f, b, T) TS(b, s, T) TS(P, f, T) TS(u, s, T) TS(i, u, T) TS(i, i, L) TS(s, f, i)
/* what: 0 setglobal, 1 registermt */
static void store(char kind, int what) {
	setup(kind, 5);
	static struct YASL_Table dict;
	yv_vm.globals = what ? &yv_tab : &dict; yv_vm.metatables = what ? &dict : &yv_tab; yv_dict = &dict;
	yv_declared = yv_get(1) & 1; yv_const = yv_get(2) & 1;
	bool ok = what || (yv_declared && !yv_const);
	yv_calls = 0; yv_xcalls = ok; yv_ri = ok ? YASL_SUCCESS : YASL_ERROR;
	snap(); if (ok) { yv_x.sp = 4; yv_x.keep = 6; }
	int r = what ? YASL_registermt(&yv_S, "gx") : YASL_setglobal(&yv_S, "gx");
	yv_assert(r == yv_ri && yv_calls == yv_xcalls, "the result and the table"); same(); yv_reach();
}
static void load(char kind, int what) {
	setup('s', 6);
	static struct YASL_Table dict;
	yv_vm.globals = what ? &yv_tab : &dict; yv_vm.metatables = what ? &dict : &yv_tab; yv_dict = &dict;
	yv_e = kind == 'e' ? YASL_END() : kind == 'D' ? YASL_USERDATA(&yv_ud) : yv_val(kind, 30);
	yv_calls = 0; yv_xcalls = 1; yv_ri = kind == 'e' ? YASL_ERROR : YASL_SUCCESS;
	snap(); if (kind != 'e') { yv_x.sp = 6; yv_x.ntop = 1; yv_x.top[0] = yv_e; }
	int r = what ? YASL_loadmt(&yv_S, "gx") : YASL_loadglobal(&yv_S, "gx");
	yv_assert(r == yv_ri && yv_calls == yv_xcalls, "the result and the table"); same(); yv_reach();
}
#define SL(k) void u_setglobal_##k(void) { store(*#k, 0); } void u_registermt_##k(void) { store(*#k, 1); } void u_loadglobal_##k(void) { load(*#k, 0); } void u_loadmt_##k(void) { load(*#k, 1); }
SL(i) SL(f) SL(s) SL(T)
void u_loadglobal_none(void) { load('e', 0); }
void u_loadmt_none(void) { load('e', 1); }

/* YASL_tablenext: the key, or undef to begin, is on top of the table */
static void tablenext(char kind, char below) {
	setup(kind, 5);
	static struct YASL_Table_Item items[6];
	yv_k = yv_v;
	yv_ud.data = &yv_tab;
	yv_stack[4] = yv_val(below, 30);
	yv_tab.size = 6; yv_tab.items = items;
	size_t start = 0;
	if (kind != 'u') { yv_ri = yv_range(1, 0, 5); start = (size_t)yv_ri + 1; }
	for (int i = 0; i < 6; i++) {
		int64_t t = yv_range(2 + i, 0, 2);
		items[i].key = t == 0 ? YASL_END() : t == 1 ? YASL_UNDEF() : YASL_INT(yv_get(40 + i));
		items[i].value = YASL_INT(yv_get(50 + i));
	}
	size_t at = start;
	while (at < 6 && items[at].key.type != Y_INT) at++;
	yv_rb = below == 'T' && at < 6;
	snap(); yv_x.sp = 4; yv_x.keep = 5;
	if (yv_rb) { yv_x.sp = 6; yv_x.ntop = 2; yv_x.top[1] = items[at].key; yv_x.top[0] = items[at].value; }
	bool r = YASL_tablenext(&yv_S);
	yv_assert((r != 0) == (yv_rb != 0), "the result"); same(); yv_reach();
}
#define TN(k, b) void u_tablenext_##k##b(void) { tablenext(*#k, *#b); }
TN(u, T) TN(i, T) TN(s, T) TN(u, i) TN(i, L)

/* YASL_listget */
static void listget(char kind) {
	setup(kind, 5);
	yv_ls.items = yv_items; yv_ls.size = 8; yv_ls.count = (size_t)yv_range(1, 0, 8);
	for (int i = 0; i < 8; i++) yv_items[i] = YASL_INT(yv_get(40 + i));
	int64_t n = yv_get(2);
	if (YV_MODE_NATIVE) n %= 12;
	snap();
	if (kind != 'L') yv_ri = YASL_TYPE_ERROR;
	else {
		int64_t c = (int64_t)yv_ls.count, at = n < 0 ? n + c : n;
		yv_ri = YASL_SUCCESS;
		if (at < 0 || at >= c) yv_x.err = YASL_VALUE_ERROR;
		else { yv_x.sp = 6; yv_x.ntop = 1; yv_x.top[0] = yv_items[at]; }
	}
	int r = YASL_listget(&yv_S, n);
	yv_assert(r == yv_ri, "the result"); same(); yv_reach();
}
void u_listget_L(void) { listget('L'); }
void u_listget_i(void) { listget('i'); }
void u_listget_T(void) { listget('T'); }
