/* Captured variables: upvalue.c, closure.c and the instructions of VM.c that create, read, write and close them (C13). */
#define YV_EXTRA_ASSIGNS , __CPROVER_object_whole(&yv_u0), __CPROVER_object_whole(&yv_u1), __CPROVER_object_whole(&yv_u2)
#include "interpreter/upvalue.h"
static struct Upvalue yv_u0, yv_u1, yv_u2;
#include "interpreter/closure.h"
#include "interpreter/YASL_Object.h"
static inline struct Closure *yv_getclo(struct YASL_Object v) { return v.value.lval; }
#include "vmh.h"
#include "interpreter/upvalue.c"
static struct Upvalue *yv_uv(int i) { return i == 0 ? &yv_u0 : i == 1 ? &yv_u1 : &yv_u2; }
/* (in the verified text, struct Closure has room for three upvalues: see SUB in props/c13.py) */
#ifdef YV_NATIVE
static struct { struct RC rc; unsigned char *f; size_t num_upvalues; struct Upvalue *upvalues[3]; } yv_clo;
#else
static struct Closure yv_clo;
#endif

static struct YASL_Object val(char k, int in) {
	switch (k) {
	case 's': return YASL_STR(&yv_s[0]);
	case 't': return YASL_STR(&yv_s[1]);
	case 'f': return YASL_FLOAT(yv_getd(in));
	case 'b': return YASL_BOOL(yv_range(in, 0, 1));
	case 'u': return YASL_UNDEF();
	default: return YASL_INT(yv_get(in));
	}
}
static void strs(void) {
	for (int i = 0; i < 2; i++) { yv_s[i].str = (char *)"abcdefgh"; yv_s[i].start = 0; yv_s[i].end = i; yv_s[i].on_heap = false; yv_s[i].rc = NEW_RC(); yv_s[i].rc.refs = 9; }
}
/* a closure with three variables in slot 2; slots 3..6 hold locals, 0 and 1 the variables of the frame below.
 * Variable 0 is open (slot 1), 1 is closed, 2 is open (slot 4, a local of this very frame). */
static void setup(const char *kinds) {
	yv_vm_setup(2, 6);
	strs();
	yv_clo.rc = NEW_RC(); yv_clo.rc.refs = 5; yv_clo.f = yv_code + 24; yv_clo.num_upvalues = 3;
	for (int i = 0; i < 3; i++) { yv_clo.upvalues[i] = yv_uv(i); yv_uv(i)->rc = NEW_RC(); yv_uv(i)->rc.refs = 2; yv_uv(i)->next = NULL; }
	yv_stack[1] = val(kinds[0], 8);
	yv_u1.closed = val(kinds[1], 9);
	for (int i = 0; i < 4; i++) yv_stack[3 + i] = val(kinds[2 + i], 10 + i);
	yv_u0.location = &yv_stack[1]; yv_u1.location = &yv_u1.closed; yv_u2.location = &yv_stack[4];
	yv_vm.pending = &yv_u2; yv_u2.next = &yv_u0;
	yv_stack[2].type = Y_CLOSURE; yv_stack[2].value.lval = (struct Closure *)&yv_clo;
}
static void op1(unsigned char op, int arg) { yv_vm.pc[0] = op; yv_vm.pc[1] = (unsigned char)arg; }

/* ---- reading and writing a captured variable */
static void uload(const char *kinds, int k) {
	setup(kinds);
	op1(O_ULOAD, k);
	yv_vm_snap();
	yv_x.sp = 7; yv_x.keep = 7; yv_x.pc += 2; yv_x.ntop = 1;
	yv_x.top[0] = k == 0 ? yv_stack[1] : k == 1 ? yv_u1.closed : yv_stack[4];
	struct YASL_Object c = yv_u1.closed;
	YV_EXEC();
	yv_refs_ok();
	yv_assert(yv_sameobj(yv_u1.closed, c), "the closed variable keeps its value");
}
static void ustore(const char *kinds, int k) {
	setup(kinds);
	op1(O_USTORE, k);
	yv_vm_snap();
	yv_x.sp = 5; yv_x.keep = 6; yv_x.pc += 2; yv_x.but = k == 0 ? 1 : k == 1 ? -1 : 4;
	struct YASL_Object v = yv_stack[6], c = yv_u1.closed;
	YV_EXEC();
	if (k == 0) yv_assert(yv_sameobj(yv_stack[1], v), "the variable of the frame below holds the value");
	if (k == 1) yv_assert(yv_sameobj(yv_u1.closed, v), "the closed variable holds the value");
	else yv_assert(yv_sameobj(yv_u1.closed, c), "the closed variable keeps its value");
	if (k == 2) yv_assert(yv_sameobj(yv_stack[4], v), "the local holds the value");
	yv_assert(yv_u0.location == &yv_stack[1] && yv_u1.location == &yv_u1.closed && yv_u2.location == &yv_stack[4], "variables stay where they are");
	if (k != 1) yv_refs_ok();
	else for (int i = 0; i < 2; i++) {
		int out = c.type == Y_STR && c.value.sval == &yv_s[i], in = v.type == Y_STR && v.value.sval == &yv_s[i];
		yv_assert((int)yv_s[i].rc.refs - yv_slots(&yv_s[i]) == yv_refs0[i] - out + in, "reference counts follow the references");
	}
}
#define EACH(fn) \
	void u_##fn##_0(void) { fn("iiifib", 0); } void u_##fn##_1(void) { fn("ifiibi", 1); } void u_##fn##_2(void) { fn("iifiuf", 2); } \
	void u_##fn##_s0(void) { fn("siiiit", 0); } void u_##fn##_s1(void) { fn("isiiis", 1); } void u_##fn##_s2(void) { fn("iitsii", 2); } void u_##fn##_t1(void) { fn("itiiis", 1); } void u_##fn##_t2(void) { fn("iisiit", 2); }
EACH(uload) EACH(ustore)

/* ---- the open variables: a list sorted by location, one entry for each variable captured, with any subset of the slots 1, 3, 4, 6 open */
static struct Upvalue *yv_ups[4];
static const int yv_slot[4] = {6, 4, 3, 1};
static void pendings(int mask, int refs) {
	struct Upvalue **p = &yv_vm.pending;
	for (int i = 0; i < 4; i++) {
		yv_ups[i] = NULL;
		if (!(mask >> i & 1)) continue;
		yv_ups[i] = upval_new(&yv_stack[yv_slot[i]]);
		yv_ups[i]->rc.refs = refs;
		*p = yv_ups[i];
		p = &yv_ups[i]->next;
	}
	*p = NULL;
}
static bool sorted(void) {
	const struct Upvalue *u = yv_vm.pending;
	for (int i = 0; i < 5 && u; i++) { if (u->next && u->next->location >= u->location) return false; u = u->next; }
	return u == NULL;
}
static bool listed(const struct Upvalue *x) {
	const struct Upvalue *u = yv_vm.pending;
	for (int i = 0; i < 5 && u; i++) { if (u == x) return true; u = u->next; }
	return false;
}
/* what leaves the stack from slot `from` on is closed with its value, everything below stays open */
static void closed_from(const int from, const struct YASL_Object *was, int refs) {
	for (int i = 0; i < 4; i++) {
		if (!yv_ups[i]) continue;
		if (yv_slot[i] >= from) {
			if (refs == 1) continue;      /* freed: nobody captured it any more */
			yv_assert(yv_ups[i]->location == &yv_ups[i]->closed, "a variable that leaves the stack is closed");
			yv_assert(yv_sameobj(yv_ups[i]->closed, was[yv_slot[i]]), "a closed variable has the value it had");
			yv_assert(yv_ups[i]->rc.refs == (size_t)refs - 1, "the list of open variables gives up its reference");
			yv_assert(!listed(yv_ups[i]), "a closed variable is not in the list of open ones");
		} else {
			yv_assert(yv_ups[i]->location == &yv_stack[yv_slot[i]], "the variables below stay open");
			yv_assert(yv_ups[i]->rc.refs == (size_t)refs, "the variables below keep their references");
			yv_assert(listed(yv_ups[i]), "the variables below stay in the list");
		}
	}
	yv_assert(sorted(), "the list of open variables stays sorted");
	yv_reach();
}
static void close_unit(int how, int mask, int refs) {
	yv_vm_setup(2, 6);
	strs();
	yv_stack[3] = val('s', 8); yv_stack[4] = val('f', 9); yv_stack[6] = val('i', 10); yv_stack[1] = val('i', 11);
	pendings(mask, refs);
	yv_vm_snap();
	struct YASL_Object was[8];
	for (int i = 0; i < 8; i++) was[i] = yv_stack[i];
	if (how == 0) { vm_close_all(&yv_vm); closed_from(2, was, refs); }
	else if (how == 1) { vm_close_top(&yv_vm, 1); closed_from(6, was, refs); }
	else { vm_close_top(&yv_vm, 3); closed_from(4, was, refs); }
	if (mask >> 2 & 1 && how == 0 && refs > 1)
		yv_assert((int)yv_s[0].rc.refs - yv_slots(&yv_s[0]) == yv_refs0[0] + 1, "a closed variable holds a reference of its own");
	else yv_refs_ok();
}
#define CLOSE(m) void u_close_all_##m(void) { close_unit(0, m, 2 + (int)yv_range(0, 0, 5)); } void u_close_top_##m(void) { close_unit(1, m, 2 + (int)yv_range(0, 0, 5)); } \
	void u_close_three_##m(void) { close_unit(2, m, 2 + (int)yv_range(0, 0, 5)); } void u_close_free_##m(void) { close_unit(0, m, 1); }
CLOSE(0) CLOSE(1) CLOSE(2) CLOSE(4) CLOSE(8) CLOSE(7) CLOSE(15) CLOSE(10)

/* ---- creating a closure: one captured local and one variable of the enclosing closure */
static void cconst(int mask, int local) {
	setup("iiiiii");
	pendings(mask, 3);
	const int64_t len = local * 3;
	yv_vm.pc[0] = O_CCONST; yv_put_int(len);
	unsigned char *p = yv_vm.pc + 9 + len;
	p[0] = 2; p[1] = (unsigned char)local; p[2] = (unsigned char)~1;
	yv_vm_snap();
	struct YASL_Object was[8];
	for (int i = 0; i < 8; i++) was[i] = yv_stack[i];
	const size_t refs1 = yv_u1.rc.refs;
	yv_vm.pc++;
	vm_CCONST(&yv_vm);
	yv_assert(yv_vm.sp == 7 && yv_vm.fp == 2 && yv_vm.pc == p + 3, "the registers");
	for (int i = 0; i < 7; i++) yv_assert(yv_sameobj(was[i], yv_stack[i]), "the rest of the stack is unchanged");
	yv_assert(yv_stack[7].type == Y_CLOSURE, "a closure is on top");
	struct Closure *c = yv_stack[7].value.lval;
	yv_assert(c != (struct Closure *)&yv_clo && c->num_upvalues == 2 && c->rc.refs == 1, "it is a new closure with two variables");
	yv_assert(c->f == p - len, "its code follows");
	yv_assert(c->upvalues[0]->location == &yv_stack[3 + local], "it captured the variable itself");
	yv_assert(c->upvalues[1] == &yv_u1 && yv_u1.rc.refs == refs1 + 1, "it shares the variable of the enclosing closure");
	yv_assert(sorted() && listed(c->upvalues[0]), "the variable is in the sorted list of open ones");
	bool found = false;
	for (int i = 0; i < 4; i++) {
		if (!yv_ups[i]) continue;
		yv_assert(listed(yv_ups[i]), "open variables stay in the list");
		const bool it = yv_slot[i] == 3 + local;
		found = found || it;
		yv_assert((yv_ups[i] == c->upvalues[0]) == it, "a variable captured twice is shared");
		yv_assert(yv_ups[i]->rc.refs == (it ? 4u : 3u), "references to variables");
	}
	if (!found) yv_assert(c->upvalues[0]->rc.refs == 2, "referenced by the list and the closure");
	yv_reach();
}
/* the heart of it: the open variable for a slot */
static void addup(int mask, int slot) {
	setup("iiiiii");
	pendings(mask, 3);
	struct YASL_Object was[8];
	for (int i = 0; i < 8; i++) was[i] = yv_stack[i];
	struct Upvalue *u = add_upvalue(&yv_vm, &yv_stack[slot]);
	yv_assert(u->location == &yv_stack[slot] && sorted() && listed(u), "the variable is open and in the sorted list");
	bool found = false;
	for (int i = 0; i < 4; i++) {
		if (!yv_ups[i]) continue;
		yv_assert(listed(yv_ups[i]) && yv_ups[i]->location == &yv_stack[yv_slot[i]] && yv_ups[i]->rc.refs == 3, "open variables stay as they are");
		yv_assert((yv_ups[i] == u) == (yv_slot[i] == slot), "a variable captured twice is shared");
		found = found || yv_slot[i] == slot;
	}
	if (!found) yv_assert(u->rc.refs == 1, "the list holds a reference");
	for (int i = 0; i < 8; i++) yv_assert(yv_sameobj(was[i], yv_stack[i]), "the stack is unchanged");
	yv_reach();
}
#define AU(m) void u_addup_##m##_0(void) { addup(m, 3); } void u_addup_##m##_1(void) { addup(m, 4); } void u_addup_##m##_3(void) { addup(m, 6); }
AU(0) AU(2) AU(4) AU(8) AU(9) AU(15)
#define CC(m) void u_cconst_##m##_0(void) { cconst(m, 0); } void u_cconst_##m##_1(void) { cconst(m, 1); } void u_cconst_##m##_3(void) { cconst(m, 3); }
CC(0) CC(2) CC(4) CC(8) CC(9) CC(15)

/* ---- upvalue.c on its own */
#ifndef YV_NATIVE
struct YASL_Object upval_get(const struct Upvalue *const upval)
	YV_REQUIRES(__CPROVER_is_fresh(upval, sizeof *upval) && __CPROVER_is_fresh(upval->location, sizeof *upval->location)) YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value.type == upval->location->type && __CPROVER_return_value.value.ival == upval->location->value.ival);
void upval_close(struct Upvalue *const upval)
	YV_REQUIRES(__CPROVER_is_fresh(upval, sizeof *upval) && __CPROVER_is_fresh(upval->location, sizeof *upval->location)) YV_ASSIGNS(upval->closed, upval->location)
	YV_ENSURES(upval->location == &upval->closed)
	YV_ENSURES(upval->closed.type == __CPROVER_old(upval->location->type) && upval->closed.value.ival == __CPROVER_old(upval->location->value.ival));
#endif
void u_get(void) { struct Upvalue *u; upval_get(u); yv_reach(); }
void u_close(void) { struct Upvalue *u; upval_close(u); yv_reach(); }
static void new_unit(struct YASL_Object *loc) {
	struct Upvalue *u = upval_new(loc);
	yv_assert(u->location == loc && u->rc.refs == 0 + NEW_RC().refs - 0 && u->next == NULL, "a new open variable");
	yv_reach();
}
void u_new(void) { new_unit(&yv_stack[3]); }
