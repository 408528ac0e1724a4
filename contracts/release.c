/* C12: what an object holds is released with it: data-structures/YASL_List.c, interpreter/userdata.c, interpreter/closure.c,
 * str_del_*, cfn_del_* and upval_set. Calls of dec_ref and free are logged; free also takes place. */
#include "yvh.h"
#include "interpreter/YASL_Object.h"
#include "interpreter/userdata.h"
#include "interpreter/upvalue.h"
#include "interpreter/closure.h"
#include "data-structures/YASL_List.h"
#include "data-structures/YASL_String.h"

static void *yv_p[6];                /* the blocks that may be freed */
static int yv_freed[6];
static int yv_else;                  /* anything else that happened */
static struct YASL_Object *yv_at;    /* the reference looked at */
static int yv_hits;                  /* how often it was given up */
static struct YASL_Object *yv_lo, *yv_hi;

static void yv_free(void *p) {
	if (p == NULL) return;
	if (p == yv_p[0]) yv_freed[0]++;
	else if (p == yv_p[1]) yv_freed[1]++;
	else if (p == yv_p[2]) yv_freed[2]++;
	else if (p == yv_p[3]) yv_freed[3]++;
	else if (p == yv_p[4]) yv_freed[4]++;
	else yv_else++;
	free(p);
}
#define free yv_free
#ifdef YV_LIST
void dec_ref(struct YASL_Object *v) {
	yv_assert(v >= yv_lo && v < yv_hi, "only what the list holds is given up");
	if (v == yv_at) yv_hits++;
}
void inc_ref(struct YASL_Object *v) { (void) v; }
void dec_strong_ref(struct YASL_Object *v) { (void) v; }
void YASL_List_del_data(void *ls)
	YV_REQUIRES(((struct YASL_List *)ls)->count <= ((struct YASL_List *)ls)->size)
	YV_ASSIGNS(yv_hits, yv_else, __CPROVER_object_whole(yv_freed))
	YV_FREES(ls, ((struct YASL_List *)ls)->items)
	YV_ENSURES(yv_else == __CPROVER_old(yv_else));
#include "data-structures/YASL_List.c"
#else
static struct YASL_Object yv_given[4];
static int yv_ngiven;
void dec_ref(struct YASL_Object *v) {
	if (yv_ngiven < 4) yv_given[yv_ngiven] = *v;
	yv_ngiven++;
}
#include "interpreter/userdata.c"
#include "interpreter/closure.c"
#include "interpreter/upvalue.c"
#endif
#undef free

#ifdef YV_LIST
void u_list_del(void) {
	struct YASL_List *ls = malloc(sizeof *ls);
	ls->size = yv_size(0, 40);
	ls->count = yv_size(1, 40);
	size_t k = yv_size(2, 40);
	yv_assume(ls->count <= ls->size && (k < ls->size || k == 0) && ls->size > 0 && ls->size <= (size_t)1 << 36);
	ls->items = yv_block(ls->size * sizeof(struct YASL_Object));
	const size_t count = ls->count;
	yv_lo = ls->items; yv_hi = ls->items + count; yv_at = ls->items + k;
	yv_p[0] = ls; yv_p[1] = ls->items;
	yv_hits = yv_else = yv_freed[0] = yv_freed[1] = 0;
	YASL_List_del_data(ls);
	yv_assert(yv_hits == (k < count ? 1 : 0), "every element is given up exactly once");
	yv_assert(yv_freed[0] == 1 && yv_freed[1] == 1 && yv_else == 0, "the list and its elements are freed");
	yv_reach();
}
#else
static void reset(void) {
	for (int i = 0; i < 6; i++) { yv_p[i] = NULL; yv_freed[i] = 0; }
	yv_else = 0; yv_ngiven = 0;
}
static int yv_destroyed;
static void *yv_arg;
static void destroy(void *p) { yv_destroyed++; yv_arg = p; }
static struct RC_UserData yv_mt[2];
static char yv_data;
static void ud_del_unit(bool mt, bool d) {
	struct RC_UserData *u = malloc(sizeof *u);
	reset();
	yv_destroyed = 0;
	yv_mt[0].rc.refs = yv_size(0, 5) + 1;
	const size_t refs = yv_mt[0].rc.refs;
	u->rc.refs = 0; u->rc.weak_refs = yv_size(1, 5);
	u->mt = mt ? &yv_mt[0] : NULL; u->destructor = d ? destroy : NULL; u->data = &yv_data; u->tag = "tag";
	ud_del_data(u);
	yv_assert(yv_ngiven == (mt ? 1 : 0), "the metatable is given up, once");
	if (mt) yv_assert(yv_given[0].type == Y_TABLE && yv_given[0].value.uval == &yv_mt[0], "it is the metatable that is given up");
	yv_assert(yv_mt[0].rc.refs == refs, "by dec_ref");
	yv_assert(yv_destroyed == (d ? 1 : 0) && (!d || yv_arg == &yv_data), "the destructor runs, once, on the data");
	yv_p[0] = u;
	ud_del_rc(u);
	yv_assert(yv_freed[0] == 1 && yv_else == 0, "the counters go");
	yv_reach();
}
void u_ud_del_00(void) { ud_del_unit(false, false); }
void u_ud_del_01(void) { ud_del_unit(false, true); }
void u_ud_del_10(void) { ud_del_unit(true, false); }
void u_ud_del_11(void) { ud_del_unit(true, true); }
static void ud_setmt_unit(int old, int new) {
	struct RC_UserData u;
	reset();
	yv_mt[0].rc.refs = yv_size(0, 5) + 1; yv_mt[1].rc.refs = yv_size(1, 5) + 1;
	const size_t r0 = yv_mt[0].rc.refs, r1 = yv_mt[1].rc.refs;
	u.mt = old < 0 ? NULL : &yv_mt[old];
	ud_setmt(&u, new < 0 ? NULL : &yv_mt[new]);
	yv_assert(u.mt == (new < 0 ? NULL : &yv_mt[new]), "the metatable is the new one");
	yv_assert(yv_mt[0].rc.refs == r0 + (new == 0) && yv_mt[1].rc.refs == r1 + (new == 1), "the new metatable has one more reference");
	yv_assert(yv_ngiven == (old >= 0) && (old < 0 || (yv_given[0].type == Y_TABLE && yv_given[0].value.uval == &yv_mt[old])), "the old metatable is given up, once");
	yv_reach();
}
void u_setmt_nn(void) { ud_setmt_unit(-1, -1); } void u_setmt_n0(void) { ud_setmt_unit(-1, 0); } void u_setmt_0n(void) { ud_setmt_unit(0, -1); }
void u_setmt_01(void) { ud_setmt_unit(0, 1); } void u_setmt_00(void) { ud_setmt_unit(0, 0); }
static void ud_new_unit(bool mt) {
	reset();
	yv_mt[0].rc.refs = yv_size(0, 5);
	const size_t r0 = yv_mt[0].rc.refs;
	struct RC_UserData *u = ud_new(&yv_data, "tag", mt ? &yv_mt[0] : NULL, destroy);
	yv_assert(u->rc.refs == 0 && u->rc.weak_refs == 0, "nothing refers to a new userdata");
	yv_assert(u->data == &yv_data && u->destructor == destroy && u->mt == (mt ? &yv_mt[0] : NULL), "it is as given");
	yv_assert(yv_mt[0].rc.refs == r0 + (mt ? 1 : 0), "it refers to its metatable");
	yv_reach();
	free(u);
}
void u_ud_new_mt(void) { ud_new_unit(true); }
void u_ud_new(void) { ud_new_unit(false); }

/* closures: the variables may be shared among closures, and captured twice by one */
static struct YASL_Object yv_var[3];
static void closure_unit(int n, int shared) {
	struct Closure *c = malloc(sizeof(struct Closure) + 4 * sizeof(struct Upvalue *));
	struct Upvalue *u[3];
	reset();
	size_t refs[3];
	for (int i = 0; i < 3; i++) {
		u[i] = malloc(sizeof *u[i]);
		refs[i] = u[i]->rc.refs = yv_size(i, 2) + (i == 0 ? 2 : 1);
		u[i]->rc.weak_refs = 0;
		u[i]->next = NULL;
		yv_var[i] = YASL_INT(100 + i);
		u[i]->closed = yv_var[i];
		u[i]->location = yv_get(4 + i) & 1 ? &u[i]->closed : &yv_var[i];
		yv_p[i] = u[i];
	}
	c->rc.refs = 0; c->rc.weak_refs = 0; c->f = NULL; c->num_upvalues = n;
	for (int i = 0; i < n; i++) c->upvalues[i] = i == shared ? u[0] : u[i];
	closure_del_data(c);
	int gone = 0;
	for (int i = 0; i < 3; i++) {
		const size_t d = (i < n && i != shared ? 1 : 0) + (i == 0 && shared > 0 && shared < n ? 1 : 0);
		const bool last = refs[i] == d;
		yv_assert(yv_freed[i] == (last ? 1 : 0), "a variable goes with the last closure that captured it");
		if (!last) yv_assert(u[i]->rc.refs == refs[i] - d, "a variable that is still captured stays");
		if (last) {
			bool found = false;
			for (int j = 0; j < 3; j++) found = found || (j < yv_ngiven && yv_given[j].value.ival == 100 + i);
			yv_assert(found, "the value of a variable is given up with it");
			gone++;
		}
	}
	yv_assert(yv_ngiven == gone && yv_else == 0, "nothing else is given up");
	yv_p[3] = c;
	closure_del_rc(c);
	yv_assert(yv_freed[3] == 1, "the closure goes");
	yv_reach();
#ifdef YV_NATIVE
	for (int i = 0; i < 3; i++) if (!yv_freed[i]) free(u[i]);
#endif
}
void u_closure_0(void) { closure_unit(0, -1); } void u_closure_1(void) { closure_unit(1, -1); } void u_closure_2(void) { closure_unit(2, -1); } void u_closure_3(void) { closure_unit(3, -1); }
void u_closure_2s(void) { closure_unit(2, 1); } void u_closure_3s(void) { closure_unit(3, 2); }

void u_upval_set(void) {
	struct Upvalue u;
	reset();
	yv_var[0].type = (int)yv_range(0, 0, NUM_TYPES - 1); yv_var[0].value.ival = yv_get(1);
	struct YASL_Object v, was = yv_var[0];
	v.type = (int)yv_range(2, 0, NUM_TYPES - 1); v.value.ival = yv_get(3);
	const bool closed = yv_range(4, 0, 1);
	u.closed = was;
	u.location = closed ? &u.closed : &yv_var[0];
	upval_set(&u, v);
	yv_assert(u.location == (closed ? &u.closed : &yv_var[0]), "the variable stays where it is");
	yv_assert(u.location->type == v.type && u.location->value.ival == v.value.ival, "it has the new value");
	yv_assert(yv_ngiven == 1 && yv_given[0].type == was.type && yv_given[0].value.ival == was.value.ival, "the old value is given up, once");
	yv_reach();
}
#endif
