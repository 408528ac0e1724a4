/*
 * C05: data-structures/YASL_Set.c, sets of any size (see table.c).
 *
 * The sequence of slots that are probed for the key is H(0), H(1), ... (get_hash). The precondition of every operation is the
 * invariant of tables for this key: there are J and S with H(J) == S such that no slot before holds the key or was never used, and S
 * holds the key (it is present) or was never used (it is absent); J == size where every slot was probed (absent). T is the first
 * slot before S that was deleted, if any. Instances of the universally quantified part are given where they are needed: by the
 * contract of get_hash, at the slot that is probed. A value stands for all the values it is equal to (isequal_typed is replaced by
 * a contract that compares representations; that the real one is an equivalence with which get_hash agrees is proved below).
 */
#include "yvh.h"
#include "data-structures/YASL_Set.h"
#include "interpreter/userdata.h"
#include "interpreter/YASL_Object.h"
#include "util/hash_function.h"

#define YV_MAX ((size_t)1 << 30)
static struct YASL_Set *yv_t;
static struct YASL_Object yv_key;
static size_t yv_J, yv_S, yv_T, yv_TS, yv_block_n;
static bool yv_present, yv_resized, yv_hashable;                 /* the key is in the table; the table was resized */
static size_t yv_g;                                  /* an arbitrary slot */
static int64_t yv_bal;                               /* references taken minus references given back, of the object yv_gobj */
static struct YASL_Object yv_gobj;

#define SAME(a, b) ((a).type == (b).type && (a).value.ival == (b).value.ival)
#define EMPTY(s) (yv_t->items[s].type == Y_UNDEF)
#define DELETED(s) (yv_t->items[s].type == Y_END)
#define HOLDS(s) SAME(yv_t->items[s], yv_key)
#define GHOSTS_OK (yv_J <= yv_t->size && (yv_J == yv_t->size || yv_S < yv_t->size) && (yv_J < yv_t->size || (!yv_present && yv_T < yv_J)) && \
	(yv_J == yv_t->size || (yv_present ? HOLDS(yv_S) : EMPTY(yv_S))) && (yv_T >= yv_J || (yv_TS < yv_t->size && DELETED(yv_TS))))

#ifndef YV_NATIVE
size_t get_hash(const struct YASL_Object s, const size_t num_buckets, const size_t attempt)
	YV_REQUIRES(num_buckets == yv_t->size && SAME(s, yv_key))
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value < yv_t->size)
	YV_ENSURES(attempt != yv_J || yv_J == yv_t->size || __CPROVER_return_value == yv_S)
	YV_ENSURES(attempt != yv_T || yv_T >= yv_J || __CPROVER_return_value == yv_TS)
	YV_ENSURES(attempt >= yv_J || (!EMPTY(__CPROVER_return_value) && !HOLDS(__CPROVER_return_value)))
	YV_ENSURES(attempt >= yv_J || attempt >= yv_T || !DELETED(__CPROVER_return_value));
bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b)
	YV_REQUIRES(1)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == (bool)(a->type == b->type && a->value.ival == b->value.ival));
void inc_ref(struct YASL_Object *v) YV_REQUIRES(1) YV_ASSIGNS(yv_bal) YV_ENSURES(yv_bal == __CPROVER_old(yv_bal) + (SAME(*v, yv_gobj) ? 1 : 0));
void dec_ref(struct YASL_Object *v) YV_REQUIRES(1) YV_ASSIGNS(yv_bal) YV_ENSURES(yv_bal == __CPROVER_old(yv_bal) - (SAME(*v, yv_gobj) ? 1 : 0));
/* resizing keeps the members: other slots, with the value among them or not as before (see set_resize) */
#define RESIZE_CONTRACT(fn) static void fn(struct YASL_Set *set) \
	YV_REQUIRES(set == yv_t && GHOSTS_OK) \
	YV_ASSIGNS(set->size, set->base_size, __CPROVER_object_whole(set->items), yv_J, yv_S, yv_T, yv_TS, yv_resized) \
	YV_ENSURES(yv_resized && set->size > 0 && set->size <= yv_block_n && GHOSTS_OK);
RESIZE_CONTRACT(set_resize_up)
RESIZE_CONTRACT(set_resize_down)
#endif
bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key)
	YV_REQUIRES(set == yv_t && SAME(key, yv_key) && GHOSTS_OK)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == yv_present);
void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key)
	YV_REQUIRES(set == yv_t && SAME(key, yv_key) && GHOSTS_OK)
	YV_ASSIGNS(*set, __CPROVER_object_whole(set->items), yv_bal, yv_J, yv_S, yv_T, yv_TS, yv_resized)
	YV_ENSURES(set->count == __CPROVER_old(set->count) - (yv_present && yv_hashable));
bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value)
	YV_REQUIRES(set == yv_t && SAME(value, yv_key) && GHOSTS_OK)
	YV_ASSIGNS(*set, __CPROVER_object_whole(set->items), yv_bal, yv_J, yv_S, yv_T, yv_TS, yv_resized)
	YV_ENSURES(__CPROVER_return_value == yv_hashable && set->count == __CPROVER_old(set->count) + (!yv_present && yv_hashable));

#include "data-structures/YASL_Set.c"

static struct YASL_Set yv_set;
static void set(bool present) {
	yv_t = &yv_set;
	yv_block_n = yv_size(0, 0);
	yv_t->size = yv_size(1, 0);
	yv_assume(yv_t->size > 0 && yv_t->size <= yv_block_n && yv_block_n <= YV_MAX);
	yv_t->items = (struct YASL_Object *)malloc(yv_block_n * sizeof(struct YASL_Object));
	yv_t->base_size = yv_size(2, 0);
	yv_t->count = yv_size(3, 0);
	yv_assume(yv_t->count <= yv_t->size && yv_t->count >= present);
	int kind = (int)yv_range(4, 0, 3);
	yv_key.type = kind == 0 ? Y_INT : kind == 1 ? Y_FLOAT : kind == 2 ? Y_BOOL : Y_STR;
	yv_key.value.ival = yv_get(5);
	yv_present = present;
	yv_hashable = true;
	yv_J = yv_size(8, 0); yv_S = yv_size(9, 0); yv_T = yv_size(10, 0); yv_TS = yv_size(11, 0);
	yv_assume(GHOSTS_OK);
	yv_gobj.type = yv_range(12, 0, 1) ? Y_STR : Y_INT;
	yv_gobj.value.ival = yv_get(13);
	yv_bal = 0;
	yv_resized = false;
	yv_g = yv_size(14, 0);
	yv_assume(yv_g < yv_t->size);
}
#define CNT(o) (SAME(o, yv_gobj) ? 1 : 0)
void u_search_present(void) { set(true); YASL_Set_search(yv_t, yv_key); yv_reach(); }
void u_search_absent(void) { set(false); YASL_Set_search(yv_t, yv_key); yv_reach(); }
static void rm(bool present, bool resize) {
	set(present);
	yv_assume((yv_t->count * 100 / yv_t->size < 10) == resize);
	struct YASL_Object g = yv_t->items[yv_g];
	YASL_Set_rm(yv_t, yv_key);
	if (present) {
		yv_assert(DELETED(yv_S), "the slot of the value is marked as deleted");
		yv_assert(yv_bal == -CNT(yv_key), "the reference of the set is given back");
	} else
		yv_assert(yv_bal == 0, "no reference changes where the value is no member");
	if (!yv_resized) yv_assert((present && yv_g == yv_S) || SAME(yv_t->items[yv_g], g), "every other slot stays");
	yv_reach();
}
void u_rm_present(void) { rm(true, false); }
void u_rm_absent(void) { rm(false, false); }
void u_rm_present_resize(void) { rm(true, true); }
void u_rm_absent_resize(void) { rm(false, true); }
static void insert(bool present, bool resize) {
	set(present);
	yv_assume((yv_t->count * 100 / yv_t->size > 70) == resize);
	struct YASL_Object g = yv_t->items[yv_g];
	YASL_Set_insert(yv_t, yv_key);
	size_t at = present || yv_T >= yv_J ? yv_S : yv_TS;
	yv_assert(HOLDS(at), "the value is a member, in the slot where it is looked for");
	yv_assert(yv_bal == (present ? 0 : CNT(yv_key)), "the set holds one reference to its member");
	if (!yv_resized) yv_assert(yv_g == at || SAME(yv_t->items[yv_g], g), "every other slot stays");
	yv_reach();
}
void u_insert_present(void) { insert(true, false); }
void u_insert_absent(void) { insert(false, false); }
void u_insert_present_resize(void) { insert(true, true); }
void u_insert_absent_resize(void) { insert(false, true); }
static void bad(int type) {
	set(false);
	yv_key.type = type;
	yv_hashable = false;
}
#define UNCHANGED (yv_t->count == c && yv_t->size == s && yv_bal == 0 && SAME(yv_t->items[yv_g], g))
void u_insert_bad(void) {
	bad(Y_LIST);
	size_t c = yv_t->count, s = yv_t->size;
	struct YASL_Object g = yv_t->items[yv_g];
	YASL_Set_insert(yv_t, yv_key);
	yv_assert(UNCHANGED, "a mutable value is refused and nothing changes");
	yv_reach();
}
void u_rm_bad(void) {
	bad(Y_TABLE);
	size_t c = yv_t->count, s = yv_t->size;
	struct YASL_Object g = yv_t->items[yv_g];
	YASL_Set_rm(yv_t, yv_key);
	yv_assert(UNCHANGED, "nothing changes");
	yv_reach();
}
void u_new(void) {
	struct YASL_Set *t = YASL_Set_new();
	size_t k = yv_size(0, 30);
	yv_assume(k < t->size);
	yv_assert(t->count == 0, "an empty set");
	yv_assert(t->items[k].type == Y_UNDEF, "no slot was used");
	yv_reach();
}
