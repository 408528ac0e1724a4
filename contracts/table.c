/*
 * C04: data-structures/YASL_Table.c, tables of any size.
 *
 * The sequence of slots that are probed for the key is H(0), H(1), ... (get_hash). The precondition of every operation is the
 * invariant of tables for this key: there are J and S with H(J) == S such that no slot before holds the key or was never used, and S
 * holds the key (it is present) or was never used (it is absent); J == size where every slot was probed (absent). T is the first
 * slot before S that was deleted, if any. Instances of the universally quantified part are given where they are needed: by the
 * contract of get_hash, at the slot that is probed. A value stands for all the values it is equal to (isequal_typed is replaced by
 * a contract that compares representations; that the real one is an equivalence with which get_hash agrees is proved below).
 */
#include "yvh.h"
#include "data-structures/YASL_Table.h"
#include "interpreter/userdata.h"
#include "interpreter/YASL_Object.h"
#include "util/hash_function.h"

#define YV_MAX ((size_t)1 << 30)
static struct YASL_Table *yv_t;
static struct YASL_Object yv_key, yv_val, yv_old;
static size_t yv_J, yv_S, yv_T, yv_TS, yv_block_n;
static bool yv_present, yv_resized;                 /* the key is in the table; the table was resized */
static size_t yv_g;                                  /* an arbitrary slot */
static int64_t yv_bal;                               /* references taken minus references given back, of the object yv_gobj */
static struct YASL_Object yv_gobj;

#define SAME(a, b) ((a).type == (b).type && (a).value.ival == (b).value.ival)
#define EMPTY(s) (yv_t->items[s].key.type == Y_UNDEF)
#define DELETED(s) (yv_t->items[s].key.type == Y_END)
#define HOLDS(s) SAME(yv_t->items[s].key, yv_key)
#define GHOSTS_OK (yv_J <= yv_t->size && (yv_J == yv_t->size || yv_S < yv_t->size) && (yv_J < yv_t->size || (!yv_present && yv_T < yv_J)) && \
	(yv_J == yv_t->size || (yv_present ? HOLDS(yv_S) : EMPTY(yv_S))) && (yv_T >= yv_J || (yv_TS < yv_t->size && DELETED(yv_TS))))

#ifndef YV_NATIVE
size_t get_hash(const struct YASL_Object s, const size_t num_buckets, const size_t attempt)
	YV_REQUIRES(num_buckets == yv_t->size && SAME(s, yv_key))
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value < yv_t->size)
	YV_ENSURES(attempt != yv_J || yv_J == yv_t->size || __CPROVER_return_value == yv_S)
	YV_ENSURES(attempt != yv_T || yv_T >= yv_J || __CPROVER_return_value == yv_TS)
	YV_ENSURES(attempt >= yv_J || (!EMPTY(__CPROVER_return_value) && !HOLDS(__CPROVER_return_value)))
	YV_ENSURES(attempt >= yv_J || attempt >= yv_T || !DELETED(__CPROVER_return_value));
bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b)
	YV_REQUIRES(1)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == (bool)(a->type == b->type && a->value.ival == b->value.ival));
void inc_ref(struct YASL_Object *v) YV_REQUIRES(1) YV_ASSIGNS(yv_bal) YV_ENSURES(yv_bal == __CPROVER_old(yv_bal) + (SAME(*v, yv_gobj) ? 1 : 0));
void dec_ref(struct YASL_Object *v) YV_REQUIRES(1) YV_ASSIGNS(yv_bal) YV_ENSURES(yv_bal == __CPROVER_old(yv_bal) - (SAME(*v, yv_gobj) ? 1 : 0));
/* resizing keeps the map: another table of another size, with the same length, where the key is bound to the same value or is absent (see table_resize) */
#define RESIZE_CONTRACT(fn) static void fn(struct YASL_Table *const table) \
	YV_REQUIRES(table == yv_t && GHOSTS_OK) \
	YV_ASSIGNS(table->size, table->base_size, __CPROVER_object_whole(table->items), yv_J, yv_S, yv_T, yv_TS, yv_resized) \
	YV_ENSURES(yv_resized && table->size > 0 && table->size <= yv_block_n && GHOSTS_OK) \
	YV_ENSURES(!yv_present || SAME(table->items[yv_S].value, yv_old));
RESIZE_CONTRACT(table_resize_up)
RESIZE_CONTRACT(table_resize_down)
#endif
size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Object key)
	YV_REQUIRES(table == yv_t && SAME(key, yv_key) && GHOSTS_OK)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value < table->size)
	YV_ENSURES(!yv_present || __CPROVER_return_value == yv_S)
	YV_ENSURES(yv_present || __CPROVER_return_value == (yv_T < yv_J ? yv_TS : yv_S));
struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const struct YASL_Object key)
	YV_REQUIRES(table == yv_t && SAME(key, yv_key) && GHOSTS_OK)
	YV_ASSIGNS()
	YV_ENSURES(yv_present ? SAME(__CPROVER_return_value, yv_old) : __CPROVER_return_value.type == Y_END);
void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
	YV_REQUIRES(table == yv_t && SAME(key, yv_key) && GHOSTS_OK)
	YV_ASSIGNS(*table, __CPROVER_object_whole(table->items), yv_bal, yv_J, yv_S, yv_T, yv_TS, yv_resized)
	YV_ENSURES(table->count == __CPROVER_old(table->count) - yv_present);
void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value)
	YV_REQUIRES(table == yv_t && SAME(key, yv_key) && GHOSTS_OK)
	YV_ASSIGNS(*table, __CPROVER_object_whole(table->items), yv_bal, yv_J, yv_S, yv_T, yv_TS, yv_resized)
	YV_ENSURES(table->count == __CPROVER_old(table->count) + !yv_present);
bool YASL_Table_insert(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value)
	YV_REQUIRES(table == yv_t && SAME(key, yv_key) && GHOSTS_OK)
	YV_ASSIGNS(*table, __CPROVER_object_whole(table->items), yv_bal, yv_J, yv_S, yv_T, yv_TS, yv_resized);

#include "data-structures/YASL_Table.c"

#define SHAPE(s) (yv_t->items[s].key.type <= Y_USERDATA_W || DELETED(s))
static struct YASL_Table yv_table;
/* a table in which the key is present / absent, and where the probes pass deleted slots or not */
static void table(bool present) {
	yv_t = &yv_table;
	TOMBSTONE.key = TOMBSTONE.value = YASL_END();    /* its initial value: see u_tombstone */
	yv_block_n = yv_size(0, 0);
	yv_t->size = yv_size(1, 0);
	yv_assume(yv_t->size > 0 && yv_t->size <= yv_block_n && yv_block_n <= YV_MAX);
	yv_t->items = (struct YASL_Table_Item *)malloc(yv_block_n * sizeof(struct YASL_Table_Item));
	yv_t->base_size = yv_size(2, 0);
	yv_t->count = yv_size(3, 0);
	yv_assume(yv_t->count <= yv_t->size && yv_t->count >= present);
	int kind = (int)yv_range(4, 0, 3);
	yv_key.type = kind == 0 ? Y_INT : kind == 1 ? Y_FLOAT : kind == 2 ? Y_BOOL : Y_STR;
	yv_key.value.ival = yv_get(5);
	yv_val.type = yv_range(6, 0, 1) ? Y_INT : Y_STR;
	yv_val.value.ival = yv_get(7);
	yv_present = present;
	yv_J = yv_size(8, 0); yv_S = yv_size(9, 0); yv_T = yv_size(10, 0); yv_TS = yv_size(11, 0);
	yv_assume(GHOSTS_OK);
	if (present) yv_old = yv_t->items[yv_S].value;
	yv_gobj.type = yv_range(12, 0, 1) ? Y_STR : Y_INT;
	yv_gobj.value.ival = yv_get(13);
	yv_bal = 0;
	yv_resized = false;
	yv_g = yv_size(14, 0);
	yv_assume(yv_g < yv_t->size);
}
#define CNT(o) (SAME(o, yv_gobj) ? 1 : 0)
void u_search_present(void) { table(true); struct YASL_Object v = YASL_Table_search(yv_t, yv_key); yv_reach(); }
void u_search_absent(void) { table(false); struct YASL_Object v = YASL_Table_search(yv_t, yv_key); yv_reach(); }
void u_getindex_present(void) { table(true); YASL_Table_getindex(yv_t, yv_key); yv_reach(); }
void u_getindex_absent(void) { table(false); YASL_Table_getindex(yv_t, yv_key); yv_reach(); }
static void rm(bool present, bool resize) {
	table(present);
	yv_assume((yv_t->count * 100 / yv_t->size < 10) == resize);
	struct YASL_Object g = yv_t->items[yv_g].key, gv = yv_t->items[yv_g].value;
	YASL_Table_rm(yv_t, yv_key);
	if (present) {
		yv_assert(DELETED(yv_S), "the slot of the key is marked as deleted");
		yv_assert(yv_bal == -CNT(yv_key) - CNT(yv_old), "the references of the table to the key and the value are given back");
	} else
		yv_assert(yv_bal == 0, "no reference changes where the key is not present");
	if (!yv_resized) yv_assert((present && yv_g == yv_S) || (SAME(yv_t->items[yv_g].key, g) && SAME(yv_t->items[yv_g].value, gv)), "every other slot stays");
	yv_reach();
}
void u_rm_present(void) { rm(true, false); }
void u_rm_absent(void) { rm(false, false); }
void u_rm_present_resize(void) { rm(true, true); }
void u_rm_absent_resize(void) { rm(false, true); }
static void insert(bool present, bool resize) {
	table(present);
	yv_assume((yv_t->count * 100 / yv_t->size > 70) == resize);
	struct YASL_Object g = yv_t->items[yv_g].key, gv = yv_t->items[yv_g].value;
	YASL_Table_insert_fast(yv_t, yv_key, yv_val);
	size_t at = present || yv_T >= yv_J ? yv_S : yv_TS;
	yv_assert(HOLDS(at) && SAME(yv_t->items[at].value, yv_val), "the key is bound to the value, in the slot where it is looked for");
	if (present) yv_assert(yv_bal == CNT(yv_val) - CNT(yv_old), "the reference to the value that is replaced is given back");
	else yv_assert(yv_bal == CNT(yv_val) + CNT(yv_key), "the table holds references to the key and the value");
	if (!yv_resized) yv_assert(yv_g == at || (SAME(yv_t->items[yv_g].key, g) && SAME(yv_t->items[yv_g].value, gv)), "every other slot stays");
	yv_reach();
}
void u_insert_present(void) { insert(true, false); }
void u_insert_absent(void) { insert(false, false); }
void u_insert_present_resize(void) { insert(true, true); }
void u_insert_absent_resize(void) { insert(false, true); }
void u_insert_bad(void) {
	table(false);
	yv_key.type = Y_LIST;
	size_t c = yv_t->count, s = yv_t->size;
	yv_assert(!YASL_Table_insert(yv_t, yv_key, yv_val), "a mutable key is refused");
	yv_assert(yv_t->count == c && yv_t->size == s && yv_bal == 0, "and nothing changes");
	yv_reach();
}
void u_tombstone(void) { yv_assert(TOMBSTONE.key.type == Y_END, "a deleted slot is marked with END"); yv_reach(); }
void u_new(void) {
	struct YASL_Table *t = YASL_Table_new();
	size_t k = yv_size(0, 30);
	yv_assume(k < t->size);
	yv_assert(t->count == 0, "an empty table");
	yv_assert(t->items[k].key.type == Y_UNDEF, "no slot was used");
	yv_reach();
}
