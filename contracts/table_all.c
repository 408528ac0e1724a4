/*
 * C04, C12: the operations on whole tables (data-structures/YASL_Table.c), of any size. What is done with the items is recorded
 * by the contracts of the functions that do it, for the item in an arbitrary slot yv_g.
 */
#include "yvh.h"
#include "data-structures/YASL_Table.h"
#include "interpreter/userdata.h"
#include "interpreter/YASL_Object.h"
#include "util/hash_function.h"

#define YV_MAX ((size_t)1 << 30)
static struct YASL_Table yv_table, yv_new;
static struct YASL_Table_Item *yv_items, *yv_newitems;
static size_t yv_g, yv_n, yv_base;
static struct YASL_Object yv_gk, yv_gv;
static int64_t yv_hits, yv_dels, yv_del_tables;
static bool yv_live;

#define SAME(a, b) ((a).type == (b).type && (a).value.ival == (b).value.ival)

void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value)
	YV_REQUIRES(table == &yv_new && key.type != Y_UNDEF && key.type != Y_END)
	YV_ASSIGNS(yv_hits, yv_new.count)
	YV_ENSURES(yv_hits == (SAME(key, yv_gk) && SAME(value, yv_gv) ? 1 : __CPROVER_old(yv_hits)));
void del_item(struct YASL_Table_Item *const item)
	YV_REQUIRES(item->key.type != Y_UNDEF && item->key.type != Y_END)
	YV_ASSIGNS(yv_dels)
	YV_ENSURES(yv_dels == __CPROVER_old(yv_dels) + (item == &yv_items[yv_g] ? 1 : 0));
struct YASL_Table *table_new_sized(const size_t base_size)
	YV_REQUIRES(base_size == yv_base)
	YV_ASSIGNS(yv_new)
	YV_ENSURES(__CPROVER_return_value == &yv_new && yv_new.base_size == yv_base && yv_new.items == yv_newitems);
#ifdef YV_RESIZE
void YASL_Table_del(struct YASL_Table *const table)
	YV_REQUIRES(table->items == yv_items && table->size == yv_n)
	YV_ASSIGNS(yv_del_tables)
	YV_ENSURES(yv_del_tables == __CPROVER_old(yv_del_tables) + 1);
#else
void YASL_Table_del(struct YASL_Table *const table)
	YV_REQUIRES(table->items == yv_items && table->size == yv_n)
	YV_ASSIGNS(yv_dels)
	YV_FREES(table, table->items);
#endif
static void table_resize(struct YASL_Table *const table, const size_t base_size)
	YV_REQUIRES(table == &yv_table && base_size == yv_base)
	YV_ASSIGNS(yv_hits, *table, yv_new, yv_del_tables);

#include "data-structures/YASL_Table.c"

static void table(struct YASL_Table *t) {
	yv_n = yv_size(0, 0);
	yv_assume(yv_n > 0 && yv_n <= YV_MAX);
	yv_items = (struct YASL_Table_Item *)malloc(yv_n * sizeof(struct YASL_Table_Item));
	yv_newitems = (struct YASL_Table_Item *)malloc(sizeof(struct YASL_Table_Item));
	t->size = yv_n; t->items = yv_items; t->base_size = yv_size(1, 0); t->count = yv_size(2, 0);
	yv_g = yv_size(3, 0);
	yv_assume(yv_g < yv_n);
	yv_gk = yv_items[yv_g].key; yv_gv = yv_items[yv_g].value;
	yv_live = yv_gk.type != Y_UNDEF && yv_gk.type != Y_END;
	yv_hits = yv_dels = yv_del_tables = 0;
	yv_new.count = 0;
	yv_new.size = yv_size(5, 0);
	yv_base = yv_size(4, 0);
}
void u_resize(void) {
	table(&yv_table);
	table_resize(&yv_table, yv_base);
	if (yv_base < TABLE_BASESIZE) yv_assert(yv_table.items == yv_items && yv_table.size == yv_n && !yv_hits && !yv_del_tables, "a table does not get smaller than a new one");
	else {
		yv_assert(!yv_live || yv_hits == 1, "every binding is put into the new table");
		yv_assert(yv_table.items == yv_newitems && yv_table.base_size == yv_base, "the table takes the new slots");
		yv_assert(yv_del_tables == 1, "the old slots are given back");
	}
	yv_reach();
}
void u_del(void) {
	struct YASL_Table *t = malloc(sizeof *t);
	table(t);
	YASL_Table_del(t);
	yv_assert(yv_dels == yv_live, "the references of every binding are given back once");
	yv_reach();
}
