/*
 * C05, C12: the operations on whole sets (data-structures/YASL_Set.c), of any size.
 *
 * An arbitrary value yv_w is followed: it is a member of the left (right) operand if and only if a slot holds it, yv_l (yv_r) being that slot.
 * YASL_Set_insert and YASL_Set_search are replaced by what they do to / say about the membership of yv_w. That no slot of an operand
 * holds yv_w where it is no member is given slot by slot, by the contract of obj_isundef.
 */
#include "yvh.h"
#include "data-structures/YASL_Set.h"
#include "data-structures/YASL_Table.h"
#include "interpreter/YASL_Object.h"
#include "util/hash_function.h"
#include "util/prime.h"

#define YV_MAX ((size_t)1 << 30)
#define SAME(a, b) ((a).type == (b).type && (a).value.ival == (b).value.ival)
static struct YASL_Set yv_left, yv_right, yv_new;
static struct YASL_Object *yv_litems, *yv_ritems, *yv_newitems;
static size_t yv_l, yv_r, yv_g, yv_n, yv_base;
static struct YASL_Object yv_w;
static bool yv_in_left, yv_in_right, yv_in_new, yv_live;
static int64_t yv_dels, yv_del_sets;

static inline bool obj_isundef(const struct YASL_Object *const v)
	YV_REQUIRES(1)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == (bool)(v->type == Y_UNDEF))
	YV_ENSURES(!__CPROVER_same_object(v, yv_litems) || yv_in_left || !SAME(*v, yv_w))
	YV_ENSURES(!__CPROVER_same_object(v, yv_ritems) || yv_in_right || !SAME(*v, yv_w));
bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value)
	YV_REQUIRES(set == &yv_new && value.type != Y_UNDEF && value.type != Y_END)
	YV_ASSIGNS(yv_in_new, yv_new.count)
	YV_ENSURES(yv_in_new == (SAME(value, yv_w) || __CPROVER_old(yv_in_new)));
bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key)
	YV_REQUIRES(set == &yv_left || set == &yv_right || set == &yv_new)
	YV_ASSIGNS()
	YV_ENSURES(!SAME(key, yv_w) || __CPROVER_return_value == (set == &yv_left ? yv_in_left : set == &yv_right ? yv_in_right : yv_in_new));
void dec_ref(struct YASL_Object *v)
	YV_REQUIRES(v->type != Y_UNDEF && v->type != Y_END)
	YV_ASSIGNS(yv_dels)
	YV_ENSURES(yv_dels == __CPROVER_old(yv_dels) + (v == &yv_litems[yv_g] ? 1 : 0));
size_t next_prime(size_t x)
	YV_REQUIRES(1)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value >= x && __CPROVER_return_value <= 2 * x);
static struct YASL_Set *set_new_sized(const size_t base_size)
	YV_REQUIRES(1)
	YV_ASSIGNS(yv_new, yv_in_new)
	YV_ENSURES(__CPROVER_return_value == &yv_new && yv_new.base_size == base_size && yv_new.items == yv_newitems && !yv_in_new && yv_new.count == 0);
struct YASL_Set *YASL_Set_new(void)
	YV_REQUIRES(1)
	YV_ASSIGNS(yv_new, yv_in_new)
	YV_ENSURES(__CPROVER_return_value == &yv_new && yv_new.items == yv_newitems && !yv_in_new && yv_new.count == 0);
#define OPERANDS (left == &yv_left && right == &yv_right)
#define ALGEBRA(fn, is) struct YASL_Set *fn(const struct YASL_Set *const left, const struct YASL_Set *const right) \
	YV_REQUIRES(OPERANDS) \
	YV_ASSIGNS(yv_new, yv_in_new) \
	YV_ENSURES(__CPROVER_return_value == &yv_new && !yv_in_new == !(is));
ALGEBRA(YASL_Set_union, yv_in_left || yv_in_right)
ALGEBRA(YASL_Set_intersection, yv_in_left && yv_in_right)
ALGEBRA(YASL_Set_difference, yv_in_left && !yv_in_right)
ALGEBRA(YASL_Set_symmetric_difference, yv_in_left != yv_in_right)
#ifdef YV_RESIZE
void YASL_Set_del(void *s)
	YV_REQUIRES(((struct YASL_Set *)s)->items == yv_litems && ((struct YASL_Set *)s)->size == yv_n)
	YV_ASSIGNS(yv_del_sets)
	YV_ENSURES(yv_del_sets == __CPROVER_old(yv_del_sets) + 1);
#else
void YASL_Set_del(void *s)
	YV_REQUIRES(1)
	YV_ASSIGNS(yv_dels)
	YV_FREES(s, yv_litems);
#endif
static void set_resize(struct YASL_Set *const set, const size_t base_size)
	YV_REQUIRES(set == &yv_left && base_size == yv_base)
	YV_ASSIGNS(yv_in_new, *set, yv_new, yv_del_sets);
void YASL_Set_clear(struct YASL_Set *const set)
	YV_REQUIRES(set == &yv_left)
	YV_ASSIGNS(yv_dels, *set)
	YV_FREES(yv_litems);

#include "data-structures/YASL_Set.c"

static void operand(struct YASL_Set *s, struct YASL_Object **items, size_t *at, bool *in, int k) {
	s->size = yv_size(k, 0);
	yv_assume(s->size > 0 && s->size <= YV_MAX);
	*items = (struct YASL_Object *)malloc(s->size * sizeof(struct YASL_Object));
	s->items = *items;
	s->base_size = yv_size(k + 1, 0);
	s->count = yv_size(k + 2, 0);
	*in = yv_range(k + 3, 0, 1);
	*at = yv_size(k + 4, 0);
	yv_assume(*at < s->size);
	if (*in) yv_assume(SAME((*items)[*at], yv_w));
}
static void operands(void) {
	yv_w.type = yv_range(0, 0, 1) ? Y_INT : Y_STR;
	yv_w.value.ival = yv_get(1);
	yv_new.count = 0;
	yv_newitems = (struct YASL_Object *)malloc(sizeof(struct YASL_Object));
	operand(&yv_left, &yv_litems, &yv_l, &yv_in_left, 10);
	operand(&yv_right, &yv_ritems, &yv_r, &yv_in_right, 20);
	yv_dels = yv_del_sets = 0;
	yv_n = yv_left.size;
	yv_g = yv_size(2, 0);
	yv_assume(yv_g < yv_n);
	yv_live = yv_litems[yv_g].type != Y_UNDEF && yv_litems[yv_g].type != Y_END;
	yv_base = yv_size(3, 0);
}
void u_union(void) { operands(); YASL_Set_union(&yv_left, &yv_right); yv_reach(); }
void u_intersection(void) { operands(); YASL_Set_intersection(&yv_left, &yv_right); yv_reach(); }
void u_difference(void) { operands(); YASL_Set_difference(&yv_left, &yv_right); yv_reach(); }
void u_symmetric_difference(void) { operands(); YASL_Set_symmetric_difference(&yv_left, &yv_right); yv_reach(); }
void u_resize(void) {
	operands();
	set_resize(&yv_left, yv_base);
	if (yv_left.items == yv_litems) yv_assert(yv_left.size == yv_n && !yv_del_sets, "nothing changes where the set keeps its slots");
	else {
		yv_assert(!yv_in_new == !yv_in_left, "the new slots hold the members, and no others");
		yv_assert(yv_left.items == yv_newitems, "the set takes the new slots");
		yv_assert(yv_del_sets == 1, "the old slots are given back");
	}
	yv_reach();
}
void u_del(void) {
	operands();
	struct YASL_Set *t = (struct YASL_Set *)malloc(sizeof *t);
	*t = yv_left;
	YASL_Set_del(t);
	yv_assert(yv_dels == yv_live, "the reference to every member is given back once");
	yv_reach();
}
void u_clear(void) {
	operands();
	YASL_Set_clear(&yv_left);
	size_t k = yv_size(4, 0);
	yv_assume(k < yv_left.size);
	yv_assert(yv_dels == yv_live, "the reference to every member is given back once");
	yv_assert(yv_left.count == 0 && yv_left.items[k].type == Y_UNDEF, "the set is empty");
	yv_reach();
}
