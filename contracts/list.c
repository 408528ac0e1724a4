/* C06: data-structures/YASL_List.c. Lists of any length; the postconditions speak of an arbitrary position yv_k. */
#include "yvh.h"
#include "data-structures/YASL_List.h"
#include "interpreter/YASL_Object.h"
#include "interpreter/userdata.h"

#define YV_MAX ((size_t)1 << 36)
static size_t yv_k, yv_count;               /* ghost: a position, and the length before */
static struct YASL_Object yv_at_k, yv_at_m; /* ghost: what was at position yv_k, and at its mirror image */
static struct YASL_String yv_s;
static struct YASL_List *yv_ls;

#define SAME(a, b) ((a).type == (b).type && (a).value.ival == (b).value.ival)
static inline bool same(struct YASL_Object a, struct YASL_Object b) { return a.type == b.type && a.value.ival == b.value.ival; }
static inline bool valid(const struct YASL_List *ls) { return ls->count <= ls->size && ls->items != NULL; }

#ifndef YV_NATIVE
/*
 * memmove of libc, assumed: the instance of its specification for the element at the ghost position, where the move is by
 * whole elements of one array. (The verifier's own memmove works byte by byte, which it cannot do for an array of any length.)
 */
#define YV_E sizeof(struct YASL_Object)
#define YV_OFF(p) __CPROVER_POINTER_OFFSET(p)
void *memmove(void *dst, const void *src, size_t n)
	__CPROVER_requires(__CPROVER_same_object(dst, yv_ls->items) && __CPROVER_same_object(src, yv_ls->items))
	__CPROVER_requires((YV_OFF(dst) & (YV_E - 1)) == 0 && (YV_OFF(src) & (YV_E - 1)) == 0 && (n & (YV_E - 1)) == 0)
	__CPROVER_requires(n <= yv_ls->size * YV_E && YV_OFF(dst) <= yv_ls->size * YV_E - n && YV_OFF(src) <= yv_ls->size * YV_E - n)
	__CPROVER_requires(n == 0 || YV_OFF(dst) == YV_OFF(src) + YV_E)
	__CPROVER_requires(yv_k >= yv_count || SAME(yv_ls->items[yv_k], yv_at_k))
	__CPROVER_requires(yv_k == 0 || SAME(yv_ls->items[yv_k - 1], yv_at_m))
	__CPROVER_assigns(__CPROVER_object_whole(yv_ls->items))
	__CPROVER_ensures(!(yv_k * YV_E >= YV_OFF(dst) && yv_k * YV_E < YV_OFF(dst) + n) || SAME(yv_ls->items[yv_k], yv_at_m))
	__CPROVER_ensures((yv_k * YV_E >= YV_OFF(dst) && yv_k * YV_E < YV_OFF(dst) + n) || yv_k >= yv_count || SAME(yv_ls->items[yv_k], yv_at_k));
#endif
void YASL_List_append(struct YASL_List *const ls, struct YASL_Object value)
	YV_REQUIRES(valid(ls))
	YV_ASSIGNS(*ls, __CPROVER_object_whole(ls->items), yv_s.rc)
	YV_FREES(ls->items)
	YV_ENSURES(valid(ls));
void YASL_List_insert(struct YASL_List *const ls, size_t index, struct YASL_Object value)
	YV_REQUIRES(valid(ls) && index <= ls->count)
	YV_ASSIGNS(*ls, __CPROVER_object_whole(ls->items), yv_s.rc)
	YV_FREES(ls->items)
	YV_ENSURES(valid(ls));
void YASL_reverse(struct YASL_List *const ls)
	YV_REQUIRES(valid(ls))
	YV_ASSIGNS(__CPROVER_object_whole(ls->items))
	YV_ENSURES(valid(ls));
yasl_int YASL_List_length(const struct YASL_List *const ls)
	YV_REQUIRES(valid(ls))
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value == (yasl_int)ls->count);
struct YASL_List *YASL_List_new_sized(const size_t base_size)
	YV_REQUIRES(base_size <= YV_MAX)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value->count == 0 && __CPROVER_return_value->size == base_size);

#include "data-structures/YASL_List.c"

static struct YASL_List *list(size_t size, size_t count) {
	struct YASL_List *ls = malloc(sizeof *ls);
	ls->size = size; ls->count = count;
	ls->items = yv_block(size * sizeof(struct YASL_Object));
#ifdef YV_NATIVE
	for (size_t i = 0; i < size; i++) ls->items[i] = YASL_INT(ls->items[i].value.ival);
#endif
	yv_count = count;
	yv_ls = ls;
	return ls;
}
static struct YASL_Object value(bool str) {
	yv_s.rc.refs = 7;
	if (str) return YASL_STR(&yv_s);
	switch (yv_range(20, 0, 3)) { case 0: return YASL_INT(yv_get(21)); case 1: return YASL_FLOAT(yv_getd(21)); case 2: return YASL_BOOL(yv_range(21, 0, 1)); default: return YASL_UNDEF(); }
}
static void append(size_t size, size_t count, bool str) {
	struct YASL_List *ls = list(size, count);
	yv_k = yv_size(2, 40);
	yv_assume(yv_k < size || yv_k == 0);
	if (yv_k < count) yv_at_k = ls->items[yv_k];
	struct YASL_Object v = value(str);
	YASL_List_append(ls, v);
	yv_assert(ls->count == count + 1, "the list is one longer");
	yv_assert(same(ls->items[count], v), "the value is last");
	yv_assert(yv_k >= count || same(ls->items[yv_k], yv_at_k), "the other elements stay");
	yv_assert(yv_s.rc.refs == (str ? 8 : 7), "the list holds one reference to the value");
	yv_assert(ls->count <= ls->size, "the capacity covers the elements");
	yv_reach();
#ifdef YV_NATIVE
	free(ls->items); free(ls);
#endif
}
void u_append_room(void) { size_t size = yv_size(0, 40), count = yv_size(1, 40); yv_assume(count < size && size <= YV_MAX); append(size, count, false); }
void u_append_room_str(void) { size_t size = yv_size(0, 40), count = yv_size(1, 40); yv_assume(count < size && size <= YV_MAX); append(size, count, true); }
void u_append_full(void) { size_t size = yv_size(0, 40); yv_assume(size <= YV_MAX); append(size, size, false); }
void u_append_full_str(void) { size_t size = yv_size(0, 40); yv_assume(size <= YV_MAX); append(size, size, true); }

static void insert(size_t size, size_t count, bool str) {
	struct YASL_List *ls = list(size, count);
	size_t index = yv_size(4, 40);
	yv_assume(index <= count);
	yv_k = yv_size(2, 40);
	yv_assume(yv_k <= count);
	yv_at_k = yv_at_m = YASL_UNDEF();
	if (yv_k < count) yv_at_k = ls->items[yv_k];
	if (yv_k > 0) yv_at_m = ls->items[yv_k - 1];
	struct YASL_Object v = value(str);
	YASL_List_insert(ls, index, v);
	yv_assert(ls->count == count + 1, "the list is one longer");
	yv_assert(same(ls->items[index], v), "the value is at the index");
	yv_assert(yv_k >= index || same(ls->items[yv_k], yv_at_k), "elements before the index stay");
	yv_assert(yv_k <= index || same(ls->items[yv_k], yv_at_m), "elements from the index on move up by one");
	yv_assert(yv_s.rc.refs == (str ? 8 : 7), "the list holds one reference to the value");
	yv_reach();
#ifdef YV_NATIVE
	free(ls->items); free(ls);
#endif
}
void u_insert_room(void) { size_t size = yv_size(0, 40), count = yv_size(1, 40); yv_assume(count < size && size <= YV_MAX); insert(size, count, false); }
void u_insert_room_str(void) { size_t size = yv_size(0, 40), count = yv_size(1, 40); yv_assume(count < size && size <= YV_MAX); insert(size, count, true); }
void u_insert_full(void) { size_t size = yv_size(0, 40); yv_assume(size <= YV_MAX); insert(size, size, false); }

void u_reverse(void) {
	size_t size = yv_size(0, 40), count = yv_size(1, 40);
	yv_assume(count <= size && size <= YV_MAX && size > 0);
	struct YASL_List *ls = list(size, count);
	yv_k = yv_size(2, 40);
	yv_assume(yv_k < count);
	yv_at_k = ls->items[yv_k];
	yv_at_m = ls->items[count - 1 - yv_k];
	YASL_reverse(ls);
	yv_assert(ls->count == count, "same length");
	yv_assert(same(ls->items[yv_k], yv_at_m), "each element is at its mirror position");
	yv_reach();
#ifdef YV_NATIVE
	free(ls->items); free(ls);
#endif
}
void u_length(void) {
	size_t size = yv_size(0, 40), count = yv_size(1, 40);
	yv_assume(count <= size && size <= YV_MAX);
	struct YASL_List *ls = list(size, count);
	yv_assert(YASL_List_length(ls) == (yasl_int)count, "length");
	yv_reach();
#ifdef YV_NATIVE
	free(ls->items); free(ls);
#endif
}
void u_new(void) {
	size_t size = yv_size(0, 40);
	yv_assume(size <= YV_MAX);
	struct YASL_List *ls = YASL_List_new_sized(size);
	yv_assert(ls->count == 0 && ls->size == size, "an empty list");
	yv_reach();
#ifdef YV_NATIVE
	free(ls->items); free(ls);
#endif
}
