/*
 * C07: sort (interpreter/list_methods.c) and the order it goes by (yasl_object_cmp).
 *
 * The elements end in ascending order and every value occurs as often as before. rand() returns any number; the recursive calls are
 * followed down to a depth (a pivot that is the smallest element splits nothing off).
 */
#include "yvh.h"
#include "interpreter/list_methods.h"
#include "data-structures/YASL_List.h"
#include "interpreter/YASL_Object.h"

#define SAME(a, b) ((a).type == (b).type && (a).value.ival == (b).value.ival)
#ifndef YV_NATIVE
int nondet_int(void);
int rand(void) { int r = nondet_int(); __CPROVER_assume(r >= 0); return r; }
#endif

#include "interpreter/list_methods.c"

static int64_t cnt(struct YASL_Object *l, size_t n, struct YASL_Object w) { int64_t c = 0; for (size_t i = 0; i < n; i++) c += SAME(l[i], w); return c; }
static void sorts(size_t n) {
	struct YASL_Object was[64], a[64];
	int64_t r = YV_MODE_NATIVE ? yv_range(63, 1, 40) : 40;
	for (size_t i = 0; i < n; i++) a[i] = was[i] = YASL_INT(r < 5 ? yv_range(i, 0, r) : yv_get(i));
	sort(a, n);
	for (size_t i = 0; i < n; i++) {
		yv_assert(i == 0 || a[i - 1].value.ival <= a[i].value.ival, "ascending");
		yv_assert(cnt(a, n, was[i]) == cnt(was, n, was[i]), "every value occurs as often as before");
	}
	yv_reach();
}
#define SN(n) void u_sort_##n(void) { sorts(n); }
SN(0) SN(1) SN(2) SN(3) SN(4) SN(5)
void u_sort_any(void) { sorts((size_t)yv_range(62, 0, 60)); }

/* the order: that of the numbers, and of the bytes of strings */
static int sgn(int64_t x) { return x < 0 ? -1 : x > 0; }
void u_cmp_ii(void) {
	int64_t a = yv_get(0), b = yv_get(1);
	yv_assert(sgn(yasl_object_cmp(YASL_INT(a), YASL_INT(b))) == (a < b ? -1 : a > b), "ints by value");
	yv_reach();
}
void u_cmp_ff(void) {
	double a = yv_getd(0), b = yv_getd(1);
	yv_assert(sgn(yasl_object_cmp(YASL_FLOAT(a), YASL_FLOAT(b))) == (a < b ? -1 : a > b), "floats by value");
	yv_reach();
}
void u_cmp_if(void) {
	int64_t a = yv_get(0); double b = yv_getd(1);
	yv_assert(sgn(yasl_object_cmp(YASL_INT(a), YASL_FLOAT(b))) == ((double)a < b ? -1 : (double)a > b), "an int as a float");
	yv_assert(sgn(yasl_object_cmp(YASL_FLOAT(b), YASL_INT(a))) == (b < (double)a ? -1 : b > (double)a), "an int as a float");
	yv_reach();
}
