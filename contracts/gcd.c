/* C19: gcd_helper of std/yasl-std-math.c and util/prime.c. The remainder is an uninterpreted function, of which the lemmas proved in
   lemmas/Arith.lean are assumed; every use of % in the code becomes a call of it. */
#include "yvh.h"
#include "interpreter/VM.h"

/* ghost: any number greater than 0, and whether it divides */
static int64_t yv_d;
static bool yv_da, yv_db;   /* whether it divides the two numbers */
#ifndef YV_NATIVE
static unsigned char yv_div[__CPROVER_constant_infinity_uint];      /* an arbitrary function: which numbers yv_d divides */
#define DIV(a) (yv_div[a] != 0)
/* a % b, for a >= 0 and b > 0 */
int64_t yv_rem(int64_t a, int64_t b)
	YV_REQUIRES(a >= 0 && b > 0)
	YV_ASSIGNS()
	YV_ENSURES(0 <= __CPROVER_return_value && __CPROVER_return_value < b)
	YV_ENSURES((DIV(a) && DIV(b)) == (DIV(b) && DIV(__CPROVER_return_value)));
#endif

yasl_int gcd_helper(yasl_int a, yasl_int b)
	YV_REQUIRES(a > 0 && b > 0 && DIV(0) && yv_da == DIV(a) && yv_db == DIV(b))
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value > 0)
	YV_ENSURES(DIV(__CPROVER_return_value) == (yv_da && yv_db));

#include "std/yasl-std-math.c"

void u_gcd(void) {
	int64_t a = yv_get(0), b = yv_get(1);
	if (YV_MODE_NATIVE) { a = yv_get(0) >> yv_range(2, 0, 62); b = yv_get(1) >> yv_range(3, 0, 62); }
	yv_assume(a > 0 && b > 0);
#ifndef YV_NATIVE
	yv_assume(DIV(0));
	yv_da = DIV(a); yv_db = DIV(b);
	int64_t g = gcd_helper(a, b);
	yv_assert(g > 0, "positive");
	yv_assert(DIV(g) == (yv_da && yv_db), "a number divides the result if and only if it divides both");
	yv_reach();
#else
	int64_t g = gcd_helper(a, b), x = a, y = b;
	while (x && y) if (x > y) x %= y; else y %= x;
	yv_assert(g == x + y, "a number divides the result if and only if it divides both");
#endif
}
