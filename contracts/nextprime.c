/* C19: next_prime of util/prime.c, over the contract of is_prime: a function of its argument. */
#include "yvh.h"
#include "util/prime.h"
static uint64_t yv_y, yv_b, yv_x;   /* ghosts: any number; a prime from x on; x */
#ifndef YV_NATIVE
static unsigned char yv_prime[__CPROVER_constant_infinity_uint];    /* an arbitrary function: which numbers are prime */
#define PRIME(a) (yv_prime[a] != 0)
bool is_prime(const size_t x) YV_REQUIRES(1) YV_ASSIGNS() YV_ENSURES(__CPROVER_return_value == PRIME(x));
size_t next_prime(size_t x)
	YV_REQUIRES(x <= yv_b && PRIME(yv_b))
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value >= x && PRIME(__CPROVER_return_value))
	YV_ENSURES(!(x <= yv_y && yv_y < __CPROVER_return_value) || !PRIME(yv_y));
#endif
#include "util/prime.c"
void u_next(void) {
#ifndef YV_NATIVE
	size_t x = (size_t)yv_get(0);
	yv_x = x; yv_y = (uint64_t)yv_get(1); yv_b = (uint64_t)yv_get(2);
	yv_assume(x <= yv_b && PRIME(yv_b));
	size_t r = next_prime(x);
	yv_assert(r >= x && PRIME(r), "a prime");
	yv_assert(!(x <= yv_y && yv_y < r) || !PRIME(yv_y), "and the first one");
	yv_reach();
#else
	uint64_t x = (uint64_t)yv_get(0) >> yv_range(2, 30, 62), y = x;
	for (;; y++) { bool p = y >= 2; for (uint64_t i = 2; i * i <= y; i++) if (y % i == 0) { p = false; break; } if (p) break; }
	yv_assert(next_prime(x) == y, "and the first one");
#endif
}
