/* C19: util/prime.c. x % i is an uninterpreted function; sqrt and floor are known only around the root of x (contracts below). */
#include "yvh.h"
#include "util/prime.h"

static const unsigned yv_primes[] = {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199};
static unsigned char yv_small[200];         /* which numbers are primes below 200 */
static int64_t yv_k;                       /* ghost: where yv_p is in the table of the code */
static uint64_t yv_x, yv_p, yv_d, yv_dd, yv_w;    /* ghosts: the number; a prime below 200; an odd number from 201; that square; the last divisor found */
#ifndef YV_NATIVE
static uint64_t yv_umod[__CPROVER_constant_infinity_uint];  /* an arbitrary function: x modulo a number */
#define UMOD(a, b) yv_umod[b]
uint64_t yv_urem(uint64_t a, uint64_t b)
	YV_REQUIRES(a == yv_x && b > 0)
	YV_ASSIGNS(yv_w)
	YV_ENSURES(__CPROVER_return_value == UMOD(a, b) && __CPROVER_return_value < b && (a >= b || __CPROVER_return_value == a))
	YV_ENSURES(yv_w == (__CPROVER_return_value == 0 ? b : __CPROVER_old(yv_w)));
/* the rounded root of x is at least d (d * d <= x, d below 2^32), and at most 2^32; it is less than x */
double yv_sqrt(double v)
	YV_REQUIRES(v == (double)yv_x)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value >= 0 && (yv_dd > yv_x || __CPROVER_return_value >= (double)yv_d) && __CPROVER_return_value <= 4294967296.0 && __CPROVER_return_value <= v / 2);
double yv_floor(double v)
	YV_REQUIRES(v >= 0 && v <= 4294967296.0)
	YV_ASSIGNS()
	YV_ENSURES(__CPROVER_return_value <= v && (!(v >= (double)yv_d) || __CPROVER_return_value >= (double)yv_d));
bool is_prime(const size_t x)
	YV_REQUIRES(x == yv_x)
	YV_ASSIGNS(yv_w)
	YV_ENSURES(!__CPROVER_return_value || (x >= 2 && ((x < 200 && yv_small[x] != 0) || (UMOD(x, yv_p) != 0 && UMOD(x, yv_d) != 0))))
	YV_ENSURES(__CPROVER_return_value || x < 2 || (UMOD(x, yv_w) == 0 && 1 < yv_w && yv_w < x));
#define sqrt yv_sqrt
#define floor yv_floor
#endif

#include "util/prime.c"

void u_isprime(void) {
#ifndef YV_NATIVE
	yv_x = (uint64_t)yv_get(0); yv_d = (uint64_t)yv_get(1); yv_p = yv_primes[yv_range(2, 0, 45)];
	yv_assume(yv_d < ((uint64_t)1 << 32) && (yv_d & 1) && yv_d >= 201);
	yv_dd = yv_d * yv_d; yv_w = 0; yv_k = 0;
	for (int i = 0; i < 200; i++) yv_small[i] = 0;
	for (int i = 0; i < 46; i++) yv_small[yv_primes[i]] = 1;
	for (int i = 0; i < (int)(sizeof PRIMES_UNDER_200 / sizeof *PRIMES_UNDER_200) && i < 60; i++) if (PRIMES_UNDER_200[i] == yv_p) yv_k = i;
	yv_assert(PRIMES_UNDER_200[yv_k] == yv_p, "the table holds every prime below 200");
	yv_assume(UMOD(yv_x, yv_d) != 0 || yv_x >= yv_dd);                            /* otherwise there is nothing to find */
	bool r = is_prime(yv_x);
	bool s = yv_x < 200 && yv_small[yv_x];
	yv_assert(!r || yv_x >= 2, "0 and 1 are no primes");
	yv_assert(!r || s || UMOD(yv_x, yv_p) != 0, "a prime that is not in the table has no prime divisor below 200");
	yv_assert(!r || s || UMOD(yv_x, yv_d) != 0, "nor an odd one from 201 up to its root");
	yv_assert(r || yv_x < 2 || (UMOD(yv_x, yv_w) == 0 && 1 < yv_w && yv_w < yv_x), "what is no prime has a divisor");
	yv_reach();
#else
	uint64_t x = yv_get(0);
	x = yv_range(1, 0, 3) ? x >> yv_range(2, 24, 62) : (uint64_t)yv_primes[yv_range(3, 0, 45)] * yv_primes[yv_range(4, 0, 45)];
	if (!yv_range(5, 0, 4)) { uint64_t d = 2 * (uint64_t)yv_range(6, 100, 3000) + 1; x = d * (d + 2 * (uint64_t)yv_range(7, 0, 3)); }
	bool p = x >= 2;
	for (uint64_t i = 2; i * i <= x; i++) if (x % i == 0) { p = false; break; }
	yv_assert(is_prime(x) == p, "prime if and only if no number between divides it");
	yv_assert(next_prime(x) >= x, "the next prime is not before the number");
#endif
}
