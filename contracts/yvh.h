/*
 * Common part of every contract harness.
 *
 * A harness is one C file that declares the contracts (requires / assigns / ensures), includes the real source file
 * from /repo *textually* (so the verified text is the code that runs), and defines `unit` functions: one call of the
 * function under contract each, from a state that satisfies its precondition and is otherwise arbitrary.
 *
 * It is read in two modes:
 *   - by goto-cc (CBMC): every input is nondeterministic, the contract is enforced by goto-instrument --dfcc;
 *   - by gcc with -DYV_NATIVE: the same inputs come from a replayed counterexample or from a generator, and the same
 *     postcondition is evaluated after the call.
 */
#ifndef YVH_H_
#define YVH_H_

#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <setjmp.h>

#define YV_NIN 64
extern int64_t yv_in[YV_NIN];
extern const char *yv_clause;      /* the clause that was found to be violated (native mode) */

#ifdef YV_NATIVE

#include <assert.h>
void yv_fail(const char *what);
void yv_skip(void) __attribute__((noreturn));
void yv_stop(void) __attribute__((noreturn));
int64_t yv_get(int k);
#define yv_assert(c, name) do { if (!(c)) yv_fail(name); } while (0)
#define yv_assume(c) do { if (!(c)) yv_skip(); } while (0)
#define yv_reach() ((void)0)
#define YV_REQUIRES(x)
#define YV_ENSURES(x)
#define YV_ASSIGNS(...)
#define YV_FREES(...)
#define YV_REACH_LABEL
#define YV_MODE_NATIVE 1
static inline int64_t yv_range(int k, int64_t lo, int64_t hi) {
	int64_t v = yv_get(k);
	if (v < lo || v > hi) v = lo + (int64_t)((uint64_t)v % ((uint64_t)hi - (uint64_t)lo + 1));
	return yv_in[k] = v;
}

#else

int64_t nondet_yv(void);
static inline int64_t yv_get(int k) { int64_t v = nondet_yv(); yv_in[k] = v; return v; }
#define yv_assert(c, name) __CPROVER_assert(c, name)
#define yv_assume(c) __CPROVER_assume(c)
#define yv_reach() __CPROVER_assert(0, "yv_reach")
#define YV_REQUIRES(x) __CPROVER_requires(x)
#define YV_ENSURES(x) __CPROVER_ensures(x)
#define YV_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define YV_FREES(...) __CPROVER_frees(__VA_ARGS__)
#define YV_MODE_NATIVE 0
static inline int64_t yv_range(int k, int64_t lo, int64_t hi) {
	int64_t v = nondet_yv(); yv_in[k] = v;
	__CPROVER_assume(v >= lo && v <= hi);
	return v;
}

#endif

static inline double yv_bits2d(int64_t b) { union { int64_t i; double d; } u; u.i = b; return u.d; }
static inline int64_t yv_d2bits(double d) { union { int64_t i; double d; } u; u.d = d; return u.i; }
/* same float: same value with the same sign of zero, or both NaN */
#define YV_NANBITS(b) (((uint64_t)(b) << 1) > 0xFFE0000000000000ULL)
#define YV_SAMEBITS(a, b) ((a) == (b) || (YV_NANBITS(a) && YV_NANBITS(b)))
static inline bool yv_samed(double a, double b) {
	int64_t x = yv_d2bits(a), y = yv_d2bits(b);
	return YV_SAMEBITS(x, y);
}
static inline double yv_getd(int k) { return yv_bits2d(yv_get(k)); }

/* a size: any up to 2^40 for the verifier; up to `nat` natively */
static inline size_t yv_size(int k, int64_t nat) { return (size_t)yv_range(k, 0, YV_MODE_NATIVE ? nat : (int64_t)1 << 40); }
/* a heap block of n bytes with arbitrary contents */
static inline void *yv_block(size_t n) {
	unsigned char *p = (unsigned char *)malloc(n);
#ifdef YV_NATIVE
	static uint64_t r = 1;
	for (size_t i = 0; i < n; i++) { r = r * 6364136223846793005ULL + 1442695040888963407ULL + (uint64_t)yv_in[0]; p[i] = (unsigned char)(r >> 59) & (r & (1ULL << 40) ? 3 : 255); }
#endif
	return p;
}

#ifndef YV_OWN_GLOBALS
#ifndef YV_NATIVE
int64_t yv_in[YV_NIN];
#endif
#endif

#endif
