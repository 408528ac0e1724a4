/* C19: the functions of std/yasl-std-math.c, called as the machine calls them: the arguments are on top of the stack. */
#define YV_STATE
#include "yvh.h"
#define YV_FNS(f) f(exp) f(log) f(sqrt) f(sin) f(cos) f(tan) f(asin) f(acos) f(atan) f(ceil) f(floor)
#ifdef YV_NATIVE
#define DECL(name) static double yv_##name(double v) { return name(v); }
#else
/* the functions of libm are uninterpreted functions: the result is theirs of the argument, not what they compute */
#define DECL(name) double __CPROVER_uninterpreted_##name(double); static double yv_##name(double v) { return __CPROVER_uninterpreted_##name(v); }
#endif
YV_FNS(DECL)
#include "yasl.h"
struct YASL_State;
static int yv_ret;
#define FN(name) static int YASL_math_##name(struct YASL_State *S) \
	YV_REQUIRES(S == &yv_S) \
	YV_ASSIGNS(__CPROVER_object_whole(S), __CPROVER_object_whole(S->vm.stack), __CPROVER_object_whole(yv_s), __CPROVER_object_whole(&yv_ud)) \
	YV_ENSURES(__CPROVER_return_value == 1) YV_ENSURES(yv_post_noerr()) YV_ENSURES(yv_post_result()) YV_ENSURES(yv_post_below());
#define CONTRACTS(f) f(abs) f(max) f(min) f(deg) f(rad) f(isprime) f(gcd) f(lcm) f(rand) YV_FNS(f)
static bool yv_post_below(void), yv_post_result(void);
#define YV_MORE_CONTRACTS CONTRACTS(FN)
static struct YASL_State yv_S_;
#include "vmh.h"
static bool yv_post_result(void) { return yv_sameobj(yv_stack[yv_vm.sp], yv_x.top[0]); }
/* the result is above the frame of the call, whose function and everything below are unchanged */
static bool yv_post_below(void) { return yv_vm.sp > yv_vm.fp && yv_vm.fp == yv_x.fp && yv_vm.frame_num == yv_x.frame_num && yv_vm.stack == yv_stack && yv_post_rest(); }

#ifndef YV_NATIVE
void vvm_print_err(struct VM *vm, const char *const fmt, va_list args) YV_REQUIRES(1) YV_ASSIGNS() YV_ENSURES(1);
bool __CPROVER_uninterpreted_isprime(uint64_t);
int64_t __CPROVER_uninterpreted_gcd(int64_t, int64_t);
bool is_prime(const size_t x) YV_REQUIRES(1) YV_ASSIGNS() YV_ENSURES(__CPROVER_return_value == __CPROVER_uninterpreted_isprime(x));
/* a function of its arguments: what it computes is proved in gcd.c */
yasl_int gcd_helper(yasl_int a, yasl_int b) YV_REQUIRES(a > 0 && b > 0) YV_ASSIGNS() YV_ENSURES(__CPROVER_return_value > 0 && __CPROVER_return_value == __CPROVER_uninterpreted_gcd(a, b));
#define PRIME(x) __CPROVER_uninterpreted_isprime(x)
#define GCD(a, b) __CPROVER_uninterpreted_gcd(a, b)
#else
#define PRIME(x) isprime_(x)
#define GCD(a, b) gcd_(a, b)
static bool isprime_(int64_t x) { for (int64_t i = 2; i <= x / i; i++) if (x % i == 0) return false; return x >= 2; }
static int64_t gcd_(int64_t a, int64_t b) { while (b) { int64_t r = a % b; a = b; b = r; } return a; }
#endif
#define exp yv_exp
#define log yv_log
#define sqrt yv_sqrt
#define sin yv_sin
#define cos yv_cos
#define tan yv_tan
#define asin yv_asin
#define acos yv_acos
#define atan yv_atan
#define ceil yv_ceil
#define floor yv_floor
#include "std/yasl-std-math.c"
#undef YASL_INF
#undef YASL_NAN

static struct CFunction yv_cf;
static struct YASL_Object yv_arg[3];
static double num(struct YASL_Object v) { return v.type == Y_INT ? (double)v.value.ival : v.value.dval; }
/* 0: the function; the arguments follow; kinds: i int, f float, b bool, s str, u undef */
static void setup(const char *kinds, bool variadic) {
	int n = (int)strlen(kinds);
	yv_vm_setup(0, n + (variadic ? 1 : 0));
	yv_cf.rc = NEW_RC(); yv_cf.rc.refs = 5; yv_cf.num_args = variadic ? ~0 : n;
	yv_stack[0] = YASL_UNDEF(); yv_stack[0].type = Y_CFN; yv_stack[0].value.cval = &yv_cf;
	yv_s[0].str = (char *)"abc"; yv_s[0].start = 0; yv_s[0].end = 3; yv_s[0].on_heap = false; yv_s[0].rc = NEW_RC(); yv_s[0].rc.refs = 9;
	for (int i = 0; i < n; i++) {
		int64_t v = yv_get(i);
		double d = yv_bits2d(v);
		if (YV_MODE_NATIVE) { v >>= yv_range(10 + i, 0, 60); if (yv_range(13 + i, 0, 2)) d = (double)(v >> yv_range(16 + i, 0, 10)) / 4; }
		switch (kinds[i]) {
		case 'i': yv_arg[i] = YASL_INT(v); break;
		case 'f': yv_arg[i] = YASL_FLOAT(d); break;
		case 'b': yv_arg[i] = YASL_BOOL(v & 1); break;
		case 's': yv_arg[i] = YASL_STR(&yv_s[0]); break;
		default: yv_arg[i] = YASL_UNDEF();
		}
		yv_stack[1 + (variadic ? 1 : 0) + i] = yv_arg[i];
	}
	if (variadic) yv_stack[1] = YASL_INT(n);
	yv_vm_snap();
	yv_x.keep = 1; yv_x.ntop = 1;
	yv_x.sp = 0;
}
/* calls the function and compares the top of the stack, wherever it is */
#define CALL(f) do { \
	yv_ret = f(&yv_S); \
	yv_assert(yv_ret == 1, "one result"); \
	yv_assert(yv_post_noerr(), "an error is thrown when the specification says so"); \
	yv_assert(yv_post_result(), "the result"); \
	yv_assert(yv_post_below(), "what is below is unchanged"); \
	yv_reach(); } while (0)
#define BAD(f, kinds, variadic) do { setup(kinds, variadic); yv_x.err = YASL_TYPE_ERROR; yv_ret = f(&yv_S); yv_assert(false, "no error for arguments of other types"); } while (0)

#define FLOATFN(name) \
	void u_##name##_i(void) { setup("i", false); yv_x.top[0] = YASL_FLOAT(yv_##name(num(yv_arg[0]))); CALL(YASL_math_##name); } \
	void u_##name##_f(void) { setup("f", false); yv_x.top[0] = YASL_FLOAT(yv_##name(num(yv_arg[0]))); CALL(YASL_math_##name); } \
	void u_##name##_b(void) { BAD(YASL_math_##name, "b", false); } \
	void u_##name##_s(void) { BAD(YASL_math_##name, "s", false); }
YV_FNS(FLOATFN)
void u_abs_i(void) { setup("i", false); int64_t v = yv_arg[0].value.ival; yv_assume(v != INT64_MIN); yv_x.top[0] = YASL_INT(v < 0 ? -v : v); CALL(YASL_math_abs); }
void u_abs_f(void) { setup("f", false); double v = yv_arg[0].value.dval; yv_assume(v != 0); /* the sign of a zero is not specified */ yv_x.top[0] = YASL_FLOAT(v < 0 ? -v : v); CALL(YASL_math_abs); }
void u_abs_b(void) { BAD(YASL_math_abs, "b", false); }
void u_abs_u(void) { BAD(YASL_math_abs, "u", false); }
#define PI 3.14159265358979323846
void u_deg_i(void) { setup("i", false); yv_x.top[0] = YASL_FLOAT(num(yv_arg[0]) * (180.0 / PI)); CALL(YASL_math_deg); }
void u_deg_f(void) { setup("f", false); yv_x.top[0] = YASL_FLOAT(num(yv_arg[0]) * (180.0 / PI)); CALL(YASL_math_deg); }
void u_deg_u(void) { BAD(YASL_math_deg, "u", false); }
void u_rad_i(void) { setup("i", false); yv_x.top[0] = YASL_FLOAT(num(yv_arg[0]) * (PI / 180.0)); CALL(YASL_math_rad); }
void u_rad_f(void) { setup("f", false); yv_x.top[0] = YASL_FLOAT(num(yv_arg[0]) * (PI / 180.0)); CALL(YASL_math_rad); }
void u_rad_u(void) { BAD(YASL_math_rad, "u", false); }

static void isprime(const char *k) {
	setup(k, false);
	if (*k == 'f') yv_assume(yv_arg[0].value.dval > -9e18 && yv_arg[0].value.dval < 9e18);
	int64_t n = *k == 'i' ? yv_arg[0].value.ival : (int64_t)yv_arg[0].value.dval;
	if (YV_MODE_NATIVE) yv_assume(n < 1000000000000);
	yv_x.top[0] = YASL_BOOL(n > 0 && PRIME(n));
	CALL(YASL_math_isprime);
}
void u_isprime_i(void) { isprime("i"); }
void u_isprime_f(void) { isprime("f"); }
void u_isprime_s(void) { BAD(YASL_math_isprime, "s", false); }

static int64_t whole(int i) { return yv_arg[i].type == Y_INT ? yv_arg[i].value.ival : (int64_t)yv_arg[i].value.dval; }
static void gcdlcm(const char *k, bool lcm) {
	setup(k, false);
	for (int i = 0; i < 2; i++) if (k[i] == 'f') yv_assume(yv_arg[i].value.dval > -9e18 && yv_arg[i].value.dval < 9e18);
	int64_t a = whole(0), b = whole(1);
	if (!(a > 0 && b > 0)) yv_x.top[0] = YASL_UNDEF();
	else {
		int64_t g = GCD(b, a);
		yv_assume(g > 0);
		yv_x.top[0] = YASL_INT(lcm ? (int64_t)((uint64_t)(a / g) * (uint64_t)b) : g);
	}
	if (lcm) CALL(YASL_math_lcm); else CALL(YASL_math_gcd);
}
#define GL(k) void u_gcd_##k(void) { gcdlcm(#k, false); } void u_lcm_##k(void) { gcdlcm(#k, true); }
GL(ii) GL(if) GL(fi) GL(ff)
#define GLBAD(k) void u_gcd_##k(void) { BAD(YASL_math_gcd, #k, false); } void u_lcm_##k(void) { BAD(YASL_math_lcm, #k, false); }
GLBAD(is) GLBAD(ub) GLBAD(bi)

/* the arguments are compared from the last to the first; one that is as great as (as small as) the greatest so far takes its place */
static bool notless(struct YASL_Object a, struct YASL_Object b) { return a.type == Y_INT && b.type == Y_INT ? a.value.ival >= b.value.ival : num(a) >= num(b); }
static void minmax(const char *k, bool max) {
	setup(k, true);
	int n = (int)strlen(k);
	struct YASL_Object m = YASL_FLOAT(max ? -INFINITY : INFINITY);
	for (int i = n - 1; i >= 0; i--) {
		if (k[i] != 'i' && k[i] != 'f') { yv_x.err = YASL_TYPE_ERROR; break; }
		if (k[i] == 'f' && yv_arg[i].value.dval != yv_arg[i].value.dval) { m = yv_arg[i]; break; }
		if (max ? notless(yv_arg[i], m) : notless(m, yv_arg[i])) m = yv_arg[i];
	}
	yv_x.top[0] = m;
	if (max) CALL(YASL_math_max); else CALL(YASL_math_min);
}
#define MM(n, k) void u_max_##n(void) { minmax(k, true); } void u_min_##n(void) { minmax(k, false); }
MM(none, "") MM(i, "i") MM(f, "f") MM(ii, "ii") MM(if, "if") MM(fi, "fi") MM(ff, "ff") MM(iif, "iif") MM(fii, "fii") MM(fif, "fif") MM(iii, "iii") MM(is, "is") MM(bi, "bi") MM(ibf, "ibf")
