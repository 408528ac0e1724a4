from common import *
import maths


def check(run):
    GCD = ("gcd_helper", 0, "__CPROVER_assigns(a, b, r) __CPROVER_loop_invariant(a > 0 && b >= 0 && (r != 0 ? b > 0 : b == 0) && "
           "(yv_div[a] != 0 && yv_div[b] != 0) == (yv_da && yv_db)) __CPROVER_decreases(b)")
    REM = (r"\b(\w+) % (\w+)\b", r"yv_rem(\1, \2)")
    g = TU("gcd.c", native_links=native_sources(exclude=["std/yasl-std-math.c"]), annot=[GCD], sub=[REM])
    g.unit("gcd", contract="gcd_helper", replace=["yv_rem"], about="std/yasl-std-math.c: gcd_helper (all positive numbers)")
    IS = ("is_prime", 1, "__CPROVER_assigns(i, yv_w) __CPROVER_loop_invariant(i >= 201 && (i & 1) && i <= 4294967299 && (yv_d >= (uint64_t)i || yv_umod[yv_d] != 0))")
    TAB = ("is_prime", 0, "__CPROVER_assigns(i, yv_w) __CPROVER_loop_invariant(i >= 0 && i <= (int64_t)(sizeof(PRIMES_UNDER_200) / sizeof(unsigned)) && "
           "(yv_k >= i || yv_umod[PRIMES_UNDER_200[yv_k]] != 0))")
    p = TU("prime.c", annot=[TAB, IS], native_links=native_sources(exclude=["util/prime.c"]), sub=[(r"\bx % (PRIMES_UNDER_200\[i\]|i)", r"yv_urem(x, \1)")])
    p.unit("isprime", contract="is_prime", replace=["yv_urem", "yv_sqrt", "yv_floor"], unwind=201, solvers=("minisat", "cadical"), about="util/prime.c: is_prime (all 64-bit numbers)", timeout=120)
    NX = ("next_prime", 0, "__CPROVER_assigns(x) __CPROVER_loop_invariant(yv_x <= x && x <= yv_b && (!(yv_x <= yv_y && yv_y < x) || !yv_prime[yv_y]))")
    n = TU("nextprime.c", annot=[NX], native_links=native_sources(exclude=["util/prime.c"]))
    n.unit("next", contract="next_prime", replace=["is_prime"], about="util/prime.c: next_prime (all numbers)")
    # a macro applied to a copy of the value: CBMC does not follow a pointer out of a union within one expression
    CV = [(r"(int64_t YASL_peekvargscount\(struct YASL_State \*\w+\) *\{)", r"static struct CFunction *yv_cv(struct YASL_Object v) { return v.value.cval; }\n\1"),
          (r"(\(\(?vm\)?->stack\[vm->fp\]\))\.value\.cval->", r"yv_cv\1->")]
    m = TU("mathlib.c", sub=CV, links=VM_LINKS + ["yasl.c", "yasl_aux.c"], native_links=native_sources(exclude=["interpreter/VM.c", "std/yasl-std-math.c"]))
    M = "std/yasl-std-math.c: YASL_math_"
    un = "exp log sqrt sin cos tan asin acos atan ceil floor".split()
    for f, ks in [(f, "ifbs") for f in un] + [("abs", "ifbu"), ("deg", "ifu"), ("rad", "ifu"), ("isprime", "ifs")]:
        for k in ks:
            m.unit("%s_%s" % (f, k), contract="YASL_math_" + f, replace=["vm_print_err", "vvm_print_err", "inc_ref", "dec_ref", "is_prime"], about=M + f)
    for f in ("gcd", "lcm"):
        for k in "ii if fi ff is ub bi".split():
            m.unit("%s_%s" % (f, k), contract="YASL_math_" + f, replace=["vm_print_err", "vvm_print_err", "inc_ref", "dec_ref", "gcd_helper"], about=M + f)
    for f in ("max", "min"):
        for k in "none i f ii if fi ff iif fii fif iii is bi ibf".split():
            m.unit("%s_%s" % (f, k), contract="YASL_math_" + f, replace=["vm_print_err", "vvm_print_err", "inc_ref", "dec_ref"], about=M + f)
    s = Snippets(run, "math")
    maths.math_programs(s, rng(run), N(1500, 30000))
    s.execute()
    units = run_harnesses(run, [g, p, n, m])
    rc, out = sh(["lean", os.path.join(VERIF, "lemmas", "Arith.lean")], 120)
    lean = "checked by Lean on this run" if rc == 0 and "error" not in out and "sorry" not in out else "NOT checked on this run: " + out[-200:]
    return finish(run, units, "proof",
                  "gcd_helper returns a positive number that an arbitrary number divides if and only if it divides both arguments, is_prime answers by an arbitrary prime below 200 and an arbitrary odd "
                  "number up to the root, next_prime finds the first prime (loop contracts, all 64-bit numbers); the functions around them are proved for every number and every kind of argument, "
                  "min and max for up to three arguments; all of them are executed in random programs against exact integers and the C library.",
                  ["lemmas/Arith.lean (what divides a and b divides a % b; no divisor up to the root means prime; b / gcd * a is the lcm): " + lean,
                   "the remainder in gcd_helper and is_prime is an uninterpreted function with the contract of the lemma",
                   "sqrt is rounded correctly: the root of (double)x is at least d for every d below 2^32 with d * d <= x, and at most x / 2 and 2^32; floor keeps whole numbers below its argument",
                   "the functions of libm are uninterpreted: their results are what libm gives", A_PRINT, A_LONGJMP, A_MACH,
                   "conversions of floating-point arguments to integers: between -9e18 and 9e18"], TRUSTED)
