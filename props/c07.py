from common import *
import conts


def check(run):
    L = ["interpreter/YASL_Object.c", "data-structures/YASL_String.c", "data-structures/YASL_List.c"]
    nat = native_sources(exclude=["interpreter/list_methods.c"])
    tu = TU("sort.c", links=L, native_links=nat)
    for n in range(3):
        tu.unit("sort_%d" % n, about="interpreter/list_methods.c: sort", bounded="%d ints of any value, at most 4 nested calls" % n, unwind=n + 2,
                unwindset=["sort:4"], opts=["--no-unwinding-assertions", "--object-bits", "10"], timeout=150, solvers=("minisat", "z3"))
    tu.unit("sort_any", prove=False, about="interpreter/list_methods.c: sort, up to 60 ints")
    for k in "ii ff if".split():
        tu.unit("cmp_" + k, about="interpreter/YASL_Object.c: yasl_object_cmp")
    s = Snippets(run, "sorting")
    conts.sort_programs(s, rng(run), N(60, 1500))
    s.execute()
    str_tu = TU("str.c", links=["interpreter/YASL_Object.c"], native=False)
    str_tu.unit("cmp", contract="YASL_String_cmp", about="data-structures/YASL_String.c: YASL_String_cmp")
    units = run_harnesses(run, [tu, str_tu])
    return finish(run, units, "other",
                  "The order that sorting goes by is proved for all pairs of numbers and of strings. Sorting itself is decided by bounded means only: "
                  "by the verifier for up to two elements, by executing sort() on random arrays of up to 60 ints with a permutation-and-order oracle, and by programs compared with Python.",
                  [A_MALLOC, A_MACH, "lists without NaN; where ints and floats are mixed, the ints are exactly representable (otherwise the numbers are not totally ordered)",
                   "the strength of the proof of sort(): bounded, not counted as proved"], TRUSTED)
