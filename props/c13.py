from common import *
import lang

LINKS = [l for l in VM_LINKS if l != "interpreter/upvalue.c"]

# The flexible array of struct Closure gets a size in the verified text, and a closure is read from a copy of the slot (CBMC does not follow a pointer
# out of a union within one expression); the code itself stays as it is.
SUB = [(r"\bupvalues\[\];", "upvalues[3];"), (r"(\(\(?vm\)?->stack\[[^\[\]]*\]\)|vm->stack\[vm->fp\])\.value\.lval->", r"yv_getclo(\1)->")]


def check(run):
    tu = TU("closure.c", links=LINKS, native_links=native_sources(exclude=["interpreter/VM.c", "interpreter/upvalue.c"]), sub=SUB)
    for f in ("uload", "ustore"):
        for k in "0 1 2 s0 s1 s2 t1 t2".split():
            tu.unit("%s_%s" % (f, k), contract="vm_executenext", replace=["vm_print_err", "inc_ref", "dec_ref"], about="interpreter/VM.c: vm_executenext (%s); upval_get, upval_set" % f)
    B = "at most four open variables"
    for m in (0, 1, 2, 4, 8, 7, 15, 10):
        for f in ("close_all", "close_top", "close_three", "close_free"):
            tu.unit("%s_%d" % (f, m), about="interpreter/VM.c: vm_close_all, vm_close_top, vm_close_all_helper", bounded=B)
    for m in (0, 2, 4, 8, 9, 15):
        for k in "013":
            tu.unit("addup_%d_%s" % (m, k), about="interpreter/VM.c: add_upvalue", bounded=B)
            tu.unit("cconst_%d_%s" % (m, k), about="interpreter/VM.c: vm_CCONST (executed only)", prove=False, bounded=B)
    tu.unit("get", contract="upval_get", about="interpreter/upvalue.c: upval_get", native=False)
    tu.unit("close", contract="upval_close", about="interpreter/upvalue.c: upval_close", native=False)
    tu.unit("new", about="interpreter/upvalue.c: upval_new")
    s = Snippets(run, "closures")
    r = rng(run)
    lang.lang_programs(s, r, N(500, 8000), {"closure": 3}, "closures share the variables they capture", 24)
    lang.lang_programs(s, r, N(150, 2000), {"closure": 4, "loop": 3}, "closures share the variables they capture", 60)
    s.execute()
    units = run_harnesses(run, [tu])
    return finish(run, units, "proof",
                  "Reading and writing a captured variable (GLOAD/GSTORE through open and closed upvalues, upval_get, upval_close, upval_new) is proved for every value; closing the variables of an ended "
                  "scope and finding an existing upvalue is proved for up to four open variables, the creation of closures executed only; random programs with closures in loops, functions and "
                  "conditionals are executed against an interpreter written for the purpose.", [A_MALLOC, A_STATE, A_MACH], TRUSTED)
