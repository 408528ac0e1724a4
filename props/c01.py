from common import *
import exprs

OPS = "add sub mul fdiv idiv mod pow bor bxor band bandnot shl shr".split()


def check(run):
    tu = vm_tu("vm_ops.c")
    for op in OPS:
        for t in "ii if fi ff ib bf ui uu".split():
            tu.unit("%s_%s" % (op, t), contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, instruction of " + op)
    for op in "neg pos bnot".split():
        for t in "ifbu":
            tu.unit("%s_%s" % (op, t), contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, instruction of " + op)
    s = Snippets(run, "operators")
    r = rng(run)
    exprs.expr_programs(s, r, ["+", "-", "*", "/", "//", "%", "**", "|", "^", "&", "&^", "<<", ">>"], ["-", "+", "^"], "iiiiffbu", N(60, 1500), "vars")
    s.execute()
    units = run_harnesses(run, [tu])
    return finish(run, units, "proof",
                  "Every arithmetic and bit instruction of the VM is proved, for all operand values of each pair of types, to leave exactly the "
                  "specified value (64-bit two's complement, IEEE doubles, promotion to float, or the specified error) on the stack and to change nothing else.",
                  [A_MALLOC, A_LONGJMP, A_PRINT, A_POW, A_MACH, A_TARGET,
                   "the state around the instruction: one frame at slot 2, operands at slots 5 and 6 (the instruction has no other dependence on the depth)",
                   "int ** int with a non-negative exponent: not proved, only executed against big-integer arithmetic (bounded)",
                   "shift counts outside 0..63 are unspecified; operands of container types dispatch to metamethods and are not part of this property"],
                  TRUSTED)
