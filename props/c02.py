from common import *
import exprs

BIN = "add sub mul fdiv idiv mod pow bor bxor band bandnot shl shr lt le gt ge eq ne id nid".split()
OPS = ["+", "-", "*", "/", "//", "%", "**", "|", "^", "&", "&^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "===", "!=="]


def check(run):
    tu = TU("fold.c", links=["compiler/ast.c"], native_links=native_sources(exclude=["compiler/middleend.c"]))
    ab = "fold (compiler/middleend.c), node of "
    for op in BIN:
        for t in "ii if fi ff ib bf bb ui fu".split():
            tu.unit("%s_%s" % (op, t), contract="fold_contract", about=ab + op, unwind=4, timeout=60)
    for op in "neg pos bnot not".split():
        for t in "ifbu":
            tu.unit("%s_%s" % (op, t), contract="fold_contract", about=ab + op, unwind=4, timeout=60)
    for op in "concat and or coalesce".split():
        for t in "ii if ff bb".split():
            tu.unit("%s_%s" % (op, t), contract="fold_contract", about=ab + op, unwind=4, timeout=60)
    s = Snippets(run, "constants")
    r = rng(run)
    exprs.expr_programs(s, r, OPS, ["-", "+", "^", "!"], "iiiiffbu", N(60, 1500), "mixed")
    exprs.expr_programs(s, r, OPS, ["-", "+", "^", "!"], "iiiiffbu", N(60, 1500), "lits")
    exprs.nested_programs(s, r, OPS + ["&&", "||", "??"], "iiifbu", N(80, 2000))
    s.execute()
    units = run_harnesses(run, [tu])
    return finish(run, units, "proof",
                  "For every operator node over literals of every pair of types, folding is proved either to leave the node to the VM or to replace it by the literal "
                  "that the VM's instruction is proved (C01, C03: same specification) to compute; operations that fail at run time are proved not to be folded.",
                  [A_MALLOC, A_POW, A_MACH, A_TARGET, "the operands of the node are leaves; deeper trees follow by induction on the tree (folding works bottom-up) and are also executed (bounded)",
                   "shift counts outside 0..63 are unspecified"], TRUSTED)
