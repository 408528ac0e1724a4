from common import *
import exprs
import yasl as Y


def logic_programs(s, r, n):
    """Conditions in every position that tests truthiness; operands are evaluated at most once and only when needed."""
    for _ in range(n):
        src = ["const t = fn(n, v) { echo n; return v; }"]
        out = []
        for k in range(12):
            a, b = Y.rval(r, "ifbbusu"), Y.rval(r, "ifbusu")
            la, lb = "t('L%d', %s)" % (k, Y.lit(a)), "t('R%d', %s)" % (k, Y.lit(b))
            c = r.randrange(8)
            if c < 3:
                op = ["&&", "||", "??"][c]
                src.append("echo %s %s %s" % (la, op, lb))
                out.append("L%d" % k)
                if (op == "&&" and Y.truthy(a)) or (op == "||" and not Y.truthy(a)) or (op == "??" and a is Y.undef):
                    out.append("R%d" % k)
                out.append(Y.show(Y.binop(op, a, b)))
            elif c == 3:
                src.append("echo %s ? 'yes' : 'no'" % la)
                out += ["L%d" % k, "yes" if Y.truthy(a) else "no"]
            elif c == 4:
                src.append("if %s {\n echo 1\n} elseif %s {\n echo 2\n} else {\n echo 3\n}" % (la, lb))
                out.append("L%d" % k)
                if Y.truthy(a):
                    out.append("1")
                else:
                    out += ["R%d" % k, "2" if Y.truthy(b) else "3"]
            elif c == 5:
                src.append("while %s {\n echo 'in'\n break\n}" % la)
                out += ["L%d" % k] + (["in"] if Y.truthy(a) else [])
            elif c == 6:
                src.append("echo !%s" % la)
                out += ["L%d" % k, Y.show(not Y.truthy(a))]
            else:
                src.append("echo [ x for x <- [1, 2] if %s ]" % la)
                out += ["L%d" % k] * 2 + ["[1, 2]" if Y.truthy(a) else "[]"]
        s.add("\n".join(src), "".join(o + "\n" for o in out), 0, "conditions")


def check(run):
    tu = vm_tu("vm_ops.c")
    for op in "lt le gt ge eq".split():
        for t in "ii if fi ff ib bf bb ui uu".split():
            tu.unit("%s_%s" % (op, t), contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, instruction of " + op)
        tu.unit("str_" + op, contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, instruction of " + op + " on strings",
                bounded="strings of up to 3 bytes")
    for t in "ii if fi ff ib bf bb ui uu".split():
        tu.unit("id_%s" % t, contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, instruction of ===")
    for t in "ifbu":
        tu.unit("not_%s" % t, contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, instruction of !")
        for b in "brf brt brn".split():
            tu.unit("%s_%s" % (b, t), contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, conditional branch")
    tu.unit("br", contract="vm_executenext", replace=["vm_print_err"], about="vm_executenext, branch")
    s = Snippets(run, "comparisons")
    r = rng(run)
    exprs.expr_programs(s, r, ["<", "<=", ">", ">=", "==", "!=", "===", "!=="], ["!"], "iiiffbusss", N(80, 1500), "mixed")
    logic_programs(s, r, N(60, 1500))
    s.execute()
    units = run_harnesses(run, [tu])
    return finish(run, units, "proof",
                  "Every comparison, equality, identity, negation and branch instruction is proved for all values of each pair of basic types to leave the specified "
                  "bool (or raise the specified error, or branch exactly when specified) and to change nothing else; string operands are proved up to a length bound.",
                  [A_MALLOC, A_LONGJMP, A_PRINT, A_MACH, A_TARGET, "branch offsets between -20 and 20 (the code buffer of the harness)",
                   "comparison of containers and userdata dispatches to metamethods and is not part of this property; identity of NaN and of zeros is unspecified"], TRUSTED)
