"""Programs that evaluate operators; used by C01 (values only known at run time), C02 (literals) and C03 (comparisons, logic)."""
from snip import *
import yasl as Y


def strval(v):
    return isinstance(v, str)


def expr_programs(s, r, binops, unops, kinds, n, mode):
    """mode: 'vars' (operands in variables: nothing can be folded), 'lits' (folded where the compiler folds), or 'mixed'."""
    for _ in range(n):
        src, out = [], []
        for k in range(25):
            if unops and r.random() < .15:
                op, a = r.choice(unops), Y.rval(r, kinds)
                try:
                    v = Y.unop(op, a)
                except Y.YErr as e:
                    if strval(a) or k:
                        continue
                    s.add(prog1(r, op, [a], mode)[0], "", e.status, "error of unary " + op)
                    continue
                args = [a]
            else:
                op, a, b = r.choice(binops), Y.rval(r, kinds), Y.rval(r, kinds)
                if op in ("<<", ">>") and Y.isint(b) and r.random() < .8:
                    b = abs(b) % 64
                if op == "**" and Y.isint(a) and Y.isint(b) and r.random() < .8:
                    b = abs(b) % 70 if abs(a) < 10 else abs(b) % 8
                try:
                    v = Y.binop(op, a, b)
                except Y.YErr as e:
                    if k < 2:
                        p, _o = prog1(r, op, [a, b], mode)
                        s.add(p, "", e.status, "error of " + op)
                    continue
                args = [a, b]
            if v is Y.UNSPEC:
                continue
            p, _o = prog1(r, op, args, mode, k)
            src.append(p)
            out.append(Y.show(v))
        s.add("\n".join(src), "".join(o + "\n" for o in out), 0, "operators on operands from " + mode)


def prog1(r, op, args, mode, k=0):
    lits = [Y.lit(a) for a in args]
    m = r.choice(["vars", "lits", "half"]) if mode == "mixed" else mode
    pre = []
    names = []
    for i, l in enumerate(lits):
        if m == "vars" or (m == "half" and i == 0):
            nm = "%s%d" % ("ab"[i], k)
            pre.append("let %s = %s" % (nm, l))
            names.append(nm)
        else:
            names.append(l)
    e = "%s%s" % (op, names[0]) if len(args) == 1 else "%s %s %s" % (names[0], op, names[1])
    return "\n".join(pre + ["echo (" + e + ")"]), None


def rexpr(r, depth, ops, kinds):
    """A random expression over literals: (text, value or YErr status)."""
    if depth == 0 or r.random() < .2:
        v = Y.rval(r, kinds)
        return Y.lit(v), v
    if r.random() < .15:
        t, v = rexpr(r, depth - 1, ops, kinds)
        op = r.choice("-+^!")
        return "(%s%s)" % (op, t), (v if v is Y.UNSPEC else Y.unop(op, v))
    op = r.choice(ops)
    ta, a = rexpr(r, depth - 1, ops, kinds)
    tb, b = rexpr(r, depth - 1, ops, kinds)
    if a is Y.UNSPEC or b is Y.UNSPEC:
        return "0", Y.UNSPEC
    return "(%s %s %s)" % (ta, op, tb), Y.binop(op, a, b)


def nested_programs(s, r, ops, kinds, n, depth=4):
    for _ in range(n):
        src, out = [], []
        while len(src) < 12:
            try:
                t, v = rexpr(r, depth, ops, kinds)
            except Y.YErr:
                continue
            if v is Y.UNSPEC:
                continue
            if r.random() < .3:      # the same value at run time: a conditional, a list element, an argument
                src.append("echo %s ? 1 : 2" % t)
                out.append("1" if Y.truthy(v) else "2")
            else:
                src.append("echo " + t)
                out.append(Y.show(v))
        s.add("\n".join(src), "".join(o + "\n" for o in out), 0, "constant expressions")
