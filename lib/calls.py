"""Programs about calls, scopes, limits and constants (C11, C17, C18, C20), with the output they must have."""
import math
from snip import *
from conts import Prog
import yasl as Y


def call_programs(s, r, n):
    A = "calls: arguments and results"
    # every arity against every number of arguments
    for p in range(5):
        q = Prog()
        q.do("fn f(%s) {\n%s\nreturn %s\n}" % (", ".join("p%d" % i for i in range(p)), "\n".join("echo p%d" % i for i in range(p)), ", ".join(["p%d" % i for i in range(p)] or ["7"])))
        for a in range(7):
            q.do("%s = f(%s)" % (", ".join("let r%d_%d" % (a, i) for i in range(4)), ", ".join(str(10 * a + i) for i in range(a))))
            args = [10 * a + i if i < a else Y.undef for i in range(p)]
            q.out += [Y.show(x) for x in args]
            res = (args or [7]) + [Y.undef] * 4
            for i in range(4):
                q.echo("r%d_%d" % (a, i), res[i])
        q.add(s, A, leak=True)
    # results in the middle of arguments count once, at the end they all count
    for _ in range(n):
        q = Prog()
        k = r.randint(1, 4)
        vals = [Y.rval(r, "iifbus") for _ in range(k)]
        q.do("fn m() { return %s; }" % ", ".join(Y.lit(v) for v in vals))
        q.do("fn g(a, b, c, d) { return [a, b, c, d]; }")
        q.do("let t = {}\nt.g = g\nt.m = m\nt.self = fn(self, a, b) { return [self === t, a, b]; }")
        pad = lambda l: (l + [Y.undef] * 4)[:4]
        q.echo("g(m())", pad(vals))
        q.echo("g(m(), 1)", pad([vals[0], 1]))
        q.echo("g(1, m())", pad([1] + vals))
        q.echo("g(m(), m())", pad([vals[0]] + vals))
        q.echo("g(g(m())[0], m())", pad([vals[0]] + vals))
        q.echo("t.g(m(), t.m(), 5)", pad([vals[0], vals[0], 5]))
        q.echo("t.g(5, t.m())", pad([5] + vals))
        q.echo("t->self(m())", [True] + pad(vals)[:2])
        q.echo("t->self(9, m())", [True, 9, vals[0]])
        q.echo("[m(), 8]", [vals[0], 8])
        q.echo("[m()]", [vals[0]])
        q.echo("(m() ?? 3)", 3 if vals[0] is Y.undef else vals[0])
        q.do("fn tail() { return m(); }\nfn first() { return (m() ?? 3); }\nfn two() { return m(), m(); }\nfn inner() { return g(m(), 4); }")
        q.echo("g(tail())", pad(vals))
        q.echo("g(first())", pad([3 if vals[0] is Y.undef else vals[0]]))
        q.echo("g(two())", pad([vals[0]] + vals))
        q.echo("inner()", pad([vals[0], 4]))
        q.do("let x, let y, let z = m()")
        for i, v in enumerate("xyz"):
            q.echo(v, pad(vals)[i])
        q.do("x, y, z = 1, m()")
        for i, v in enumerate("xyz"):
            q.echo(v, pad([1] + vals)[i])
        q.do("x, y = g(m(), 6), 2")
        q.echo("x", pad([vals[0], 6]))
        q.echo("y", 2)
        q.do("x, y, z = m(), 7")
        q.echo("x", vals[0])
        q.echo("y", 7)
        q.echo("z", Y.undef)
        q.do("fn none() { x = 1; }")
        q.echo("none()", Y.undef)
        q.echo("g(none(), 2)", pad([Y.undef, 2]))
        q.add(s, A)  # t and its method refer to each other
    # results leave loops and inner scopes; the caller's own variables and loops are not touched
    for _ in range(n):
        q = Prog()
        d = r.randint(1, 4)
        stop = r.randint(0, 5)
        q.do("fn f(n) {\nlet a = 1\n" + "".join("let a%d = %d\nfor b%d <- [0, 1, 2, 3, 4, 5] {\n" % (i, i, i) for i in range(d)) +
             "if b%d >= n { return %s, a; }\n" % (d - 1, "+".join("b%d" % i for i in range(d))) + "}\n" * d + "return -1, a\n}")
        q.do("for x <- [10, 20] {\nlet k = x\nfor y <- 'ab' {\nlet u, let v = f(%d)\necho [x, y, k, u, v]\n}\n}" % stop)
        for x in (10, 20):
            for y in "ab":
                q.out.append(Y.show([x, y, x, stop, 1]))
        q.echo("f(9)", -1)
        q.add(s, A, leak=True)
    # what cannot be called
    for v in ("5", "1.5", "'a'", "true", "undef", "[]"):
        s.add("let x = %s\necho 1\nx(2)\necho 3" % v, "1\n", 5, "calling a value that is not callable")
        s.add("let x = %s\nfn f(a) { return a; }\necho 1\nf(x(2), 3)\necho 3" % v, "1\n", 5, "calling a value that is not callable")
    # native functions called with too few, too many or wrong arguments
    for e, st in (("math.abs('x')", 5), ("math.abs()", 5), ("[1]->push()", 0), ("'abc'->startswith(1)", 5), ("'abc'->rep([])", 5), ("math.gcd(4, 6, 8)", 0), ("math.gcd(4)", 5), ("[]->extend(3)", 5)):
        s.add("echo 1\nlet x = %s" % e, "1\n", st if st else None, "native functions check their arguments")


def scope_programs(s, r, n):
    A = "variables: scopes"
    # a block's variables end with it; every kind of block
    blocks = [("if true {", "}"), ("if false { echo 0; } else {", "}"), ("for q <- [1] {", "}"), ("for let q = 0; q < 1; q += 1 {", "}"), ("let w = 0\nwhile w < 1 {\nw += 1\n", "}"),
              ("match 5 {\n5 {", "}\n}"), ("fn f() {", "}\nf()"), ("if false { echo 0; } elseif true {", "}")]
    for o, c in blocks:
        s.add("let x = 1\n%s\nlet x = 2\nx += 5\necho x\n%s\necho x" % (o, c), "7\n1\n", 0, A)
        s.add("let x = 1\n%s\nx += 5\necho x\n%s\necho x" % (o, c), "6\n6\n", 0, A)
        s.add("%s\nlet x = 2\n%s\necho x" % (o, c), "", 4, A)
        s.add("%s\nlet x = 2\nlet x = 3\n%s" % (o, c), "", 4, A)
        s.add("const x = 2\n%s\nx = 3\n%s" % (o, c), "", 4, A)
        s.add("const x = 2\n%s\nlet x = 3\nx = 4\necho x\n%s\necho x" % (o, c), "4\n2\n", 0, A)
        s.add("let x = 2\n%s\nconst x = 3\nx = 4\n%s" % (o, c), "", 4, A)
        s.add("%s\nconst x = 3\n%s\nlet x = 4\nx = 5\necho x" % (o, c), "5\n", 0, A)
        s.add("%s\nundeclared += 3\n%s" % (o, c), "", 4, A)
        s.add("%s\necho undeclared\n%s" % (o, c), "", 4, A)
        s.add("let a = 1\n%s\nlet b = 2\nlet c = 3\n%s\nlet d = 4\nlet e = 5\necho [a, d, e]" % (o, c), "[1, 4, 5]\n", 0, A)
    for p in ("fn f(a) { let a = 1; }", "for a <- [1] {\nlet a = 2\necho a\n}", "let a, let a = 1, 2", "const c = 1\nc += 1", "const c = 1\nlet d, c = 1, 2", "x, y = 1, 2", "const f = fn() { return 1; }\nf = 2", "fn g() { return 1; }\nlet g = 2",
              "let y = 1\nfor y <- [1] { y = 3; }\nlet y = 2", "let z = z", "echo z\nlet z = 1", "fn g() { return h(); }\nlet h = 1"):
        s.add(p, None if "echo a" in p else "", 0 if "echo a" in p else 4, A)
    # many variables in nested scopes, each with its own slot
    for _ in range(n):
        q, n0, live = Prog(), 0, []
        depth, val = 0, {}
        for _ in range(r.randint(10, 120)):
            c = r.random()
            if c < .45:
                v = "v%d" % n0
                n0 += 1
                val[v] = n0
                q.do("let %s = %d" % (v, n0))
                live.append((v, depth))
            elif c < .6:
                q.do(r.choice(["if true {", "for q%d <- [1] {" % n0, "while true {"]))
                q.src[-1] += "" if not q.src[-1].startswith("while") else ""
                depth += 1
                live.append(("#" + q.src[-1][:2], depth))
                n0 += 1
            elif c < .75 and depth:
                while True:
                    v, _ = live.pop()
                    if v[0] == "#":
                        break
                if v == "#wh":
                    q.do("break")
                q.do("}")
                depth -= 1
            else:
                vs = [v for v, _ in live if v[0] != "#"]
                if vs:
                    v, w = r.choice(vs), r.choice(vs)
                    val[v] = val[v] * 2 - val[w]
                    val[v] = Y.wrap(val[v])
                    q.do("%s = %s * 2 - %s" % (v, v, w))
                    vs = r.sample(vs, min(4, len(vs)))
                    q.echo("[%s]" % ", ".join(vs), [val[v] for v in vs])
        while depth:
            v, _ = live.pop()
            if v[0] == "#":
                if v == "#wh":
                    q.do("break")
                q.do("}")
                depth -= 1
        for v, _ in live:
            q.echo(v, val[v])
        q.add(s, A, leak=True)


def limit_programs(s, r):
    A = "limits"
    REC = {
        "call": "fn f() { return f(); }\necho 1\necho f()",
        "arguments": "fn f(a, b) { return f(b, a) + 1; }\necho 1\necho f(1, 2)",
        "mutual": "let g = undef\nfn f(a) { return g(a) + 1; }\ng = fn(a) { return f(a) + 1; }\necho 1\necho f(1)",
        "table": "let t = {}\nt.f = fn(x) { return t.f(x) + 1; }\necho 1\necho t.f(1)",
        "method": "let t = {}\nt.f = fn(x) { return x->f() + 1; }\necho 1\necho t->f()",
        "loop": "fn f(x) { for a <- [1] { f(x); }; return 1; }\necho 1\necho f(1)",
        "string loop": "fn f(x) { for a <- 'a' { f(x); }; return 1; }\necho 1\necho f(1)",
        "comprehension": "fn f(x) { return [ f(y) for y <- [x] ]; }\necho 1\necho f(1)",
        "metamethod": "let t = {}\nlet m = {}\nm.tostr = fn(self) { return self->tostr(); }\nmt.set(t, m)\necho 1\necho t",
        "operator": "let t = {}\nlet m = {}\nm.__add = fn(a, b) { return a + b; }\nmt.set(t, m)\necho 1\necho t + t",
        "comparison": "let l = []\nl->push(l)\nlet k = []\nk->push(k)\necho 1\necho l == k",
        "expression": "fn f(x) { return 1 + (2 + (3 + (4 + f(x)))); }\necho 1\necho f(1)",
        "wide": "fn f(%s) { return f(%s); }\necho 1\necho f()" % (", ".join("a%d" % i for i in range(30)), ", ".join("a%d" % i for i in range(30))),
        "locals": "fn f(x) {\n%s\nreturn f(a0)\n}\necho 1\necho f(1)" % "\n".join("let a%d = x" % i for i in range(200)),
        "closure": "fn f(x) { return fn() { return f(x); }(); }\necho 1\necho f(1)",
    }
    for k, p in REC.items():
        s.add(p, "1\n", 11, A + ": unbounded recursion (%s)" % k)
    # the depth that is left over does not depend on earlier, ended calls and loops
    s.add("fn f(n) { if n == 0 { return 0; }; return 1 + f(n - 1); }\nfor let i = 0; i < 300; i += 1 { f(100); }\necho f(150)", "150\n", 0, A)
    s.add("let t = 0\nfor let i = 0; i < 3000; i += 1 {\nfor x <- [1, 2] {\nif x == 2 { break; }\nt += 1\n}\n}\necho t", "3000\n", 0, A)
    s.add("fn f() { for x <- [1, 2] { for y <- 'abc' { return y; }; }; }\nlet t = ''\nfor let i = 0; i < 2000; i += 1 {\nt = f()\n}\necho t", "a\n", 0, A)
    s.add("fn f() { for x <- [1, 2] { if x == 1 { continue; }; }; return 1, 2, 3; }\nlet t = 0\nfor let i = 0; i < 2000; i += 1 {\nt += f()\nf()\n}\necho t", "2000\n", 0, A)
    s.add("let l = []\nfor let i = 0; i < 5000; i += 1 {\nlet a, let b = [i, i + 1], {i: 1}\nl->push([ x + 1 for x <- a if x ])\n}\necho len l", "5000\n", 0, A)
    for n in (1, 2, 100, 126, 127, 128, 200, 250, 255, 256, 257, 300, 520, 1100):
        lets = "\n".join("let a%d = %d" % (i, i) for i in range(n))
        ns = ", ".join(str(i) for i in range(n))
        ok = n <= 255
        s.add("fn f() {\n%s\nreturn a0 + a%d\n}\necho f()" % (lets, n - 1), "%d\n" % (n - 1) if ok else "", 0 if ok else 4, A + ": locals of a function")
        s.add("%s\necho a0 + a%d" % (lets, n - 1), "%d\n" % (n - 1) if ok else "", 0 if ok else 4, A + ": variables of a program")
        s.add("fn f(%s) { return a%d; }\necho f(%s)" % (", ".join("a%d" % i for i in range(n)), n - 1, ns), "%d\n" % (n - 1) if ok else "", 0 if ok else 4, A + ": parameters")
        full = n > 1000
        s.add("fn f(a) { return a; }\necho f(%s)" % ns, "" if full else "0\n", 11 if full else 0, A + ": arguments")
        if n > 1:
            s.add("fn f() { return %s; }\nlet a, let b = f()\necho a + b" % ns, "" if full else "1\n", 11 if full else 0, A + ": results")
        s.add("let l = [%s]\necho len l\necho l[%d]" % (ns, n - 1), "" if full else "%d\n%d\n" % (n, n - 1), 11 if full else 0, A + ": list literal")
        s.add("let l = {%s}\necho len l\necho l[%d]" % (", ".join("%d: %d" % (i, i + 1) for i in range(n)), n - 1), "" if full else "%d\n%d\n" % (n, n) if n < 520 else None if n < 1000 else "", None if 500 < n < 1000 else 11 if full else 0, A + ": table literal")
        s.add("let x = 1\necho " + "+".join(["x"] * n), "%d\n" % n, 0, A + ": long expression")
        s.add("let x = 1\necho " + "(x+" * n + "x" + ")" * n, "" if full else "%d\n" % (n + 1), 11 if full else 0, A + ": deep expression")
        s.add("let x = 'a'\necho len (" + "~".join(["x"] * n) + ")", "" if full else "%d\n" % n, 11 if full else 0, A + ": long concatenation")
        s.add("let x = 1\n" + "if x == 1 {\n" * n + "echo 7\n" + "}\n" * n, "7\n", 0, A + ": nested blocks")
        s.add("let x = 1\n" + "while x < 3 {\n" * n + "x += 1\n" + "}\n" * n + "echo x", "3\n", 0, A + ": nested loops")
        ok2 = n < 256
        s.add("".join("for a%d <- [1] {\n" % i for i in range(n)) + "echo 7\n" + "}\n" * n, "7\n" if ok2 else "", 0 if ok2 else 4, A + ": nested iteration")
        s.add("match 3 {\n" + "\n".join("%d {\necho %d\n}" % (i + 3, i) for i in range(n)) + "\n}", "0\n", 0, A + ": match arms")
        s.add("match %d {\n" % (n + 2) + "\n".join("%d {\necho %d\n}" % (i + 3, i) for i in range(n)) + "\n}", "%d\n" % (n - 1), 0, A + ": match arms")
        s.add("let x = 0\n" + "if x { echo 1; } else {\n" * min(n, 200) + "echo 2\n" + "}\n" * min(n, 200), "1\n", 0, A + ": else blocks")
    # captured variables: up to the number that can be encoded, an error beyond, never something else
    for n in (1, 5, 100, 127, 128, 129, 200, 255):
        p = "fn f() {\n%s\nreturn fn() { return %s; }\n}\necho f()()" % ("\n".join("let a%d = %d" % (i, i + 1) for i in range(n)), "+".join("a%d" % i for i in range(n)))
        s.add(p, "%d\n" % (n * (n + 1) // 2) if n <= 128 else "", 0 if n <= 128 else 4, A + ": captured variables")
    # jumps over long code
    for n in (10, 200, 3000):
        body = "x += 3\n" * n
        s.add("let x = 1\nif x == 2 {\n%s}\necho x\nif x == 1 {\n%s}\necho x" % (body, body), "1\n%d\n" % (1 + 3 * n), 0, A + ": jumps over long code")
        s.add("let x = 1\nfn f(x) {\n%sreturn x\n}\necho f(2)\nfor let i = 0; i < 2; i += 1 {\n%s}\necho x" % (body, body), "%d\n%d\n" % (2 + 3 * n, 1 + 6 * n), 0, A + ": jumps over long code")


def const_programs(s, r, n):
    A = "constants mean what was written"
    # equal looking constants of different types, used together
    same = [["1", "1.0", "'1'", "true", "'true'", "'1.0'"], ["0", "0.0", "(-0.0)", "''", "'0'", "false", "undef", "'undef'", "'false'"],
            ["2", "2.0", "'2'", "'2.0'"], ["'a'", "'A'", "'a '", "'\\x00'", "'\\x00\\x00'", "'a\\x00b'", "'a\\x00c'"], ["9007199254740993", "9007199254740992.0", "9007199254740992"],
            ["9223372036854775807", "9223372036854775807.0", "(-9223372036854775807)"], ["127", "128", "(-128)", "(-129)", "255", "256", "(-1)", "127.0", "128.0"]]
    shown = {"'1'": "1", "'true'": "true", "'1.0'": "1.0", "(-0.0)": "-0.0", "''": "", "'0'": "0", "'undef'": "undef", "'false'": "false", "'2'": "2", "'2.0'": "2.0", "'a'": "a", "'A'": "A", "'a '": "a ",
             "9007199254740992.0": "9007199254740992.0", "9223372036854775807.0": "9223372036854775808.0"}
    for g in same:
        q = Prog()
        for _ in range(3):
            for c in r.sample(g, len(g)):
                v = c.strip("()") if c not in shown else shown[c]
                if "\\x" in c:
                    q.echo("len " + c, (c.count("x00") + len(c.replace("\\x00", "")) - 2))
                else:
                    q.echo(c, v)
                typ = "str" if c[0] == "'" else "bool" if c in ("true", "false") else "undef" if c == "undef" else "float" if "." in c else "int"
                q.do("let t%d = {}" % len(q.src))
                q.echo("%s->tostr() == '%s'" % (c, v) if typ not in ("str", "undef") else "1 == 1", True)
                q.echo("(%s == %s)" % (c, c), True)
        for i, c in enumerate(g):
            for j, d in enumerate(g):
                if i != j:
                    ty = lambda c: "str" if c[0] == "'" else "bool" if c in ("true", "false") else "undef" if c == "undef" else "float" if "." in c else "int"
                    if ty(c) != ty(d) or (ty(c) == "str"):
                        q.echo("(%s === %s)" % (c, d), False)
        q.add(s, A)
    # many constants: each index of the pool, short and long ones
    for m in (1, 100, 126, 127, 128, 129, 254, 255, 256, 257, 600):
        for kind in "ifs":
            q = Prog()
            vals = [(1000 + 7 * i if kind == "i" else i + .25 if kind == "f" else "s%d" % i) for i in range(m)]
            q.do("let n = 0\nlet s = ''")
            for i, v in enumerate(vals):
                q.do("n = %s" % Y.lit(v))
                if i < 5 or i > m - 5 or i % 37 == 0 or 120 < i < 132 or 250 < i < 260:
                    q.echo("n", v)
            for v in (vals[0], vals[-1], vals[m // 2]):
                q.echo(Y.lit(v), v)
            q.add(s, A)
    # random mixtures, in functions and outside; a constant used again is the same
    for _ in range(n):
        q, vals = Prog(), []
        for _ in range(r.choice([10, 60, 300])):
            vals.append(r.choice([lambda: Y.rint(r), lambda: r.randint(-300, 300), lambda: r.choice([0.0, -0.0, 1.0, 1.5, 0.1, 1e15, 123456.789, 5e-324 * 0 + 0.25]),
                                  lambda: Y.rstr(r, 6, "ab01 .\xe9'\\\n\"#$"), lambda: r.random() < .5, lambda: Y.undef])())
        for i, v in enumerate(vals):
            if r.random() < .2:
                q.do("fn f%d() { return %s; }" % (i % 7, Y.lit(v)) if False else "let f%d_%d = fn() { return %s; }" % (i, 0, Y.lit(v)) if i < 200 else "n = 1" if False else "if true { echo 1; }")
                if i < 200:
                    q.echo("f%d_0()" % i, v)
                else:
                    q.out.append("1")
            else:
                q.echo(Y.lit(v), v)
            if isinstance(v, str):
                q.echo("len " + Y.lit(v), len(v.encode()))
        q.add(s, A)
    # big constants
    for l in (1, 127, 128, 255, 256, 4096, 70000):
        t = "".join(r.choice("abc") for _ in range(l))
        q = Prog()
        q.do("let x = '%s'" % t)
        q.echo("len x", l)
        q.echo("x", t)
        q.echo("x == '%s'" % t, True)
        q.add(s, A)
