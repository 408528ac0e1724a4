"""Random programs over variables, scopes, functions, closures and loops, with a small interpreter as their oracle (written from the documentation).

A program is a list of statements (tuples); source text and expected output come from the same tree. Variables have kinds:
i an int, a any of int and undef (parameters), c a function that returns ints, m a function that returns functions of kind c."""
import re
import yasl as Y


class Drop(Exception):
    """The program is not usable (too long, too deep)."""


class Fn:
    def __init__(self, params, body, env):
        self.params, self.body, self.env = params, body, env


class Ret(Exception):
    def __init__(self, vals):
        self.vals = vals


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Env:
    def __init__(self, up=None):
        self.up, self.d = up, {}

    def cell(self, n):
        e = self
        while n not in e.d:
            e = e.up
        return e.d[n]


class Interp:
    def __init__(self, budget=6000):
        self.out, self.steps, self.depth = [], budget, 0

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Drop()

    def call(self, f, args):
        self.tick()
        if self.depth > 60:
            raise Drop()
        env = Env(f.env)
        for k, p in enumerate(f.params):
            env.d[p] = [args[k] if k < len(args) else Y.undef]
        self.depth += 1
        try:
            self.block(f.body, env)
            return []
        except Ret as r:
            return r.vals
        finally:
            self.depth -= 1

    def calls(self, e, env):
        f = self.ev(e[1], env)
        return self.call(f, [self.ev(x, env) for x in e[2]])

    def ev(self, e, env):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "var":
            return env.cell(e[1])[0]
        if k == "bin":
            a = self.ev(e[2], env)
            if e[1] in ("&&", "||", "??"):
                if (e[1] == "&&") == Y.truthy(a) if e[1] != "??" else a is Y.undef:
                    return self.ev(e[3], env)
                return a
            return Y.binop(e[1], a, self.ev(e[3], env))
        if k == "tern":
            return self.ev(e[2] if Y.truthy(self.ev(e[1], env)) else e[3], env)
        if k == "call":
            v = self.calls(e, env)
            return v[0] if v else Y.undef
        if k == "fn":
            return Fn(e[1], e[2], env)
        if k == "list":
            return [self.ev(x, env) for x in e[1]]
        raise KeyError(k)

    def block(self, b, env):
        for s in b:
            self.st(s, env)

    def st(self, s, env):
        self.tick()
        k = s[0]
        if k in ("let", "const"):
            env.d[s[1]] = [self.ev(s[2], env)]
        elif k == "assign":
            if s[2] == "=":
                v = self.ev(s[3], env)
            else:
                v = Y.binop(s[2][:-1], env.cell(s[1])[0], self.ev(s[3], env))
            env.cell(s[1])[0] = v
        elif k == "echo":
            self.out.append(Y.show(self.ev(s[1], env)))
        elif k == "expr":
            self.ev(s[1], env)
        elif k == "if":
            if Y.truthy(self.ev(s[1], env)):
                self.block(s[2], Env(env))
            elif s[3] is not None:
                self.block(s[3], Env(env))
        elif k == "while":
            while Y.truthy(self.ev(s[1], env)):
                self.tick()
                try:
                    self.block(s[2], Env(env))
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "for":
            e = Env(env)
            e.d[s[1]] = [self.ev(s[2], env)]
            while e.d[s[1]][0] < s[3]:
                self.tick()
                try:
                    self.block(s[5], Env(e))
                except Brk:
                    break
                except Cont:
                    pass
                e.d[s[1]][0] += s[4]
        elif k == "iter":
            e = Env(env)
            e.d[s[1]] = [Y.undef]
            for v in list(self.ev(s[2], env)):
                self.tick()
                e.d[s[1]][0] = v
                try:
                    self.block(s[3], Env(e))
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "fndef":
            env.d[s[1]] = [None]
            env.d[s[1]][0] = Fn(s[2], s[3], env)
        elif k == "return":
            if len(s[1]) == 1 and s[1][0][0] == "call":
                raise Ret(self.calls(s[1][0], env))     # a call in tail position hands on everything it returns
            raise Ret([self.ev(e, env) for e in s[1]])
        elif k == "multi":
            v = self.calls(s[2], env)
            for j, (n, new) in enumerate(s[1]):
                x = v[j] if j < len(v) else Y.undef
                if new:
                    env.d[n] = [x]
                else:
                    env.cell(n)[0] = x
        elif k == "multiv":
            vals = [self.ev(e, env) for e in s[2]]
            for (n, new), x in zip(s[1], vals):
                if new:
                    env.d[n] = [x]
                else:
                    env.cell(n)[0] = x
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cont()
        else:
            raise KeyError(k)


def ex(e):
    k = e[0]
    if k == "lit":
        return Y.lit(e[1])
    if k == "var":
        return e[1]
    if k == "bin":
        return "(%s %s %s)" % (ex(e[2]), e[1], ex(e[3]))
    if k == "tern":
        return "(%s ? %s : %s)" % (ex(e[1]), ex(e[2]), ex(e[3]))
    if k == "call":
        f = ex(e[1])
        return "%s(%s)" % (f if e[1][0] == "var" else "(%s)" % f, ", ".join(ex(x) for x in e[2]))
    if k == "fn":
        return "fn(%s) {\n%s}" % (", ".join(e[1]), src(e[2]))
    if k == "list":
        return "[%s]" % ", ".join(ex(x) for x in e[1])
    raise KeyError(k)


def src(b):
    t = ""
    for s in b:
        k = s[0]
        if k in ("let", "const"):
            t += "%s %s = %s\n" % (k, s[1], ex(s[2]))
        elif k == "assign":
            t += "%s %s %s\n" % (s[1], s[2], ex(s[3]))
        elif k == "echo":
            t += "echo %s\n" % ex(s[1])
        elif k == "expr":
            t += "%s\n" % ex(s[1])
        elif k == "if":
            t += "if %s {\n%s}" % (ex(s[1]), src(s[2]))
            t += " else {\n%s}\n" % src(s[3]) if s[3] is not None else "\n"
        elif k == "while":
            t += "while %s {\n%s}\n" % (ex(s[1]), src(s[2]))
        elif k == "for":
            t += "for let %s = %s; %s < %d; %s += %d {\n%s}\n" % (s[1], ex(s[2]), s[1], s[3], s[1], s[4], src(s[5]))
        elif k == "iter":
            t += "for %s <- %s {\n%s}\n" % (s[1], ex(s[2]), src(s[3]))
        elif k == "fndef":
            t += "fn %s(%s) {\n%s}\n" % (s[1], ", ".join(s[2]), src(s[3]))
        elif k == "return":
            t += "return %s\n" % ", ".join(ex(e) for e in s[1])
        elif k == "multi":
            t += "%s = %s\n" % (", ".join(("let " if new else "") + n for n, new in s[1]), ex(s[2]))
        elif k == "multiv":
            t += "%s = %s\n" % (", ".join(("let " if new else "") + n for n, new in s[1]), ", ".join(ex(e) for e in s[2]))
        else:
            t += k + "\n"
    return t


def base(n):
    return n.split("#")[0]


class Scope:
    def __init__(self, up=None, fn=None, loop=False):
        self.up, self.v = up, {}
        self.fn = fn if fn is not None else (up.fn if up else None)
        self.loop, self.isfn = loop, fn is not None

    def visible(self):
        """Names carry a unique suffix ("a#3"), as which variable a name means is decided where the program is written."""
        res, e, seen = {}, self, set()
        while e:
            for n, k in e.v.items():
                if base(n) not in seen:
                    res[n] = k
            seen |= {base(n) for n in e.v}
            e = e.up
        return res


class Gen:
    """weights: what the programs are mostly about ("scope", "call", "closure", "loop")."""
    def __init__(self, r, weights, names="abcdefgh"):
        self.r, self.w, self.names, self.n, self.left = r, weights, names, 0, 60

    def pick(self, sc, kinds, mut=False):
        vs = [n for n, (k, m) in sorted(sc.visible().items()) if k in kinds and (m or not mut)]
        return self.r.choice(vs) if vs else None

    def fresh(self, sc):
        have = {base(n) for n in sc.v}
        cands = [n for n in self.names if n not in have]
        self.n += 1
        if cands and self.r.random() < .8:
            return "%s#%d" % (self.r.choice(cands), self.n)
        return "v%d" % self.n

    def iexp(self, sc, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < .2:
            n = self.pick(sc, "i")
            if n and r.random() < .8:
                return ("var", n)
            n = self.pick(sc, "a")
            if n:
                return ("bin", "??", ("var", n), ("lit", r.randint(0, 9)))
            return ("lit", r.choice([r.randint(0, 9), r.randint(0, 300)]))
        if x < .5:
            return ("bin", r.choice("+-*+-&|^"), self.iexp(sc, d - 1), self.iexp(sc, d - 1))
        if x < .6:
            return ("tern", self.cond(sc, d - 1), self.iexp(sc, d - 1), self.iexp(sc, d - 1))
        c = self.pick(sc, "c")
        if c and x < .85:
            return ("bin", "??", self.callx(sc, ("var", c), d), ("lit", r.randint(0, 9)))
        n = self.pick(sc, "a")
        if n:
            return ("bin", "??", ("var", n), self.iexp(sc, d - 1))
        return ("lit", r.randint(0, 99))

    def callx(self, sc, f, d):
        return ("call", f, [self.aexp(sc, d - 1) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 4]))])

    def aexp(self, sc, d=1):
        n = self.pick(sc, "a")
        if n and self.r.random() < .3:
            return ("var", n)
        return ("lit", Y.undef) if self.r.random() < .05 else self.iexp(sc, d)

    def cond(self, sc, d=1):
        r = self.r
        return ("bin", r.choice(["<", ">", "<=", ">=", "==", "!="]), self.iexp(sc, d), self.iexp(sc, d))

    def cexp(self, sc):
        """A function that returns ints."""
        r = self.r
        m = self.pick(sc, "m")
        if m and r.random() < .4:
            return self.callx(sc, ("var", m), 2)
        c = self.pick(sc, "c")
        if c and r.random() < .3:
            return ("var", c)
        return self.lam(sc, "c")

    def params(self):
        return self.uniq(self.r.sample(self.names, self.r.choice([0, 1, 1, 2, 2, 3, 5])))

    def uniq(self, ps):
        self.n += 1
        return ["%s#%d" % (p, self.n) for p in ps]

    def lam(self, sc, kind):
        ps = self.params()
        inner = Scope(sc, fn=kind)
        for p in ps:
            inner.v[p] = ("a", True)
        return ("fn", ps, self.body(inner, self.r.choice([0, 1, 2, 3]), True))

    def body(self, sc, n, ret=False):
        b = []
        for _ in range(n):
            if self.left <= 0:
                break
            b += self.stat(sc)
            if b and b[-1][0] in ("return", "break", "continue"):
                break
        if ret and not (b and b[-1][0] == "return") and (sc.fn == "m" or self.r.random() < .85):
            b.append(self.ret(sc))
        if not b:
            b.append(("expr", ("lit", 0)) if False else ("echo", ("lit", self.r.randint(0, 99))))
        return b

    def ret(self, sc):
        r = self.r
        if sc.fn == "m":
            return ("return", [self.cexp(sc) for _ in range(r.choice([1, 1, 2, 3]))])
        c = self.pick(sc, "c")
        if c and r.random() < .15:
            return ("return", [self.callx(sc, ("var", c), 2)])
        return ("return", [self.aexp(sc, 2) for _ in range(r.choice([1, 1, 1, 2, 3]))])

    def stat(self, sc):
        r, w = self.r, self.w
        self.left -= 1
        opts = {"let": 4, "assign": 5, "echo": 4, "if": 2, "for": w.get("loop", 1), "iter": w.get("loop", 1), "while": w.get("loop", 1),
                "fndef": w.get("call", 1), "letc": w.get("closure", 1), "letm": w.get("closure", 1) * .7, "multi": w.get("call", 1), "multic": w.get("closure", 1) * .7, "rec": w.get("rec", w.get("call", 1) * .4),
                "setc": w.get("closure", 1) * .5, "callst": 1, "return": .3, "jump": .8, "const": .7, "multiv": .6}
        k = r.choices(list(opts), list(opts.values()))[0]
        inloop = self.inloop(sc)
        if k == "let" or k == "const":
            e = self.iexp(sc)
            n = self.fresh(sc)
            sc.v[n] = ("i", k == "let")
            return [(k, n, e)]
        if k == "assign":
            n = self.pick(sc, "i", True)
            if not n:
                return []
            return [("assign", n, r.choice(["=", "+=", "-=", "*=", "|=", "^="]), self.iexp(sc))]
        if k == "echo":
            x = r.random()
            return [("echo", ("list", [self.aexp(sc) for _ in range(r.randint(0, 4))]) if x < .2 else self.aexp(sc))]
        if k == "if":
            c = self.cond(sc)
            a = self.body(Scope(sc), r.randint(1, 3))
            return [("if", c, a, self.body(Scope(sc), r.randint(1, 3)) if r.random() < .5 else None)]
        if k == "while":
            self.n += 1
            v = "w%d" % self.n
            sc.v[v] = ("i", False)
            b = self.body(Scope(sc, loop=True), r.randint(1, 3))
            return [("let", v, ("lit", 0)), ("while", ("bin", "<", ("var", v), ("lit", r.randint(0, 4))), [("assign", v, "+=", ("lit", 1))] + b)]
        if k == "for":
            o = Scope(sc)
            v = self.fresh(o)
            e = ("lit", r.randint(0, 3))
            o.v[v] = ("i", False)
            return [("for", v, e, r.randint(0, 6), r.randint(1, 2), self.body(Scope(o, loop=True), r.randint(1, 4)))]
        if k == "iter":
            e = ("list", [self.iexp(sc, 1) for _ in range(r.randint(0, 4))])
            o = Scope(sc)
            v = self.fresh(o)
            o.v[v] = ("i", True)
            return [("iter", v, e, self.body(Scope(o, loop=True), r.randint(1, 4)))]
        if k == "fndef":
            n = self.fresh(sc)
            kind = "m" if r.random() < .3 * w.get("closure", 1) / 3 else "c"
            sc.v[n] = ("x", False)
            f = self.lam(sc, kind)
            sc.v[n] = (kind, False)
            return [("fndef", n, f[1], f[2])]
        if k == "rec":
            self.n += 1
            n = "v%d" % self.n
            ps = self.uniq(r.sample([x for x in self.names if x != base(n)], r.choice([1, 2, 3])))
            sc.v[n] = ("x", False)
            inner = Scope(sc, fn="c")
            for p in ps:
                inner.v[p] = ("a", True)
            inner.v[ps[0]] = ("a", False)
            b = [("if", ("bin", "<=", ("bin", "??", ("var", ps[0]), ("lit", 0)), ("lit", 0)), [("return", [self.iexp(inner, 1)])], None)]
            b += self.body(inner, r.randint(0, 2))
            if b[-1][0] != "return":
                call = ("call", ("var", n), [("bin", "-", ("var", ps[0]), ("lit", 1))] + [self.aexp(inner) for _ in ps[1:]])
                b.append(("return", [("bin", r.choice("+-^"), ("bin", "??", call, ("lit", 1)), self.iexp(inner, 1))] if r.random() < .7 else [call]))
            sc.v[n] = ("r", False)
            return [("fndef", n, ps, b), ("echo", ("call", ("var", n), [("lit", r.randint(0, 6))] + [self.aexp(sc) for _ in range(r.randint(0, 3))]))]
        if k == "letc":
            e = self.cexp(sc)
            n = self.fresh(sc)
            sc.v[n] = ("c", True)
            return [("let", n, e)]
        if k == "letm":
            e = self.lam(sc, "m")
            n = self.fresh(sc)
            sc.v[n] = ("m", False)
            return [("let", n, e)]
        if k == "setc":
            n = self.pick(sc, "c", True)
            if not n:
                return []
            return [("assign", n, "=", self.cexp(sc))]
        if k in ("multi", "multic"):
            f = self.pick(sc, "c" if k == "multi" else "m")
            if not f:
                return []
            call = self.callx(sc, ("var", f), 2)
            t = []
            if k == "multi":
                for _ in range(r.choice([2, 2, 3, 4])):
                    o = self.pick(sc, "a", True)
                    if o and r.random() < .4 and o not in [x for x, _ in t]:
                        t.append((o, False))
                    else:
                        n = self.fresh(sc)
                        sc.v[n] = ("a", True)
                        t.append((n, True))
            else:
                # the first result only is known to exist
                n = self.fresh(sc)
                sc.v[n] = ("c", True)
                t.append((n, True))
                n = self.fresh(sc)
                sc.v[n] = ("x", True)
                t.append((n, True))
            return [("multi", t, call)]
        if k == "multiv":
            es = [self.iexp(sc, 1) for _ in range(2)]
            t = []
            for _ in range(2):
                o = self.pick(sc, "i", True)
                if o and r.random() < .7 and o not in [x for x, _ in t]:
                    t.append((o, False))
                else:
                    n = self.fresh(sc)
                    sc.v[n] = ("i", True)
                    t.append((n, True))
            return [("multiv", t, es)]
        if k == "callst":
            f = self.pick(sc, "c")
            return [("expr", self.callx(sc, ("var", f), 2))] if f else []
        if k == "return":
            if sc.fn is None or sc.up is None:
                return []
            return [("if", self.cond(sc), [self.ret(sc)], None)]
        if k == "jump":
            if not inloop:
                return []
            j = (r.choice(["break", "continue"]),)
            return [("if", self.cond(sc), [j], None)]

    def inloop(self, sc):
        while sc:
            if sc.loop:
                return True
            if sc.isfn:
                return False
            sc = sc.up
        return False


def program(r, weights, size=22):
    """(source, expected output) of a random program that ends."""
    while True:
        g = Gen(r, weights)
        top = Scope()
        b = []
        g.left = size
        while g.left > 0:
            b += g.stat(top)
        for n, (k, m) in sorted(top.v.items()):
            if k in "ia":
                b.append(("echo", ("var", n)))
            elif k == "c":
                b.append(("echo", g.callx(top, ("var", n), 1)))
        it = Interp()
        try:
            it.block(b, Env())
        except (Drop, RecursionError):
            continue
        if len(it.out) > 400:
            continue
        return re.sub(r"#\d+", "", src(b)), "".join(x + "\n" for x in it.out)


def lang_programs(s, r, n, weights, about, size=22, leak=False):
    for _ in range(n):
        p, o = program(r, weights, size)
        s.add(p, o, 0, about, leak)
