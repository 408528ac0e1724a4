"""Programs that fail at a known line, with the lines of the pending calls (C10)."""
ERRS = ["undef + 1", "[1][5]", "1 // zero", "1 % zero", "-'a'", "zero()", "'abc'->rep(-1)", "math.abs('x')", "'a' < 1", "len zero", "[1][1:'a']", "1 ~ ([1] + 2)",
        "[ y + undef for y <- [1] ]", "(fn() { return undef + 1; })()",
        "true ? undef + 1 : 2", "undef ? 1 : 1 // zero", "undef.x", "zero.x.y", "true ? undef.x : 2"]


class P:
    def __init__(self, r):
        self.r, self.src, self.n, self.pending, self.err, self.depth = r, [], 0, [], None, 0

    def line(self, t):
        self.src.append(t)
        return len(self.src)

    def gap(self):
        for _ in range(self.r.choice([0, 0, 0, 1, 2, 7])):
            self.line(self.r.choice(["", "# comment", "/* a\n b */", "", "echo zero", "let u%d = 3" % self.uid()]))
            self.src = "\n".join(self.src).split("\n")

    def uid(self):
        self.n += 1
        return self.n

    def fail(self):
        """A statement that fails, on the next line."""
        e = self.r.choice(ERRS)
        n = self.line(self.r.choice(["let v%d = %s" % (self.uid(), e), "echo %s" % e, "zero = %s" % e, "if %s { echo 1; }" % e, "while %s { echo 1; }" % e, "g(1, %s)" % e, "g(%s)" % e,
                                     "for x <- [%s] { echo x; }" % e, "for let i = %s; i < 2; i += 1 { echo i; }" % e, "for let i = 0; %s; i += 1 { echo i; }" % e,
                                     "for let i = 0; i < 2; i += (%s) { g(i); }" % e, "list[%s] = 1" % e, "match %s {\n1 { echo 1; }\n}" % e]))
        self.src = "\n".join(self.src).split("\n")
        return [n]

    def body(self, fails, depth):
        """A block; returns the lines of the error that ends it."""
        r = self.r
        res = None
        k = r.randint(0, 3)
        at = r.randint(0, k)
        for i in range(k + 1):
            self.gap()
            if i == at and fails:
                res = self.failing(depth)
            else:
                self.fine(depth)
        self.gap()
        return res

    def failing(self, depth):
        r = self.r
        c = r.random()
        if depth <= 0 or c < .15:
            return self.fail()
        if c < .5:
            o, m, cl = r.choice([("if true {", None, "}"), ("for x%d <- [1] {" % self.uid(), None, "}"), ("for let i%d = 0; i%d < 1; i%d += 1 {" % ((self.uid(),) * 3), None, "}"), ("while true {", None, "}"),
                                 ("if false {", "} else {", "}"), ("if false {", "} elseif true {", "}"), ("match 5 {\n6 {", "}\n5 {", "}\n}")])
            self.line(o)
            self.src = "\n".join(self.src).split("\n")
            if m:
                self.fine(depth - 1)
                self.line(m)
                self.src = "\n".join(self.src).split("\n")
            res = self.body(True, depth - 1)
            self.line(cl)
            self.src = "\n".join(self.src).split("\n")
            self.fine(0)
            return res
        f = "f%d" % self.uid()
        kind = r.choice(["fn", "let", "method", "closure"])
        if kind == "fn":
            self.line("fn %s(a, b) {" % f)
        elif kind == "let":
            self.line("let %s = fn(a) {" % f)
        elif kind == "method":
            self.line("let t%s = {}" % f)
            self.line("t%s.m = fn(self, a) {" % f)
        else:
            self.line("let c%s = 1" % f)
            self.line("let %s = fn(a) {" % f)
            self.line("c%s += a" % f)
        res = self.body(True, depth - 1)
        self.line("}")
        self.gap()
        call = "t%s->m(1)" % f if kind == "method" else "%s(1)" % f
        n = self.line(r.choice(["%s", "let v%d = %%s" % self.uid(), "echo %s", "if %s { echo 1; }", "g(1, %s)", "list[0] = %s", "while %s { echo 1; }", "for x <- %s { echo x; }", "echo 1 + (2 + %s)", "echo [ x for x <- [1] if %s ]"]) % call)
        if "x for x" in self.src[-1]:
            return res + [n]
        return res + [n]

    def fine(self, depth):
        r = self.r
        c = r.random()
        if depth <= 0 or c < .4:
            self.line(r.choice(["let w%d = [1, 2]" % self.uid(), "echo zero", "zero = 0", "g(1)", "list[0] = g(3)", "echo [ x + 1 for x <- [1, 2] ]", "if zero { echo 1; } else { echo 2; }", "echo 'a'->toupper()", "echo len 'abc'",
                                "let h%d = fn(a) { return a; }" % self.uid(), "for x <- 'ab' { echo x; }"]))
            return
        if c < .8:
            o, cl = r.choice([("if true {", "}"), ("if false {", "}"), ("for x%d <- [1, 2] {" % self.uid(), "}"), ("for let i%d = 0; i%d < 2; i%d += 1 {" % ((self.uid(),) * 3), "}"), ("while false {", "}")])
            self.line(o)
            self.body(False, depth - 1)
            self.line(cl)
            return
        f = "f%d" % self.uid()
        self.line("fn %s(a) {" % f)
        self.body(False, depth - 1)
        self.line("return a")
        self.line("}")
        self.line("%s(1)" % f)


def line_programs(s, r, n, depth=4):
    for _ in range(n):
        p = P(r)
        p.line("let zero = 0")
        p.line("let list = [1]")
        p.line("fn g(a) { return a; }")
        lines = p.body(True, r.randint(0, depth))
        s.add("\n".join(p.src), None, None, "errors name the line they happened on", lines=lines)


class Q(P):
    """The same programs with a statement that cannot be compiled."""
    def failing(self, depth):
        r = self.r
        if depth > 0 and r.random() < .6:
            o, c = r.choice([("if true {", "}"), ("for x%d <- [1] {" % self.uid(), "}"), ("while true {", "}"), ("fn f%d(a) {" % self.uid(), "}"), ("let f%d = fn(a) {" % self.uid(), "}")])
            self.line(o)
            res = self.body(True, depth - 1)
            self.line(c)
            return res
        u = self.uid()
        return [self.line(r.choice(["echo nosuch", "nosuch = 1", "nosuch += 1", "echo 1 + nosuch", "g(nosuch)", "let q%d = nosuch" % u, "let 5 = 3", "echo )", "list[nosuch] = 1", "if nosuch { echo 1; }", "while nosuch { echo 1; }",
                                    "for x <- nosuch { echo x; }", "const c%d = 1; c%d = 2" % (u, u), "let c%d = 1; let c%d = 2" % (u, u), "let r%d = fn(a) { return nosuch; }" % u, "list->nosuch(nosuch)", "echo [ y for x <- [1] ]"]))]


def syntax_programs(s, r, n, depth=3):
    for _ in range(n):
        p = Q(r)
        p.line("let zero = 0")
        p.line("let list = [1]")
        p.line("fn g(a) { return a; }")
        lines = p.body(True, r.randint(0, depth))
        s.add("\n".join(p.src), "", 4, "errors of the compiler name the line they are on", lines=lines)
