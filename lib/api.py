"""Random histories of calls of the C API (C15), with a model of the stack, the globals and the containers as their oracle (written from yasl.h)."""
import struct

BITS = {"undef": 0, "bool": 1, "float": 2, "int": 3, "str": 4, "list": 5, "table": 6, "userptr": 7}
TAGS = ["tagA", "tagB", "tagC"]


class V:
    """A value: kind, and a number, string, Python list, dict or function."""
    def __init__(self, k, v=None):
        self.k, self.v, self.mt = k, v, None


UNDEF = V("undef")


def fbits(d):
    return "nan" if d != d else "f%016x" % struct.unpack("<Q", struct.pack("<d", d))[0]


def typename(x):
    return TAGS[x.v[1]] if x.k == "ud" else x.k


def isbits(x):
    return "".join("1" if BITS[t] == BITS.get(x.k, -1) else "0" for t in BITS)


def num(x, k, d=0):
    return x.v if x.k == k else d


def top(x):
    return "%s %s %d%d %d %d %s %s|" % (typename(x), isbits(x), x.k == "ud" and x.v[1] == 0, x.k == "ud" and x.v[1] == 1, num(x, "bool"), num(x, "int"), fbits(num(x, "float", 0.0)),
                                       x.v.split("\0")[0] if x.k == "str" else "NULL")


def slot(x):
    return "%s %s %d %d %d %s" % (typename(x), isbits(x), x.k == "ud" and x.v[1] == 0, num(x, "bool"), num(x, "int"), fbits(num(x, "float", 0.0)))


def i(n):
    return V("int", n)


def f_swap(a):
    return [i(num(a[1], "int")), i(num(a[0], "int"))]


def f_apply(a):
    return call(a[0], a[1:2])


def f_apply2(a):
    return call(a[0], a[1:3])


# the C functions of native/api.c: what they return, how many parameters they have (None: any)
CFNS = [(f_swap, 2), (lambda a: [], 0), (lambda a: [a[0]], 1), (f_apply, 2), (f_apply2, 3), (lambda a: [i(len(a))], None)]


def call(f, args):
    fn, n = f.v
    if n is not None:
        args = (args + [UNDEF] * n)[:n]
    return fn(args)


def q(s):
    return s.encode().hex() or "-"


def yasl_fns(r):
    """Functions written in YASL: declarations before them, the function, what it does."""
    c = r.randint(0, 9)
    n, w = r.randint(-50, 50), "w%d" % r.randint(0, 99)
    if c == 0:
        return "", "fn(x) { return x; }", (lambda a: [a[0]], 1)
    if c == 1:
        return "", "fn(x, y) { return y, x; }", (lambda a: [a[1], a[0]], 2)
    if c == 2:
        return "let k = %d\n" % n, "fn() { return k; }", (lambda a: [i(n)], 0)
    if c == 3:
        st = [n]

        def count(a):
            st[0] += 1
            return [i(st[0])]
        return "let d = 'x'\nlet cnt = %d\n" % n, "fn(x) { cnt = cnt + 1; return cnt; }", (count, 1)
    if c == 4:
        return "let a = 1\nlet b = 2\nlet s = '%s' ~ a\n" % w, "fn(x) { return s; }", (lambda a: [V("str", w + "1")], 1)
    if c == 5:
        return "let l = [%d, %d]\n" % (n, n + 1), "fn() { for e <- l { if e == %d { return e * 2; }; }; return 0; }" % (n + 1), (lambda a: [i(2 * n + 2)], 0)
    if c == 6:
        return "", "fn(g, x) { return g(x); }", (lambda a: call(a[0], a[1:]) if a[0].k == "fn" else None, 2)
    if c == 7:
        return "const z = %d\nfn inner(y) { return y, z; }\n" % n, "fn(x) { return inner(x); }", (lambda a: [a[0], i(n)], 1)
    if c == 8:
        return "let p = %d\n" % n, "fn(x) { let f = fn() { p = p + 2; return p; }; f(); f(); return f, x; }", None
    return "let u = '%s'\n" % w, "fn(x, y, v) { return x, y, u, v; }", (lambda a: [a[0], a[1], V("str", w), a[2]], 3)


ERRORS = [("let a = 1\nlet l = [a]\n\na = l[5]\n", 7, ["line 4"]), ("let b = 'x'\nfor c <- [1, 2] {\nlet d = [c, b]\nfor e <- d {\nlet f = e // 0\n}\n}\n", 6, ["line 5"]),
          ("fn f(x) {\nlet y = [x]\nreturn y + x\n}\nlet z = 2\nf(z)\n", 5, ["line 3", "call 6"]), ("let q = 5\nlet w = (\n", 4, None), ("let q = 5\nnosuch = 3\n", 4, ["line 2"]),
          ("fn f() {\nlet z = 1\nif true {\nlet w = z\necho nosuch\n}\n}\n", 4, ["line 5"]), ("let m = 1\nassert m == 2\n", 10, ["line 2"]), ("fn g(x) {\nreturn g(x + 1) + 1\n}\necho g(1)\n", 11, None),
          ("while true {\nlet v = [1]\nwhile v {\nlet s = v[0] ~ v[1]\n}\n}\n", 7, ["line 4"]), ("let h = fn(x) {\nlet r = x\nlet k = fn(y) {\nreturn y + r\n}\nreturn k('a')\n}\nh(3)\n", 5, None),
          ("echo arg(1.5, 2.5, true)\n", 5, ["line 1"]), ("\necho arg(1, 2, true)\n", 5, ["line 2"]), ("echo arg(1, 2.5)\n", 5, ["line 1"]), ("let n = undef\nlet t = [1, n]\nif t {\n\nfor k <- t {\nk->foo()\n}\n}\n", 7, ["line 6"])]


def show(x):
    return {"undef": "undef", "bool": "true" if x.v else "false", "int": str(x.v), "str": x.v}.get(x.k)


def history(r, steps):
    """One history: its commands, and what they print."""
    cmd, out, st = [], [], []
    glob, mts, nud, decl = {}, {}, 0, []
    held = []      # userdata that something in the model still refers to

    def do(c, o=None):
        cmd.append(c)
        if o is not None:
            out.append(str(o))

    def push(c, v):
        do(c)
        st.append(v)

    def define(name):
        do("decl " + q(name), 0)
        decl.append(name)

    def program(src, status, lines=None, kind="run"):
        do(("runq" if lines is None and status else kind) + " " + q(src))     # runq: the lines of the message are not printed
        del st[:]
        out.extend(lines or [])
        out.append("status %d" % status)

    define("arg")
    do("C 7")
    do("setg " + q("arg"), 0)
    for _ in range(steps):
        c = r.randint(0, 47)
        h = len(st)
        t = st[-1] if st else None
        if h > 12:
            for _ in range(r.randint(3, 12)):
                do("pop")
                st.pop()
            continue
        if c == 0:
            n = r.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, r.randint(-100, 100)])
            push("i %d" % n, i(n))
        elif c == 1:
            d = r.choice([0.0, -0.0, 1.5, float("inf"), float("nan"), r.uniform(-9, 9)])
            push("f %016x" % struct.unpack("<Q", struct.pack("<d", d))[0], V("float", d))
        elif c == 2:
            b = r.randint(0, 1)
            push("b %d" % b, V("bool", b))
        elif c == 3:
            push("u", UNDEF)
        elif c in (4, 5):
            s = r.choice(["", "a", "xyz", "long " * 9, "q%d" % r.randint(0, 9)])
            push(("s " if c == 4 else "z ") + q(s) if s else "s", V("str", s))
        elif c == 6:
            k = r.randint(0, 2)
            push("lit %d" % k, V("str", TAGS[k]))
        elif c in (7, 8):
            push("L", V("list", []))
        elif c in (9, 10):
            push("T", V("table", {}))
        elif c == 11:
            k = r.randint(0, 63)
            push("P %d" % k, V("userptr", k))
        elif c == 12 and nud < 60:
            k = r.randint(0, 2)
            push("D %d %d" % (nud, k), V("ud", (nud, k)))
            nud += 1
        elif c == 13:
            k = r.randint(0, 5)
            push("C %d" % k, V("fn", CFNS[k]))
        elif c in (14, 15, 16):
            if not t:
                continue
            op = r.choice(["pop", "popint", "popbool", "popfloat", "popcstr", "top", "dup", "popud", "popptr"])
            if op == "popud" and t.k != "ud" or op == "popptr" and t.k != "userptr":
                continue
            if op == "top":
                do(op, top(t))
            elif op == "dup":
                do(op, 0)
                st.append(t)
            else:
                do(op, {"pop": None, "popint": num(t, "int"), "popbool": num(t, "bool"), "popfloat": fbits(num(t, "float", 0.0)), "popcstr": t.v.split("\0")[0] if t.k == "str" else "NULL"}.get(op, t.v[0] if t.k == "ud" else t.v))
                st.pop()
        elif c in (17, 18, 19):
            if h:
                k = r.randrange(h)
                do("n %d" % k, slot(st[k]))
        elif c == 20:
            do("height", h)
        elif c in (21, 22, 23, 24):
            if h < 2:
                continue
            ok = st[-2].k == "list"
            if not ok and r.random() < .8 or any(x is st[-2] for x in walk(t)):
                continue
            do("listpush", 0 if ok else 5)
            v = st.pop()
            if ok:
                st[-1].v.append(v)
        elif c in (25, 26, 27, 28):
            tabs = [x for x in st if x.k == "table"]
            if not tabs:
                continue
            if h > 2 and st[-3].k == "table" and r.random() < .5:
                if st[-2].k not in ("int", "str", "list", "table") or any(x is st[-3] for x in walk(t)):
                    continue
            elif t.k == "table":
                k = r.choice([i(r.randint(0, 9)), V("str", "k%d" % r.randint(0, 5)), V("list", [])])
                push("L" if k.k == "list" else "i %d" % k.v if k.k == "int" else "s " + q(k.v), k)
                if r.random() < .3:
                    push("u", UNDEF)
                else:
                    n = r.randint(0, 99)
                    push("i %d" % n, i(n))
            else:
                continue
            v, k = st.pop(), st.pop()
            d = st[-1].v
            if v.k == "undef":
                do("tableset", 0)
                d.pop((k.k, k.v) if k.k in ("int", "str") else None, None)
            elif k.k in ("int", "str"):
                do("tableset", 0)
                d[(k.k, k.v)] = v
            else:
                do("tableset", 5)
        elif c in (29, 30, 31):
            if not t:
                continue
            if t.k == "list":
                if t.v and r.random() < .7:
                    k = r.randrange(-len(t.v), len(t.v))
                    do("listget %d" % k, 0)
                    st.append(t.v[k])
                else:
                    do("len")
                    st[-1] = i(len(t.v))
            elif t.k == "table":
                if r.random() < .6:
                    x = sum(3 * num(v, "int") + (1000 + ord(k[1][0]) if k[0] == "str" else k[1]) for k, v in t.v.items() if k != ("str", ""))
                    if ("str", "") in t.v:
                        continue
                    x &= 2 ** 64 - 1
                    x -= 2 ** 64 * (x >> 63)
                    do("iter", "%d %d" % (len(t.v), x))
                else:
                    do("len")
                    st[-1] = i(len(t.v))
            elif t.k == "str":
                do("len")
                st[-1] = i(len(t.v))
            else:
                do("listget 0", 5)
        elif c in (32, 33):
            name = r.choice(["ga", "gb", "gc"])
            if name not in decl and r.random() < .7:
                define(name)
            if h and name not in decl:
                do("setg " + q(name), 2)
            elif h:
                do("setg " + q(name), 0)
                glob[name] = st.pop()
        elif c in (34, 35):
            name = r.choice(["ga", "gb", "gc", "gd"])
            do("loadg " + q(name), 0 if name in glob else 2)
            if name in glob:
                st.append(glob[name])
        elif c == 36:
            name = r.choice(["ma", "mb"])
            if t and t.k == "table" and r.random() < .5:
                do("regmt " + q(name), 0)
                mts[name] = st.pop()
            else:
                do("loadmt " + q(name), 0 if name in mts else 2)
                if name in mts:
                    st.append(mts[name])
        elif c in (37, 38):
            if h < 2:
                continue
            okm, okv = t.k in ("table", "undef"), st[-2].k in ("ud", "list", "table")
            if okm and any(x is st[-2] for x in walk(t)):
                continue
            if okm and okv and st[-2].k != "ud":
                continue    # would change what lists and tables can do
            do("setmt", 0 if okm and okv else 5)
            if okm:
                st.pop()
                if okv:
                    st[-1].mt = t if t.k == "table" else None
        elif c in (39, 40, 41, 42):
            fs = [k for k, x in enumerate(st) if x.k == "fn" and k >= h - 5]
            if not fs:
                continue
            k = fs[-1] if r.random() < .6 else r.choice(fs)
            f, args = st[k], st[k + 1:]
            if not safe(f, args):
                continue
            res = call(f, args)
            do("call %d" % len(args), len(res))
            del st[k:]
            st.extend(res)
        elif c in (43, 44):
            name = r.choice(["ga", "gb", "gc"])
            if name not in decl:
                define(name)
            pre, src, fn = yasl_fns(r)
            if fn is None:
                continue
            program("\n" * r.randint(0, 3) + pre + "%s = %s\n" % (name, src), 0)
            program("", 0)      # a finished program leaves its variables on the stack
            glob[name] = V("fn", fn)
        elif c == 45:
            src, status, lines = r.choice(ERRORS)
            program(src, status, lines)
            program("", 0)
        elif c == 46:
            name = r.choice(["ga", "gb", "gc"])
            s = show(glob[name]) if name in glob else None
            if s is None or "\n" in s:
                continue
            do("run " + q("let v = 1\nlet w = %s\necho w\n" % name))
            del st[:]
            out += [s, "status 0"]
            program("", 0)
        elif c == 47:
            n = r.randint(0, 99)
            do("repl " + q("%d + %d\n" % (n, n)))
            del st[:]
            out += [str(2 * n), "status 0"]
        # what the model refers to is alive
        if nud and r.random() < .1:
            live = {x.v[0] for y in st + list(glob.values()) + list(mts.values()) for x in walk(y) if x.k == "ud"}
            if live:
                k = r.choice(sorted(live))
                do("dead %d" % k, 0)
    out.append("dead" + "".join(" %d:1" % k for k in range(nud)))
    return "\n".join(cmd), out


def walk(x, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    yield x
    if x.mt:
        yield from walk(x.mt, seen)
    for y in x.v if x.k == "list" else x.v.values() if x.k == "table" else ():
        yield from walk(y, seen)


def safe(f, args, depth=0):
    """The call ends without an error (one would leave the history)."""
    fn, n = f.v
    if n is not None:
        args = (args + [UNDEF] * n)[:n]
    if fn in (f_apply, f_apply2):
        if args[0].k != "fn" or depth > 5:
            return False
        return safe(args[0], args[1:], depth + 1)
    if n == 2 and fn.__code__.co_consts and "fn" in fn.__code__.co_consts:
        return args[0].k == "fn" and depth < 5 and safe(args[0], args[1:], depth + 1)
    return True


def api_histories(s, r, n, steps=60):
    for _ in range(n):
        cmd, out = history(r, r.randint(5, steps))
        s.add(cmd, "\n".join(out) + "\n", 0, "C API: random histories of calls", leak=False)
