"""Programs on containers and strings with Python as the oracle (C04..C09)."""
import math
from snip import *
import yasl as Y


class Prog:
    """Collects a program and its output."""
    def __init__(self):
        self.src, self.out = [], []

    def do(self, line):
        self.src.append(line)

    def echo(self, expr, val):
        self.src.append("echo " + expr)
        self.out.append(val if isinstance(val, str) else Y.show(val))

    def add(self, s, about, status=0, leak=False):
        s.add("\n".join(self.src), "".join(o + "\n" for o in self.out), status, about, leak)


def norm(k):
    """Keys that are the same key of a table: same type, equal."""
    return (type(k).__name__, k + 0.0 if isinstance(k, float) else k)


STRS = ["", "a", "b", "ab", "ba", "aa", "A", "key", "0", "1", "true", "\xe9", "abc", "undef"]


def rkey(r, dom):
    if dom == "int":
        return r.randint(-5, 40)
    if dom == "seq":
        return r.randint(0, 150)
    if dom == "wide":
        return r.choice([1, 31, 61, 127, 2 ** 16, 2 ** 32, 2 ** 48, 62, 93]) * r.randint(-8, 8)
    if dom == "str":
        return r.choice("abcdk") + str(r.randint(0, 60))
    k = r.random()
    if k < .35:
        return r.randint(-3, 6)
    if k < .55:
        return r.choice([0.0, -0.0, 1.0, 1.5, -1.0, 2.0, 0.5, math.inf, 1e300])
    if k < .65:
        return r.random() < .5
    return r.choice(STRS)


def table_programs(s, r, n, steps=70):
    for _ in range(n):
        p, doms = Prog(), r.choice([["int"], ["seq"], ["wide"], ["str"], ["mix"], ["mix", "int"], ["str", "int"]])
        t, other = {}, {}
        p.do("let t = {}")
        p.do("let u = t")
        p.do("let o = {}")
        steps_ = r.choice([12, steps, steps * 3])
        bias = r.choice([.75, .5, .3])
        for k in range(steps_):
            key = rkey(r, r.choice(doms))
            nk = norm(key)
            l = Y.lit(key)
            c = r.random()
            if k > steps_ * 2 // 3:
                bias = .15
            if c < .45:
                if r.random() < bias:
                    v = r.choice([r.randint(-99, 99), r.choice(["x", "yy", ""]), True, 1.5])
                    p.do("%s[%s] = %s" % (r.choice("tu"), l, Y.lit(v)))
                    t[nk] = (key, v)
                elif r.random() < .5:
                    p.do("%s[%s] = undef" % (r.choice("tu"), l))
                    t.pop(nk, None)
                else:
                    p.do("%s->remove(%s)" % (r.choice("tu"), l))
                    t.pop(nk, None)
            elif c < .75:
                p.echo("%s[%s]" % (r.choice("tu"), l), t[nk][1] if nk in t else Y.undef)
            elif c < .85:
                p.echo("len t", len(t))
            elif c < .89:
                p.do("o = t->copy()")
                other = dict(t)
                p.echo("len o", len(other))
            elif c < .93:
                p.echo("o[%s]" % l, other[nk][1] if nk in other else Y.undef)
                p.echo("o == t", {a: b[1] for a, b in other.items()} == {a: b[1] for a, b in t.items()})
            elif c < .96:
                p.do("let m%d = t | o" % k)
                m = dict(t)
                m.update(other)
                p.echo("len m%d" % k, len(m))
                p.echo("m%d[%s]" % (k, l), m[nk][1] if nk in m else Y.undef)
                p.echo("m%d == t" % k, {a: b[1] for a, b in m.items()} == {a: b[1] for a, b in t.items()})
            elif c < .965:
                p.do("t->clear()")
                t = {}
            else:
                # every key is visited once, with its value
                p.do("let c%d = 0\nlet d%d = 0\nfor k <- t {\n c%d += 1\n if t[k] == undef {\n d%d += 1\n}\n}" % (k, k, k, k))
                p.echo("c%d" % k, len(t))
                p.echo("d%d" % k, 0)
                p.echo("len t->keys()", len(t))
                p.echo("len t->values()", len(t))
        for nk, (key, v) in list(t.items())[:40]:
            p.echo("t[%s]" % Y.lit(key), v)
        if doms in (["int"], ["seq"], ["wide"]):
            p.do("let ks = t->keys()\nks->sort()")
            p.echo("ks", sorted(k for _, k in t))
        if doms == ["str"]:
            p.do("let ks = t->keys()\nks->sort()")
            p.echo("ks->join(',')", ",".join(sorted((k for _, k in t), key=lambda x: x.encode())))
        p.add(s, "tables against a finite map")
    # bad keys
    for bad in ("[]", "{}", "fn() { return 1; }", "undef"):
        s.add("let t = {}\nt[%s] = 1" % bad, "", 5, "a key that is not hashable")
        s.add("let t = { 1: 2 }\necho t[%s]" % bad, "undef\n", 0, "a key that is not hashable is not found")
    # growing and shrinking, with keys that are computed
    for mul, cnt in ((1, 400), (7, 300), (31, 300), (65536, 200), (4294967296, 300), (61, 800)):
        p = Prog()
        p.do("let t = {}\nfor let i = 0; i < %d; i += 1 {\n t[i * %d] = i + 1\n}" % (cnt, mul))
        p.echo("len t", cnt)
        p.do("let s = 0\nlet bad = 0\nfor let i = 0; i < %d; i += 1 {\n s += t[i * %d]\n if t[i * %d + 1] !== undef && %d > 1 {\n bad += 1\n}\n}" % (cnt, mul, mul, mul))
        p.echo("s", cnt * (cnt + 1) // 2)
        p.echo("bad", 0)
        p.do("for let i = 0; i < %d; i += 1 {\n if i %% 10 != 3 {\n t->remove(i * %d)\n}\n}" % (cnt, mul))
        keep = [i for i in range(cnt) if i % 10 == 3]
        p.echo("len t", len(keep))
        p.do("s = 0\nfor k <- t {\n s += t[k]\n}")
        p.echo("s", sum(i + 1 for i in keep))
        p.do("for let i = 0; i < %d; i += 1 {\n t->remove(i * %d)\n}" % (cnt, mul))
        p.echo("len t", 0)
        p.echo("len t->keys()", 0)
        p.add(s, "growing and shrinking tables")
    # the same few keys in and out, many times over
    p = Prog()
    p.do("let t = {}\nlet bad = 0\nfor let i = 0; i < 3000; i += 1 {\n t[i] = i\n if i >= 5 {\n t->remove(i - 5)\n}\n if t[i] != i || t[i - 6] !== undef {\n bad += 1\n}\n}")
    p.echo("bad", 0)
    p.echo("len t", 5)
    p.add(s, "a table used as a queue")


def set_programs(s, r, n, steps=60):
    for _ in range(n):
        p, dom = Prog(), r.choice(["int", "seq", "wide", "str", "mix", "mix"])
        a, b = {}, {}
        p.do("let a = collections.set()\nlet b = collections.set()")
        for k in range(r.choice([15, steps, steps * 2])):
            key = rkey(r, dom)
            nk, l = norm(key), Y.lit(key)
            c, w = r.random(), r.choice("ab")
            x = a if w == "a" else b
            if c < .4:
                p.do("%s->add(%s)" % (w, l))
                x.setdefault(nk, key)
            elif c < .55:
                p.do("%s->remove(%s)" % (w, l))
                x.pop(nk, None)
            elif c < .65:
                p.echo("%s[%s]" % (w, l), nk in x)
            elif c < .7:
                p.echo("len %s" % w, len(x))
            elif c < .95:
                A, B = set(a), set(b)
                op, res = r.choice([("|", A | B), ("&", A & B), ("^", A ^ B), ("&^", A - B)])
                p.do("let s%d = a %s b" % (k, op))
                p.echo("len s%d" % k, len(res))
                p.echo("s%d[%s]" % (k, l), nk in res)
                if dom in ("int", "seq", "wide"):
                    p.do("let l%d = s%d->tolist()\nl%d->sort()" % (k, k, k))
                    p.echo("l%d" % k, sorted(x[1] for x in res))
                elif dom == "str":
                    p.do("let l%d = s%d->tolist()\nl%d->sort()" % (k, k, k))
                    p.echo("l%d" % k, sorted((x[1] for x in res), key=lambda q: q.encode()))
                c2, f = r.choice([("==", A == B), ("<", A < B), ("<=", A <= B), (">", A > B), (">=", A >= B)])
                p.echo("a %s b" % c2, f)
                p.echo("s%d %s a" % (k, c2), {"==": res == A, "<": res < A, "<=": res <= A, ">": res > A, ">=": res >= A}[c2])
                p.echo("a %s s%d" % (c2, k), {"==": res == A, "<": A < res, "<=": A <= res, ">": A > res, ">=": A >= res}[c2])
            elif c < .97:
                p.do("b = a->copy()")
                b = dict(a)
                p.echo("a == b", True)
            elif c < .98:
                p.do("b = collections.set([%s])" % ", ".join(Y.lit(v) for v in a.values()))
                b = dict(a)
                p.echo("a == b", True)
            elif c < .985:
                p.do("%s->clear()" % w)
                x.clear()
        for nk, key in list(a.items())[:30]:
            p.echo("a[%s]" % Y.lit(key), True)
        p.echo("len a", len(a))
        p.add(s, "sets against the algebra of finite sets")
    for mul, cnt in ((1, 400), (31, 300), (65536, 200), (61, 600)):
        p = Prog()
        p.do("let t = collections.set()\nfor let i = 0; i < %d; i += 1 {\n t->add(i * %d)\n}" % (cnt, mul))
        p.echo("len t", cnt)
        p.do("let bad = 0\nfor let i = 0; i < %d; i += 1 {\n if !t[i * %d] {\n bad += 1\n}\n}" % (cnt, mul))
        p.echo("bad", 0)
        p.do("for let i = 0; i < %d; i += 1 {\n if i %% 10 != 3 {\n t->remove(i * %d)\n}\n}" % (cnt, mul))
        p.echo("len t", len([i for i in range(cnt) if i % 10 == 3]))
        p.do("bad = 0\nfor let i = 0; i < %d; i += 1 {\n if t[i * %d] != (i %% 10 == 3) {\n bad += 1\n}\n}" % (cnt, mul))
        p.echo("bad", 0)
        p.add(s, "growing and shrinking sets")
    p = Prog()
    p.do("let t = collections.set()\nlet bad = 0\nfor let i = 0; i < 3000; i += 1 {\n t->add(i)\n if i >= 5 {\n t->remove(i - 5)\n}\n if !t[i] || t[i - 6] {\n bad += 1\n}\n}")
    p.echo("bad", 0)
    p.echo("len t", 5)
    p.add(s, "a set used as a queue")


def relem(r):
    return r.choice([r.randint(-9, 9), r.choice(["p", "qq", ""]), r.random() < .5, Y.undef, r.choice([0.5, 1.5, -2.0])])


def list_programs(s, r, n, steps=60):
    for _ in range(n):
        p = Prog()
        ls, o = [], []
        p.do("let l = []\nlet u = l\nlet o = []")
        grow = r.choice([.35, .6])
        for k in range(r.choice([15, steps, steps * 3])):
            c = r.random()
            w = r.choice("lu")
            if c < grow:
                v = relem(r)
                if r.random() < .6 or not ls:
                    p.do("%s->push(%s)" % (w, Y.lit(v)))
                    ls.append(v)
                else:
                    i = r.randint(-len(ls), len(ls))
                    p.do("%s->insert(%d, %s)" % (w, i, Y.lit(v)))
                    ls.insert(i, v)
            elif c < grow + .08:
                if ls:
                    p.echo("%s->pop()" % w, ls.pop())
            elif c < grow + .16:
                if ls:
                    i, v = r.randint(-len(ls), len(ls) - 1), relem(r)
                    p.do("%s[%d] = %s" % (w, i, Y.lit(v)))
                    ls[i] = v
            elif c < grow + .2:
                p.do("%s->reverse()" % w)
                ls.reverse()
            elif c < grow + .24:
                p.do("o = %s->copy()" % w)
                o = list(ls)
            elif c < grow + .28:
                v = relem(r)
                p.echo("%s->count(%s)" % (w, Y.lit(v)), sum(1 for x in ls if Y.eq(x, v)))
                at = [i for i, x in enumerate(ls) if Y.eq(x, v)]
                if len(at) < 2:
                    p.echo("%s->search(%s)" % (w, Y.lit(v)), at[0] if at else Y.undef)
            elif c < grow + .31:
                sep = r.choice(["", ",", "--"])
                p.echo("%s->join(%s)" % (w, Y.lit(sep)), sep.join(Y.show(x) for x in ls))
            elif c < grow + .34:
                p.echo("(%s + o)" % w, ls + o)
                p.echo("%s == o" % w, len(ls) == len(o) and all(Y.eq(a, b) for a, b in zip(ls, o)))
            elif c < grow + .36:
                p.echo("len %s" % w, len(ls))
            elif c < grow + .37:
                p.do("%s->clear()" % w)
                ls.clear()
            else:
                if ls:
                    i = r.randint(-len(ls), len(ls) - 1)
                    p.echo("%s[%d]" % (w, i), ls[i])
        p.echo("l", ls)
        p.echo("o", o)
        p.add(s, "lists against sequences")
    for what in ("[]->pop()", "[1, 2]->insert(3, 0)", "[1, 2]->insert(-3, 0)", "[]->insert(1, 0)"):
        s.add("let x = %s" % what, "", 7, "a position outside the list")
    p = Prog()
    p.do("let l = []\nfor let i = 0; i < 2000; i += 1 {\n l->push(i)\n}\nlet bad = 0\nfor let i = 0; i < 2000; i += 1 {\n if l[i] != i {\n bad += 1\n}\n}")
    p.echo("bad", 0)
    p.do("l->reverse()\nfor let i = 0; i < 2000; i += 1 {\n if l->pop() != i {\n bad += 1\n}\n}")
    p.echo("bad", 0)
    p.echo("len l", 0)
    p.do("for let i = 0; i < 500; i += 1 {\n l->insert(0, i)\n}\nfor let i = 0; i < 500; i += 1 {\n if l[i] != 499 - i {\n bad += 1\n}\n}")
    p.echo("bad", 0)
    p.add(s, "long lists")


def sort_programs(s, r, n):
    for _ in range(n):
        p = Prog()
        for k in range(6):
            cnt = r.choice([0, 1, 2, 3, 4, 5, 8, 13, 30, 100])
            kind = r.choice(["i", "I", "f", "s", "mix", "two", "desc"])
            if kind == "i":
                ls = [r.randint(-5, 5) for _ in range(cnt)]
            elif kind == "I":
                ls = [Y.rint(r) for _ in range(cnt)]
            elif kind == "f":
                ls = [r.choice([x for x in Y.FLOATS if x == x and x != 0]) for _ in range(cnt)]
            elif kind == "s":
                ls = [r.choice(["", "a", "b", "ab", "abc", "B", "\xe9", "z", "\x01", "\x7f", "aa"]) for _ in range(cnt)]
            elif kind == "mix":
                ls = [r.choice([r.randint(-40, 40), r.randint(-40, 40) + .5]) for _ in range(cnt)]
            elif kind == "two":
                ls = [r.choice([3, 4]) for _ in range(cnt)]
            else:
                ls = list(range(cnt, 0, -1))
            p.do("let l%d = %s\nl%d->sort()" % (k, Y.lit(ls), k))
            p.echo("l%d->join('|')" % k, "|".join(Y.show(x) for x in sorted(ls, key=lambda x: x.encode() if isinstance(x, str) else x)))
        ls = [r.choice(["a\0", "a", "a\0b", "a\0ac", "a\0aab", "", "\0", "\0\0", "a\0aaba", "\0a", "b"]) for _ in range(r.choice([2, 5, 9]))]
        lit = lambda x: "'" + x.replace("\0", "\\0") + "'"
        p.do("let nl = [%s]\nnl->sort()" % ", ".join(map(lit, ls)))
        for i, x in enumerate(sorted(ls)):
            p.echo("nl[%d] == %s" % (i, lit(x)), "true")
        p.add(s, "sorted lists")
    for seed, cnt, mod in ((1, 1000, 7), (5, 1500, 1000003), (9, 700, 2), (3, 900, 100)):
        p = Prog()
        x, ls = seed, []
        for _ in range(cnt):
            x = (x * 1103515245 + 12345) % 2147483648
            ls.append(x // 7 % mod)
        p.do("let l = []\nlet x = %d\nfor let i = 0; i < %d; i += 1 {\n x = (x * 1103515245 + 12345) %% 2147483648\n l->push(x // 7 %% %d)\n}\nl->sort()" % (seed, cnt, mod))
        h = 0
        for v in sorted(ls):
            h = (h * 31 + v) % 1000000007
        p.do("let h = 0\nfor v <- l {\n h = (h * 31 + v) %% 1000000007\n}" .replace("%%", "%"))
        p.echo("h", h)
        p.echo("len l", cnt)
        p.add(s, "sorting long lists")
    for bad in ("[1, 'a']", "['a', 1]", "[undef]", "[1, [2]]", "['a', 'b', true]", "[1.5, 'x', 2]"):
        s.add("let l = %s\nl->sort()\necho 'not reached'" % bad, "", 7, "a list that cannot be sorted")


def blit(b):
    r = "'"
    for c in b:
        if c in b"'\\":
            r += "\\" + chr(c)
        elif 32 <= c < 127 and c != 35:
            r += chr(c)
        else:
            r += "\\x%02x" % c
    return r + "'"


WS = b" \t\n\v\r"


def bstr(r, n, alpha=None):
    alpha = alpha or r.choice([b"ab", b"a b\t", b"aAzZ09 ", bytes(range(256)), b"ab,", b"\xff\x80a"])
    return bytes(r.choice(alpha) for _ in range(r.randint(0, n)))


def replace_n(h, n, w, mx):
    out, i = b"", 0
    while i < len(h):
        if h.startswith(n, i) and mx > 0:
            out += w
            i += len(n)
            mx -= 1
        else:
            out += h[i:i + 1]
            i += 1
    return out


def rep_trim(h, n, left, right):
    while left and n and h.startswith(n):
        h = h[len(n):]
    while right and n and h.endswith(n):
        h = h[:len(h) - len(n)]
    return h


def string_programs(s, r, n, methods=None):
    ALL = ["toupper", "tolower", "trim", "ltrim", "rtrim", "dtrim", "split", "dsplit", "replace", "nreplace", "count", "search", "startswith", "endswith", "rep",
           "isal", "isnum", "isalnum", "isspace", "concat", "len", "index", "slice", "iter", "eq"]
    for _ in range(n):
        src, out = [], b""

        def echo(e, v):
            nonlocal out
            src.append("echo " + e)
            out += (v if isinstance(v, bytes) else Y.show(v).encode()) + b"\n"
        for k in range(25):
            a = r.choice([b"a", b"ab", b"ba", bstr(r, 3), b" ", b"aa"])
            h = r.choice([bstr(r, 12), a * r.randint(0, 4) + bstr(r, 5) + a * r.randint(0, 3)])
            heap = r.random() < .5
            # the string as a literal, a piece of one, or built on the heap
            how = r.random()
            nm = "s%d" % k
            if how < .4:
                src.append("let %s = %s" % (nm, blit(h)))
            elif how < .7:
                x, y = bstr(r, 3), bstr(r, 3)
                src.append("let %s = (%s)[%d:%d]" % (nm, blit(x + h + y), len(x), len(x) + len(h)))
            else:
                c = r.randint(0, len(h))
                src.append("let %s = %s ~ %s" % (nm, blit(h[:c]), blit(h[c:])))
            m = r.choice(methods or ALL)
            A = blit(a)
            if m == "toupper":
                echo(nm + "->toupper()", bytes(c - 32 if 97 <= c <= 122 else c for c in h))
            elif m == "tolower":
                echo(nm + "->tolower()", bytes(c + 32 if 65 <= c <= 90 else c for c in h))
            elif m == "dtrim":
                w = r.choice(["trim", "ltrim", "rtrim"])
                echo("'<' ~ %s->%s() ~ '>'" % (nm, w), b"<" + (h.strip(WS) if w == "trim" else h.lstrip(WS) if w == "ltrim" else h.rstrip(WS)) + b">")
            elif m in ("trim", "ltrim", "rtrim"):
                echo("'<' ~ %s->%s(%s) ~ '>'" % (nm, m, A), b"<" + rep_trim(h, a, m != "rtrim", m != "ltrim") + b">")
            elif m == "split" and a:
                ps = h.split(a)
                echo("%s->split(%s)" % (nm, A), b"[" + b", ".join(ps) + b"]")
                echo("len (%s->split(%s))" % (nm, A), len(ps))
            elif m == "dsplit":
                ps, cur = [], b""
                for c in h:
                    if c in WS:
                        if cur:
                            ps.append(cur)
                        cur = b""
                    else:
                        cur += bytes([c])
                if cur:
                    ps.append(cur)
                echo("%s->split()" % nm, b"[" + b", ".join(ps) + b"]")
                echo("len (%s->split())" % nm, len(ps))
            elif m == "replace" and a:
                w = bstr(r, 3)
                echo("%s->replace(%s, %s)" % (nm, A, blit(w)), h.replace(a, w))
            elif m == "nreplace" and a:
                w, mx = bstr(r, 3), r.randint(-1, 3)
                echo("%s->replace(%s, %s, %d)" % (nm, A, blit(w), mx), replace_n(h, a, w, mx))
            elif m == "count" and a:
                echo("%s->count(%s)" % (nm, A), h.count(a))
            elif m == "search":
                i = h.find(a)
                echo("%s->search(%s)" % (nm, A), i if i >= 0 else Y.undef)
            elif m == "startswith":
                echo("%s->startswith(%s)" % (nm, A), h.startswith(a))
            elif m == "endswith":
                echo("%s->endswith(%s)" % (nm, A), h.endswith(a))
            elif m == "rep":
                k2 = r.randint(0, 5)
                echo("%s->rep(%d)" % (nm, k2), h * k2)
            elif m == "isal":
                echo(nm + "->isal()", all(65 <= c <= 90 or 97 <= c <= 122 for c in h))
            elif m == "isnum":
                echo(nm + "->isnum()", all(48 <= c <= 57 for c in h))
            elif m == "isalnum":
                echo(nm + "->isalnum()", all(65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57 for c in h))
            elif m == "isspace":
                echo(nm + "->isspace()", all(c in WS for c in h))
            elif m == "concat":
                echo("%s ~ %s ~ %s" % (A, nm, A), a + h + a)
            elif m == "len":
                echo("len " + nm, len(h))
            elif m == "eq":
                echo("%s == %s" % (nm, A), h == a)
                echo("%s < %s" % (nm, A), h < a)
            elif m == "index" and h:
                i = r.randint(-len(h), len(h) - 1)
                echo("%s[%d]" % (nm, i), bytes([h[i]]))
            elif m == "slice":
                i, j = r.randint(-14, 14), r.randint(-14, 14)
                t = r.choice(["%d:%d" % (i, j), "%d:" % i, ":%d" % j, ":"])
                lo = 0 if t.startswith(":") else max(0, min(len(h), i + len(h) if i < 0 else i))
                hi = len(h) if t.endswith(":") else max(0, min(len(h), j + len(h) if j < 0 else j))
                echo("'<' ~ %s[%s] ~ '>'" % (nm, t), b"<" + h[lo:hi] + b">")
            elif m == "iter":
                src.append("let c%d = 0\nfor c <- %s {\n echo '[' ~ c ~ ']'\n c%d += len c\n}" % (k, nm, k))
                out += b"".join(b"[%c]\n" % c for c in h)
                echo("c%d" % k, len(h))
            # the string itself stays as it is
            if r.random() < .4:
                echo(nm, h)
        # echo leaves out NUL bytes
        s.add("\n".join(src), out.replace(b"\0", b"").decode("utf-8", "replace"), 0, "strings against byte sequences")


def string_errors(s):
    for e in ("'abc'->split('')", "'abc'->replace('', 'x')", "'abc'->count('')", "'abc'->rep(-1)", "'abc'->replace('', 'x', 2)"):
        s.add("let x = %s" % e, "", 7, "an argument outside the domain of a string method")
    for e in ("'abc'->split(1)", "'abc'->replace('a', 1)", "'abc'->count(1)", "'abc'->rep('a')", "'abc'->trim(1)", "'abc'->search(1)", "'abc'->startswith(2)"):
        s.add("let x = %s" % e, "", 5, "an argument of the wrong type")


def index_programs(s, r, n):
    for _ in range(n):
        p = Prog()
        for k in range(10):
            cnt = r.choice([0, 1, 2, 3, 5, 8])
            ls = [relem(r) for _ in range(cnt)]
            p.do("let l%d = %s" % (k, Y.lit(ls)))
            i, j = r.choice([r.randint(-9, 9), r.choice([-2 ** 63, 2 ** 63 - 1, 2 ** 32, -2 ** 31])]), r.choice([r.randint(-9, 9), r.choice([-2 ** 63, 2 ** 63 - 1])])
            t = r.choice([(Y.ilit(i), Y.ilit(j)), (Y.ilit(i), ""), ("", Y.ilit(j)), ("", "")])
            lo = 0 if t[0] == "" else max(0, min(cnt, i + cnt if i < 0 else i))
            hi = cnt if t[1] == "" else max(0, min(cnt, j + cnt if j < 0 else j))
            p.do("let q%d = l%d[%s:%s]" % (k, k, t[0], t[1]))
            p.echo("q%d" % k, ls[lo:hi])
            p.echo("len q%d" % k, len(ls[lo:hi]))
            p.do("q%d->push(7)" % k)
            p.echo("len l%d" % k, cnt)
            if cnt:
                i = r.randint(-cnt, cnt - 1)
                p.echo("l%d[%s]" % (k, Y.ilit(i)), ls[i])
            p.do("let n%d = 0\nfor x <- l%d {\n echo x\n n%d += 1\n}" % (k, k, k))
            p.out += [Y.show(x) for x in ls]
            p.echo("n%d" % k, cnt)
            f = [x for x in ls if Y.truthy(x)]
            p.echo("[ [x, 1] for x <- l%d if x ]" % k, [[x, 1] for x in f])
        p.add(s, "indexing, slices and iteration over lists")
    for _ in range(n):
        cnt = r.choice([0, 1, 3, 6])
        i = r.choice([cnt, -cnt - 1, cnt + r.randint(0, 5), -cnt - 1 - r.randint(0, 5), 2 ** 63 - 1, -2 ** 63, 2 ** 32 + 1])
        v = r.choice([Y.lit(list(range(cnt))), Y.lit("x" * cnt)])
        s.add("let v = %s\nlet i = %s\necho v[i]" % (v, Y.ilit(i)), "", 7, "an index outside the value")
        s.add("let v = %s\nlet i = %s\nv[i] = 1" % (Y.lit(list(range(cnt))), Y.ilit(i)), "", 7, "an index outside the list")
    for e in ("[1][true]", "[1][1.0]", "'a'['a']", "[1]['a':]", "'abc'[1.0:2]", "'abc'[:false]", "[1, 2][0:'x']"):
        s.add("let x = %s" % e, "", 5, "an index that is not an int")
    for e in ("5", "1.5", "true", "undef", "fn() { return 1; }"):
        s.add("let v = %s\nfor x <- v {\n echo 1\n}" % e, "", 5, "iteration over a value that is not iterable")


def alias_programs(s, r, n, kind, leak=False):
    """Several variables, some of them the same container: what makes a new one and what does not, operands stay as they are."""
    for _ in range(n):
        p = Prog()
        names = list("abcd")
        new = {"list": "[]", "table": "{}", "set": "collections.set()"}[kind]
        var = {}
        for v in names:
            p.do("let %s = %s" % (v, new))
            var[v] = [] if kind == "list" else {} if kind == "table" else set()
        for k in range(r.choice([12, 40])):
            v, w, x = r.choice(names), r.choice(names), r.choice(names)
            c = r.random()
            e = r.randint(0, 5)
            if c < .08:
                p.do("%s = %s" % (v, w))
                var[v] = var[w]
            elif c < .14:
                p.do("%s = %s" % (v, new))
                var[v] = type(var[v])()
            elif c < .24:
                p.do("%s = %s->copy()" % (v, w))
                var[v] = type(var[w])(var[w])
            elif c < .5:
                A, B = var[w], var[x]
                if kind == "list":
                    if len(A) + len(B) > 40:
                        continue
                    if r.random() < .6:
                        p.do("%s = %s + %s" % (v, w, x))
                        var[v] = A + B
                    elif r.random() < .5:
                        p.do("%s = [ q for q <- %s ]" % (v, w))
                        var[v] = list(A)
                    else:
                        i = r.randint(0, len(A))
                        j = r.randint(i, len(A))
                        p.do("%s = %s[%d:%d]" % (v, w, i, j))
                        var[v] = A[i:j]
                elif kind == "table":
                    p.do("%s = %s | %s" % (v, w, x))
                    var[v] = {**A, **B}
                else:
                    op, res = r.choice([("|", A | B), ("&", A & B), ("^", A ^ B), ("&^", A - B)])
                    p.do("%s = %s %s %s" % (v, w, op, x))
                    var[v] = res
            elif c < .6:
                if kind == "list" and len(var[v]) and r.random() < .5:
                    p.echo("%s->pop()" % v, var[v].pop())
                elif kind == "list":
                    p.do("%s->reverse()" % v)
                    var[v].reverse()
                else:
                    p.do("%s->remove(%d)" % (v, e))
                    (var[v].pop if kind == "table" else lambda a, b: var[v].discard(a))(e, None)
            elif c < .63:
                p.do("%s->clear()" % v)
                var[v].clear()
            elif kind == "list":
                p.do("%s->push(%d)" % (v, e))
                var[v].append(e)
            elif kind == "table":
                p.do("%s[%d] = %d" % (v, e, k))
                var[v][e] = k
            else:
                p.do("%s->add(%d)" % (v, e))
                var[v].add(e)
            if k % 4 == 0 or kind == "list":
                for v in names:
                    if kind == "list":
                        p.echo(v, var[v])
                    else:
                        p.echo("len " + v, len(var[v]))
                        for e in range(6):
                            p.echo("%s[%d]" % (v, e), (var[v].get(e, Y.undef) if kind == "table" else e in var[v]))
                v, w = r.choice(names), r.choice(names)
                p.echo("%s === %s" % (v, w), var[v] is var[w])
                p.echo("%s == %s" % (v, w), var[v] == var[w])
        p.add(s, "containers under several names", leak=leak)


def alias_list(s, r, n): alias_programs(s, r, n, "list")
def alias_table(s, r, n): alias_programs(s, r, n, "table")
def alias_set(s, r, n): alias_programs(s, r, n, "set")


def strindex_programs(s, r, n):
    """Indexing, slices and iteration over strings (bytes) and over tables and sets."""
    for _ in range(n):
        p = Prog()
        for k in range(10):
            b = "".join(r.choice("abcXYZ 019") for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20])))
            cnt = len(b)
            base = r.random() < .4
            if base:
                p.do("let s%d = %s[%d:%d]" % (k, lit("pp" + b + "qqq"), 2, 2 + cnt))
            else:
                p.do("let s%d = %s" % (k, lit(b)))
            big = [-2 ** 63, 2 ** 63 - 1, 2 ** 32, -2 ** 31]
            i, j = r.choice([r.randint(-9, 9), r.choice(big)]), r.choice([r.randint(-9, 9), r.choice(big)])
            t = r.choice([(Y.ilit(i), Y.ilit(j)), (Y.ilit(i), ""), ("", Y.ilit(j)), ("", "")])
            lo = 0 if t[0] == "" else max(0, min(cnt, i + cnt if i < 0 else i))
            hi = cnt if t[1] == "" else max(0, min(cnt, j + cnt if j < 0 else j))
            p.do("let q%d = s%d[%s:%s]" % (k, k, t[0], t[1]))
            p.echo("q%d" % k, b[lo:hi])
            p.echo("len q%d" % k, len(b[lo:hi]))
            p.echo("q%d == %s" % (k, lit(b[lo:hi])), True)
            if cnt:
                i = r.randint(-cnt, cnt - 1)
                p.echo("s%d[%d]" % (k, i), b[i])
            p.do("for x <- s%d {\n echo x\n}" % k)
            p.out += list(b)
            p.do("for x <- q%d {\n echo len x\n}" % k)
            p.out += ["1"] * len(b[lo:hi])
            p.echo("[ x ~ 'z' for x <- s%d if x != 'a' ]" % k, [x + "z" for x in b if x != "a"])
        p.add(s, "indexing, slices and iteration over strings", leak=True)
    for _ in range(n):
        p = Prog()
        keys = r.sample(range(-50, 200), r.choice([0, 1, 5, 20, 60]))
        gone = [k for k in keys if r.random() < .3]
        p.do("let t = {}\nlet u = collections.set()")
        for k in keys:
            p.do("t[%d] = %d\nu->add(%d)" % (k, 2 * k, k))
        for k in gone:
            p.do("t->remove(%d)\nu->remove(%d)" % (k, k))
        live = sorted(set(keys) - set(gone))
        p.do("let l = []\nfor k <- t {\nl->push(k)\n}\nl->sort()")
        p.echo("l", live)
        p.do("l = []\nfor k <- u->tolist() {\nl->push(k)\n}\nl->sort()")
        p.echo("l", live)
        p.do("l = [ t[k] for k <- t if k % 2 == 0 ]\nl->sort()")
        p.echo("l", sorted(2 * k for k in live if k % 2 == 0))
        p.do("let n = 0\nfor a <- t { for b <- t { if a == b { n += 1; }; }; }")
        p.echo("n", len(live))
        p.do("let m = {k: t[k] + 1 for k <- t}")
        p.echo("len m", len(live))
        for k in live[:6]:
            p.echo("m[%d]" % k, 2 * k + 1)
        p.add(s, "iteration over tables and sets", leak=True)
