"""Programs for C12: whatever a program does and wherever it ends, everything is released with the state, and nothing before its time."""
from conts import Prog

HEAP = ["[%d, 'a' ~ %d]", "{%d: 'b' ~ %d}", "('s%d' ~ %d ~ 't')", "[[%d], {'k': [%d]}]", "collections.set(%d, 'x' ~ %d)", "('ab' ~ %d ~ 'cdef' ~ %d)[1:4]", "[ x ~ %d for x <- [%d, 'q' ~ 2] ]",
        "'a%d b'->upper()->split('%d')", "mathx(%d, %d)", "[%d, %d]->copy()", "{'a': [%d]}->copy() | {'b': {1: %d}}", "('z' ~ %d ~ %d)->search('z') ?? [1]", "[3, %d, 2, %d]->slice(0, 2)"]
ERR = [("(1 + 'a')", 5), ("(1 // 0)", 6), ("[1][7]", 7), ("'ab'[5]", 7), ("undef()", 5), ("raise_()", 10), ("5->nope()", 5), ("deep(0, deep)", 11), ("[1, 'a']->sort()", 5), ("len 5", 5), ("'a'->rep()", 5),
       ("[1] - [2]", 5), ("'a'->search(5)", 5), ("[1]->join(5)", 5), ("many([1], {2: 3}, 's' ~ 4)", 5), ("(-'a')", 5), ("{}->remove()", 7), ("collections.set([1])", 5), ("{[1]: 2}", 5), ("(-[1])", 5), ("assert_('q' ~ 1)", 5)]
PRE = """fn mathx(a, b) { return [a, 'm' ~ b]; }
fn raise_() { let q = ['x' ~ 1]; for y <- [q] { assert false; }; return q; }
fn deep(n, g) { let q = ['d' ~ n]; return g(n + 1, g) ~ q; }
fn assert_(a) { return a.b.c; }
fn many(a, b, c) { for x <- a { for y <- b { let z = [c, x, y]; z = z + 1; }; }; return a; }
"""


def heap(r):
    h = r.choice(HEAP)
    return h % tuple(r.randint(0, 9) for _ in range(h.count("%d")))


def wrap(r, e, depth):
    for _ in range(depth):
        h, g = heap(r), heap(r)
        e = r.choice([
            "[%s, %s, %s]" % (h, e, g), "[[%s], [%s, %s]]" % (h, e, g), "{'k': %s, 'e': %s}" % (h, e), "{'k' ~ 1: %s, 'x' ~ 2: %s}" % (e, h), "mathx(%s, %s)" % (h, e), "mathx(%s, %s)" % (e, h),
            "mathx(%s, mathx(%s, %s))" % (h, g, e), "('p' ~ 5 ~ %s)" % e, "(%s ?? %s)" % (e, h), "(%s == %s)" % (h, e), "[ [x, %s] for x <- %s ]" % (e, "['u' ~ 3]"), "[ x for x <- [%s, %s] ]" % (h, e),
            "{ x: %s for x <- ['w' ~ 1] }" % e, "(true ? %s : %s)" % (e, h), "('h' ~ 1)->replace('h', %s)" % e, "['l' ~ 1]->push(%s)" % e, "[%s][%s]" % (h, e), "fnv(%s, 1)" % e, "t.f(%s, %s)" % (h, e)])
    return e


def context(r, body):
    """The statements in a random nest of functions, loops and conditionals."""
    for k in range(r.randint(0, 4)):
        c = r.randint(0, 7)
        v = "v%d" % r.randint(0, 10 ** 6)
        if c == 0:
            body = "for %s <- %s {\n%s\n}" % (v, r.choice(["['i' ~ 1, [2]]", "{'k' ~ 1: [1]}", "'ab' ~ 3"]), body)
        elif c == 1:
            body = "for let %s = 0; %s < 2; %s += 1 {\nlet h%s = %s\n%s\n}" % (v, v, v, v, heap(r), body)
        elif c == 2:
            body = "if [1] {\nlet h%s = %s\n%s\n}" % (v, heap(r), body)
        elif c == 3:
            body = "fn %s(a, b) {\nlet h%s = %s\n%s\nreturn b\n}\n%s(%s, %s)" % (v, v, heap(r), body, v, heap(r), heap(r))
        elif c == 4:
            body = "let %s = 0\nwhile %s < 2 {\n%s += 1\nlet h%s = %s\n%s\n}" % (v, v, v, v, heap(r), body)
        elif c == 5:
            body = "const %s = %s\nlet h%s = [%s, %s]\n%s" % (v, heap(r), v, v, v, body)
        elif c == 6:
            body = "match ['m' ~ 1] {\n[%s] {\nlet h%s = [%s]\n%s\n}\n}" % ("let " + v, v, v, body)
        else:
            body = "fn %s() {\nfor h%s <- [%s, %s] {\n%s\n}\nreturn %s\n}\nlet r%s = %s()" % (v, v, heap(r), heap(r), body, heap(r), v, v)
    return body


def error_programs(s, r, n):
    """Programs that end with an error at a random place; whatever they hold is released, nothing twice."""
    for k in range(n):
        e, st = ERR[k % len(ERR)]
        if r.random() < .2:
            e, st = heap(r), 0
        x = wrap(r, e, r.randint(0, 4))
        c = r.randint(0, 5)
        body = ["let w = %s" % x, "echo %s" % x, "return %s" % x, "if %s {\necho 1\n}" % x, "for q <- %s {\necho 1\n}" % x, "u[0] = %s" % x][c]
        if c == 2:
            body = "fn last(a) {\n%s\n}\necho last(%s)" % (body, heap(r))
        src = PRE + "let u = ['u' ~ 1, {}]\nlet t = {}\nt.f = fn(a, b) { return [a, b]; }\nconst fnv = fn(a, b) { return [b, a]; }\n" + context(r, body)
        s.add(src, None, None, "everything is released when a program ends with an error", leak=True)


def drop_programs(s, r, n):
    """Values reachable in several ways, dropped in random order: what is still reachable stays whole."""
    import yasl as Y
    for _ in range(n):
        p = Prog()
        names = list("abcdef")
        val = {v: None for v in names}
        p.do("let " + "\nlet ".join("%s = undef" % v for v in names))
        p.do("fn id(x) { return x; }\nfn both(x, y) { let z = x; x = y; y = z; return y; }\nfn keep(x) { return [x][0]; }")
        for k in range(r.choice([15, 40])):
            v, w, x = r.choice(names), r.choice(names), r.choice(names)
            c = r.randint(0, 12)
            live = [q for q in names if isinstance(val[q], list)]
            if c <= 1 or not live:
                t = "x%d" % k
                p.do("%s = ['x' ~ %d, %d]" % (v, k, k))
                val[v] = [t, k]
            elif c == 2:
                p.do("%s = undef" % v)
                val[v] = None
            elif c == 3:
                p.do("%s = %s" % (v, w))
                val[v] = val[w]
            elif c == 4 and depth(val[w]) < 4:
                p.do("%s = [%s, [%s]]" % (v, w, w))
                val[v] = [val[w], [val[w]]]
            elif c == 5:
                o = r.choice(live)
                if val[o]:
                    p.do("%s = %s[0]" % (v, o))
                    val[v] = val[o][0] if isinstance(val[o][0], list) else None
                    if val[v] is None:
                        p.do("%s = undef" % v)
            elif c == 6:
                o = r.choice(live)
                if val[o]:
                    p.do("%s = %s->pop()" % (v, o))
                    q = val[o].pop()
                    val[v] = q if isinstance(q, list) else None
                    if val[v] is None:
                        p.do("%s = undef" % v)
            elif c == 7:
                p.do("%s = id(%s)" % (v, w))
                val[v] = val[w]
            elif c == 8:
                p.do("%s = both(%s, %s)" % (v, w, x))
                val[v] = val[w]
            elif c == 9:
                p.do("%s = { 'k': %s }.k" % (v, w))
                val[v] = val[w]
            elif c == 10:
                o = r.choice(live)
                if val[o] and not reach(val[w], val[o]) and depth(val[w]) < 3:
                    p.do("%s[0] = %s" % (o, w))
                    val[o][0] = val[w]
            elif c == 11:
                p.do("%s = keep(keep(%s))" % (v, w))
                val[v] = val[w]
            elif c == 12:
                o = r.choice(live)
                p.do("for q <- %s { %s = undef; }" % (o, o))
                if val[o]:
                    val[o] = None
            q = r.choice(names)
            if depth(val[q]) < 5 and size(val[q]) < 200:
                p.echo(q, conv(val[q], Y))
        for v in names:
            if depth(val[v]) < 5 and size(val[v]) < 200:
                p.echo(v, conv(val[v], Y))
        p.add(s, "what is reachable stays, the rest goes", leak=True)


def conv(x, Y):
    return Y.undef if x is None else [conv(e, Y) for e in x] if isinstance(x, list) else x


def depth(x):
    return 1 + max([depth(e) for e in x] or [0]) if isinstance(x, list) else 0


def size(x):
    return 1 + sum(size(e) for e in x) if isinstance(x, list) else 1


def reach(x, o):
    return x is o or isinstance(x, list) and any(reach(e, o) for e in x)
