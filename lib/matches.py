"""Programs with match statements: random values and patterns made for them, against a matcher written for the purpose."""
import snip
from yasl import *

UND = undef


class T:
    """A table, by key."""
    def __init__(self, items):
        self.items = items


def key(k):
    return (type(k).__name__, k)


def prim(r):
    k = r.random()
    if k < .35:
        return r.choice([0, 1, 2, 3, 7, 127, 128, 255, 256, -1, -2, 2 ** 31, 2 ** 63 - 1, -2 ** 62])
    if k < .5:
        return r.choice([0.5, 1.5, -0.5, 2.0, 1.0, 100.25])
    if k < .65:
        return r.random() < .5
    if k < .9:
        return r.choice(["", "a", "b", "ab", "key", "x1", "1", "true"])
    return UND


def value(r, depth=0):
    k = r.random()
    if depth < 3 and k < .35 - .08 * depth:
        return [value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
    if depth < 3 and k < .6 - .1 * depth:
        t = {}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            while True:
                q = prim(r)
                if q is not UND:
                    break
            v = value(r, depth + 1)
            if v is not UND:
                t[key(q)] = (q, v)
        return T(t)
    return prim(r)


def vlit(v):
    if isinstance(v, list):
        return "[" + ", ".join(vlit(x) for x in v) + "]"
    if isinstance(v, T):
        return "{" + ", ".join("%s: %s" % (lit(k), vlit(x)) for k, x in v.items.values()) + "}"
    return lit(v)


def vshow(v):
    """What a variable's value is shown as by the programs: tables by their size, since their order is not specified."""
    if isinstance(v, T):
        return "table%d" % len(v.items)
    if isinstance(v, list):
        return "list%d" % len(v)
    return show(v)


def plit(v):
    """A literal as a pattern: a minus sign, and no parentheses."""
    if isint(v) or isinstance(v, float):
        return ("-" if v < 0 else "") + lit(-v if v < 0 else v)
    return lit(v)


# patterns: ("any",) ("lit", v) ("type", name) ("bind", name, const) ("list", [p], more) ("table", [(k, p)], more) ("alt", p, q)
def gen(r, v, names, depth=0, bind=True):
    k = r.random()
    if k < .1:
        return ("any",)
    if k < .3 and bind:
        names.append(("v%d" % len(names), r.random() < .3))
        return ("bind",) + names[-1]
    if k < .4:
        return ("type", r.choice(["bool", "int", "float", "str", "list", "table"]) if r.random() < .4 else kind(v))
    if k < .52 and depth < 3:
        return ("alt", gen(r, value(r, 2) if r.random() < .5 else v, names, depth + 1, False), gen(r, v, names, depth + 1, False))
    if k < .58 and depth < 2 and bind:       # both sides bind the same names
        n = ("v%d" % len(names), r.random() < .3)
        names.append(n)
        b = ("bind",) + n
        def wrap_(w):
            if isinstance(w, list) and w:
                i = r.randrange(len(w))
                return ("list", [b if j == i else gen(r, x, names, 3, False) for j, x in enumerate(w)], False)
            return b
        return ("alt", wrap_(value(r, 1)), wrap_(v))
    if isinstance(v, list) and k < .95:
        c = list(v)
        more = r.random() < .3
        if more:
            c = c[:r.randint(0, len(c))]
        if r.random() < .15:
            c.append(prim(r))
        if r.random() < .1 and c:
            c.pop()
        return ("list", [gen(r, x, names, depth + 1, bind) for x in c], more)
    if isinstance(v, T) and k < .95:
        it = [x for x in v.items.values()]
        r.shuffle(it)
        more = r.random() < .4
        if more:
            it = it[:r.randint(0, len(it))]
        if r.random() < .2:
            q = prim(r)
            if q is not UND and key(q) not in v.items:
                it.insert(r.randint(0, len(it)), (q, prim(r)))
        return ("table", [(q, gen(r, x, names, depth + 1, bind)) for q, x in it], more)
    if isinstance(v, (list, T)):
        return ("lit", prim(r))
    return ("lit", v if r.random() < .7 else prim(r))


def kind(v):
    return "bool" if isinstance(v, bool) else "int" if isint(v) else "float" if isinstance(v, float) else "str" if isinstance(v, str) else \
        "list" if isinstance(v, list) else "table" if isinstance(v, T) else "int"


def text(p, top=True):
    k = p[0]
    if k == "any":
        return "*"
    if k == "lit":
        return plit(p[1])
    if k == "type":
        return p[1]
    if k == "bind":
        return ("const " if p[2] else "let ") + p[1]
    if k == "alt":
        return "(%s | %s)" % (text(p[1]), text(p[2]))
    more = ["..."] if p[2] else []
    if k == "list":
        return "[" + ", ".join([text(x) for x in p[1]] + more) + "]"
    return "{" + ", ".join(["%s: %s" % (plit(q), text(x)) for q, x in p[1]] + more) + "}"


def match(p, v, env):
    k = p[0]
    if k == "any":
        return True
    if k == "lit":
        w = p[1]
        if w is UND or v is UND or isinstance(w, bool) or isinstance(v, bool):
            return w is v
        if isinstance(v, (list, T)):
            return False
        return isnum(v) == isnum(w) and eq(v, w)
    if k == "type":
        return v is not UND and kind(v) == p[1]
    if k == "bind":
        env[p[1]] = v
        return True
    if k == "alt":
        return match(p[1], v, env) or match(p[2], v, env)
    if k == "list":
        if not isinstance(v, list) or (len(v) < len(p[1]) if p[2] else len(v) != len(p[1])):
            return False
        return all(match(x, y, env) for x, y in zip(p[1], v))
    if not isinstance(v, T) or (not p[2] and len(v.items) != len(p[1])):
        return False
    for q, x in p[1]:
        if key(q) not in v.items or not match(x, v.items[key(q)][1], env):
            return False
    return True


def bound(p):
    k = p[0]
    if k == "bind":
        return [p[1]]
    if k == "alt":
        return bound(p[1])
    if k == "list":
        return [n for x in p[1] for n in bound(x)]
    if k == "table":
        return [n for _, x in p[1] for n in bound(x)]
    return []


def arms(r, v, out, cut):
    """The text of the arms, and what the first that matches prints."""
    lines, done = [], False
    for a in range(r.randint(1, 4)):
        names = []
        p = gen(r, v if r.random() < .75 else value(r), names)
        env = {}
        hit = match(p, v, env)
        ns = bound(p)
        guard = ""
        if r.random() < .4:
            # (a false guard after bindings is a known finding, unless the whole subject is what is bound)
            ok = r.random() < .5 or (hit and ns and p[0] != "bind") or done
            cond = r.choice(["1 < 2", "true", "len [1] == 1"] + ["%s == %s" % (n, n) for n in ns])
            guard = " if " + (cond if ok else r.choice(["1 > 2", "false", "pad == -1"]))
            hit = hit and ok
        body = ["let q%d = pad" % a] + ["echo %s" % show_expr(n) for n in ns] + ["echo 'arm%d ' ~ pad ~ ' ' ~ q%d" % (a, a)]
        if hit and not done:
            done = True
            out += [vshow(env[n]) for n in ns] + ["arm%d %d %d" % (a, cut, cut)]
        lines.append("%s%s {\n%s\n}" % (text(p), guard, "\n".join(body)))
    if not done:
        out.append("none")
    lines.append("* {\necho 'none'\n}")      # (no arm that matches is a known finding)
    return lines


def show_expr(n):
    return "shown(%s)" % n


PRE = """fn shown(x) {
match x {
list {
return 'list' ~ len x
}
table {
return 'table' ~ len x
}
* {
return x ?? 'undef'
}
}
}
"""


def match_programs(s, r, n):
    for _ in range(n):
        out, src = [], [PRE]
        if r.random() < .15:       # more than 127 constants before the patterns
            src.append("let many = [" + ", ".join("'c%d'" % i for i in range(r.choice([120, 126, 127, 128, 130, 300]))) + "]")
        for j in range(r.randint(1, 4)):
            v, pad = value(r), r.randint(0, 50)
            if r.random() < .2:
                v = [value(r, 1) for _ in range(r.randint(2, 5))]
            ls = arms(r, v, out, pad)
            f = r.random()
            if f < .5:
                src.append("fn f%d(x, pad) {\nmatch x {\n%s\n}\necho pad\nreturn pad + 1\n}\necho f%d(%s, %d)" % (j, "\n".join(ls), j, vlit(v), pad))
                out += [str(pad), str(pad + 1)]
            elif f < .75:
                src.append("if true {\nlet pad = %d\nlet x = %s\nmatch x {\n%s\n}\necho pad\n}" % (pad, vlit(v), "\n".join(ls)))
                out.append(str(pad))
            else:
                src.append("for let pad = %d; pad < %d; pad += 1 {\nlet y = 1\nmatch %s {\n%s\n}\necho y\n}" % (pad, pad + 1, vlit(v), "\n".join(ls)))
                out.append("1")
        s.add("\n".join(src), "".join(o + "\n" for o in out), 0, "the first arm whose pattern matches runs, with the variables it binds", True)
