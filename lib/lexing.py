"""Programs for C16: the same tokens spelled and laid out in many ways; what they have to print."""
from decimal import Decimal
from yasl import fmtf

OPS = "; ( ) [ ] { } . ... , ^ ^= + += - -= ! != !== !~ ~ ~= * *= ** **= / /= // //= % %= < <= << <<= > >= >> >>= = == === =~ & &= && &&= &^ &^= | |= || ||= ? ?? ??= : := -> <-".split()
KEYWORDS = "break const continue else elseif export fn for if echo let return undef while len assert match true false".split()
RESERVED = "header global enum struct pragma yield do ifdef elseifdef use no pure consteval constexpr constfold extern in typename".split()
ENDS = {"break", "continue", "undef", "true", "false", ")", "]", "}"}


def isop(t):
    return t in OPS


def word(c):
    return c.isalnum() or c in "_$"


def munch(s):
    """The operators that a run of operator characters is read as (longest first)."""
    res = []
    while s:
        for n in (3, 2, 1):
            if s[:n] in OPS:
                res.append(s[:n])
                s = s[n:]
                break
        else:
            return None
    return res


def ends(t):
    """A newline after this token ends a statement."""
    if len(t) > 1 and t[0] == "." and word(t[1]):
        return True
    return t in ENDS or t[0] in "'`\"0123456789" or (word(t[0]) and t not in KEYWORDS)


def comment(r, newline):
    c = r.choice(["", " ", "x", " echo 1 ", "'", "\"", "`", "*", "/", "**", " # ", "//", "#{1}", "let a = (", "/*"])
    if newline:     # a comment ends at the first */
        return r.choice(["#" + c + "\n", "/*%s\n%s*/" % (c, r.choice(["", "\n", " \n\n"])), "\n", "\n\n", "\t\n "])
    return r.choice(["/*%s*/" % c, "/* %s */" % c, "/** %s**/" % c])


def layout(r, toks, dense):
    """The text of one statement."""
    out, run = toks[0], [toks[0]] if isop(toks[0]) else []
    prev = toks[0]
    for t in toks[1:]:
        sep = ""
        if r.random() > dense:
            sep = r.choice([" ", " ", "  ", "\t", " \t ", None, None])
            if sep is None:
                sep = comment(r, not (ends(prev) or prev in KEYWORDS) and r.random() < .6)
        if not sep:
            if word(prev[-1]) and word(t[0]) or prev[0].isdigit() and t[0] == ".":
                sep = " "
            elif isop(prev) and isop(t):
                s = "".join(run + [t])
                if munch(s) != run + [t] or "/*" in s:
                    sep = " "
        if prev == "/" and sep.startswith("/") or prev[-1] == "/" and (sep + t).startswith("*"):
            sep = " " + sep
        run = ([] if sep else run) + [t] if isop(t) else []
        out += sep + t
        prev = t
    return out


def under(r, digits):
    """Digits with underscores behind some of them."""
    return "".join(d + "_" * r.choice([0, 0, 0, 0, 1, 1, 2]) for d in digits)


def spell_int(r, n, start=False):
    k = r.randint(0, 3)
    z = "0" * r.choice([0, 0, 0, 1, 3])
    if k == 0:
        h = "%x" % n
        return "0" + r.choice("xX") + "_" * r.choice([0, 0, 1, 2]) + under(r, z + "".join(r.choice([c, c.upper()]) for c in h))
    if k == 1:
        return "0" + r.choice("bB") + "_" * r.choice([0, 0, 1]) + under(r, z + bin(n)[2:])
    return under(r, z + str(n))


def rint(r):
    return r.choice([0, 1, 2, 7, 9, 10, 15, 16, 127, 128, 255, 256, r.randint(0, 99), r.randint(0, 2 ** 31), r.randint(0, 2 ** 63 - 1), 2 ** 63 - 1, 2 ** 62, 2 ** 31])


def spell_float(r):
    a, b = str(r.choice([0, 1, 12, r.randint(0, 10 ** 6), r.randint(0, 10 ** 18)])), "".join(r.choice("0123456789") for _ in range(r.randint(1, 12)))
    t, v = under(r, a) + "." + under(r, b), a + "." + b
    if r.random() < .5:
        e, s = str(r.randint(0, 40)), r.choice(["", "+", "-"])
        t += r.choice("eE") + "_" * r.choice([0, 0, 1]) + s + under(r, e)
        v += "e" + s + e
    return t, float(v)


ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "0": 0, "'": 39, '"': 34, "#": 35, "\\": 92}


def rbytes(r, n=12):
    return [r.choice([r.randint(32, 126), r.randint(32, 126), r.randint(0, 255), r.choice([0, 10, 9, 39, 34, 35, 92, 96, 95, 120])]) for _ in range(r.randint(0, n))]


def spell_str(r, bs, delim):
    """A literal for these bytes, in ' or "."""
    out = ""
    for b in bs:
        how = [k for k, v in ESC.items() if v == b]
        if how and r.random() < .6:
            out += "\\" + how[0]
        elif r.random() < .2 or b in (10, 92, ord(delim)) or b == 35 and delim == '"' or b == 0:
            out += "\\x" + "".join(r.choice([c, c.upper()]) for c in "%02x" % b)
        else:
            out += bytes([b]).decode("utf-8", "surrogateescape")
    return delim + out + delim


def any_str(r, bs):
    k = r.randint(0, 3)
    if k == 0 and 96 not in bs:
        return "`" + bytes(bs).decode("utf-8", "surrogateescape") + "`", True
    return spell_str(r, bs, "'" if k == 1 else '"' if k == 2 else r.choice("'\"")), False


def expr(r, env, depth):
    """(tokens, value) over ints."""
    if depth == 0 or r.random() < .2:
        if r.random() < .5:
            v = r.choice(sorted(env))
            return [v], env[v]
        n = r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 99)])
        return [spell_int(r, n)], n
    if r.random() < .25:
        t, v = expr(r, env, depth - 1)
        o = r.choice("-^+")
        return [o] + (t if len(t) == 1 else ["("] + t + [")"]), {"-": -v, "^": ~v, "+": v}[o]
    a, x = expr(r, env, depth - 1)
    b, y = expr(r, env, depth - 1)
    o = r.choice(["+", "-", "*", "&", "|", "^", "&^", "<<", ">>", "//", "%", "??", "||", "&&"])
    if o in ("<<", ">>"):
        b, y = ["3"], 3
    if o in ("//", "%"):
        b, y = ["7"], 7
        if x < 0:
            o = "*"
    if abs(x) > 10 ** 7 or abs(y) > 10 ** 7:
        o = "|"
    v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "&^": lambda: x & ~y, "<<": lambda: x << 3, ">>": lambda: x >> 3,
         "//": lambda: x // 7, "%": lambda: x % 7, "??": lambda: x, "||": lambda: x, "&&": lambda: y}[o]()
    par = lambda t: t if len(t) == 1 else ["("] + t + [")"]
    return par(a) + [o] + par(b), v


def near(r):
    w = r.choice(KEYWORDS + RESERVED)
    k = r.randint(0, 6)
    return [w + r.choice("_$1xs"), r.choice("_$x") + w, w[:-1] if len(w) > 1 else "q", w.capitalize(), w.upper(), r.choice("_$abcxyzXYZ") + "".join(r.choice("_$09abXZ") for _ in range(r.randint(0, 20))), w + w][k]


def statement(r, env, names):
    """(tokens, what it prints)"""
    k = r.randint(0, 12)
    if k == 0:
        n = rint(r)
        return ["echo", spell_int(r, n)], str(n)
    if k == 1:
        t, v = spell_float(r)
        return ["echo", t], fmtf(v)
    if k == 2:
        t, v = spell_float(r)
        if r.random() < .5:
            d = format(Decimal(v), "f")
            return ["echo", t, "==", d if "." in d else d + ".0"], "true"
        n = rint(r)
        return ["echo", "[", t, ",", spell_int(r, n), "]", "[", r.choice(["1", "0x1", "0b1"]), "]"], str(n)
    if k == 3:
        bs = [b for b in rbytes(r) if 32 <= b < 127 or b in (9, 10)]
        return ["echo", any_str(r, bs)[0]], bytes(bs).decode()
    if k == 4:
        bs = rbytes(r)
        return ["echo", any_str(r, bs)[0], "==", any_str(r, bs)[0]], "true"
    if k == 5:
        bs = rbytes(r, 40)
        return ["echo", "len", any_str(r, bs)[0]], str(len(bs))
    if k == 6:
        bs = rbytes(r)
        cs = list(bs)
        if cs:
            cs[r.randrange(len(cs))] ^= 1 << r.randint(0, 7)
        else:
            cs = [r.randint(0, 255)]
        return ["echo", any_str(r, bs)[0], r.choice(["==", "==="]), any_str(r, cs)[0]], "false"
    if k == 7:
        parts, out = [], ""
        for _ in range(r.randint(1, 4)):
            bs = [b for b in rbytes(r, 5) if 32 <= b < 127]
            parts.append(spell_str(r, bs, '"')[1:-1])
            e, v = expr(r, env, 1)
            parts.append("#{" + layout(r, e, .7) + r.choice(["", " "]) + "}")
            out += bytes(bs).decode() + str(v)
        return ["echo", '"' + "".join(parts) + '"'], out
    if k in (8, 9):
        e, v = expr(r, env, 3)
        return ["echo"] + (e if e[0] != "(" else ["0", "+", "("] + e + [")"]), str(v)
    if k == 10:
        a, x = expr(r, env, 1)
        b, y = expr(r, env, 1)
        o = r.choice(["<", "<=", ">", ">=", "==", "!=", "===", "!=="])
        v = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y, "===": x == y, "!==": x != y}[o]
        return ["echo", "("] + a + [")", o, "("] + b + [")"], "true" if v else "false"
    if k == 11:
        n = near(r)
        if n in KEYWORDS or n in RESERVED or n in names or n in env:
            return None
        names.append(n)
        v = r.randint(0, 999)
        return ["let", n, "=", spell_int(r, v), ";", "echo", n], str(v)
    f, v = r.choice(KEYWORDS[:17] + ["x", "y_1", "$"]), r.randint(0, 99)
    return ["echo", "{", "." + f, ":", spell_int(r, v), "}", "."] + [f] if r.random() < .5 else ["echo", "{", "." + f, ":", str(v), "}", "[", "'" + f + "'", "]"], str(v)


def lex_programs(s, r, n):
    for _ in range(n):
        env = {"a": r.randint(0, 9), "b": r.randint(0, 99), "cc": r.randint(0, 9)}
        src = "".join("let %s = %d\n" % x for x in env.items())
        out, names = [], []
        for _ in range(r.randint(2, 9)):
            st = statement(r, env, names)
            if not st:
                continue
            src += layout(r, st[0], r.choice([0, .5, .9, 1]))
            out.append(st[1])
            src += r.choice([";", " ;", "; ", ";" + comment(r, False)]) if r.random() < .2 else r.choice(["", " ", "\t", comment(r, False)]) + comment(r, True)
        k = r.random()
        if k < .5:
            src += r.choice(["", " ", "\n" if src.endswith("\n") else " "]) + "echo a"
            out.append(str(env["a"]))
            s.add(src + r.choice(["\n", " \n", ";\n", "# x\n", "/* */\n"]), "".join(o + "\n" for o in out), 0, "tokens and layout")
        elif k < .7:
            src += "undef + 1\n"
            s.add(src, "".join(o + "\n" for o in out), 5, "the line after comments and strings of many lines", lines=[src.count("\n")])
        else:
            bad = r.choice(["echo 0x", "echo 0xg", "echo 0b2", "echo 0b", "echo 0x_", "echo '\\q'", "echo '\\x4'", "echo '\\xg1'", "echo '\\x1g'", "echo \"\\x+1\"", "echo '\\x 1'", "echo 'a", "echo \"a", "echo '\\x'", "echo \"\\", "echo '\\8'",
                            "echo @", "let %s = 1" % r.choice(RESERVED), "let %s = 1" % r.choice(KEYWORDS), "echo 1 2", "echo a b", "echo ~", "echo a !b", "echo a.. b", "echo a <> b", "echo a =< b"])
            s.add(src + bad + "\n", "", 4, "what is not a token is refused (%s)" % bad)
