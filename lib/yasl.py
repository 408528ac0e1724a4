"""The language's values and operators in Python: the oracle of the generated programs (written from the documentation)."""
import math
from decimal import Decimal

I64 = 1 << 64


def wrap(i):
    i &= I64 - 1
    return i - I64 if i >> 63 else i


class YErr(Exception):
    def __init__(self, status):
        self.status = status


TYPE, DIV0, VALUE = 5, 6, 7
UNSPEC = object()


class Undef:
    def __repr__(self):
        return "undef"


undef = Undef()


def isint(v): return isinstance(v, int) and not isinstance(v, bool)
def isnum(v): return isint(v) or isinstance(v, float)


def fmtf(d):
    if math.isnan(d):
        return "nan"
    if math.isinf(d):
        return "inf" if d > 0 else "-inf"
    s = "%f" % d
    while s[-1] == "0" and s[-2] != ".":
        s = s[:-1]
    return s


def show(v):
    """What `echo` prints."""
    if v is undef:
        return "undef"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return fmtf(v)
    if isinstance(v, str):
        return v
    if isinstance(v, list):
        return "[" + ", ".join(show(x) for x in v) + "]"
    raise TypeError(v)


def ilit(i):
    if i == -(1 << 63):
        return "(-9223372036854775807 - 1)"
    return str(i) if i >= 0 else "(-%d)" % -i


def flit(d):
    if math.isnan(d):
        return "(0.0/0.0)"
    if math.isinf(d):
        return "(1.0/0.0)" if d > 0 else "(-1.0/0.0)"
    s = format(Decimal(abs(d)), "f")
    if "." not in s:
        s += ".0"
    return s if math.copysign(1, d) > 0 else "(-%s)" % s


def lit(v):
    import snip
    if v is undef:
        return "undef"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return ilit(v)
    if isinstance(v, float):
        return flit(v)
    if isinstance(v, str):
        return snip.lit(v)
    if isinstance(v, list):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    raise TypeError(v)


def truthy(v):
    return not (v is undef or v is False or (isinstance(v, str) and v == "") or (isinstance(v, float) and v != v))


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1, b)


def fpow(a, b):
    try:
        r = math.pow(a, b)
    except OverflowError:
        odd = float(b).is_integer() and int(b) % 2 == 1
        return -math.inf if a < 0 and odd else math.inf
    except ValueError:
        if a == 0 and b < 0:
            odd = float(b).is_integer() and int(b) % 2 == 1
            return math.copysign(math.inf, a) if odd else math.inf
        return math.nan
    return r


def eq(a, b):
    if isnum(a) and isnum(b):
        return a == b if isint(a) and isint(b) else float(a) == float(b)
    if type(a) is not type(b):
        return False
    return a == b


def binop(op, a, b):
    ii = isint(a) and isint(b)
    nn = isnum(a) and isnum(b)
    if op in "+-*":
        if ii:
            return wrap(a + b if op == "+" else a - b if op == "-" else a * b)
        if nn:
            x, y = float(a), float(b)
            return x + y if op == "+" else x - y if op == "-" else x * y
        raise YErr(TYPE)
    if op == "/":
        if nn:
            return fdiv(float(a), float(b))
        raise YErr(TYPE)
    if op in ("//", "%"):
        if isint(b) and b == 0:
            raise YErr(DIV0)
        if not ii:
            raise YErr(TYPE)
        q = abs(a) // abs(b)
        q = q if (a < 0) == (b < 0) else -q
        return wrap(q) if op == "//" else wrap(a - q * b)
    if op == "**":
        if not nn:
            raise YErr(TYPE)
        if ii and b >= 0:
            if abs(a) > 1 and b > 64:
                r = None
            else:
                r = a ** b if abs(a) > 1 else (1 if b == 0 or a == 1 else 0 if a == 0 else (1 if b % 2 == 0 else -1))
            if r is None or not -(1 << 63) <= r < 1 << 63:
                return UNSPEC
            return r
        return fpow(float(a), float(b))
    if op in ("|", "^", "&", "&^", "<<", ">>"):
        if not ii:
            raise YErr(TYPE)
        if op in ("<<", ">>") and not 0 <= b <= 63:
            return UNSPEC
        return wrap(a | b if op == "|" else a ^ b if op == "^" else a & b if op == "&" else a & ~b if op == "&^" else
                    a << b if op == "<<" else a >> b)
    if op in ("<", "<=", ">", ">="):
        if isinstance(a, str) and isinstance(b, str):
            a, b = a.encode(), b.encode()
        elif not nn:
            raise YErr(TYPE)
        elif not ii:
            a, b = float(a), float(b)
        return a < b if op == "<" else a <= b if op == "<=" else a > b if op == ">" else a >= b
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return not eq(a, b)
    if op in ("===", "!=="):
        if isinstance(a, float) and isinstance(b, float) and (a != a or b != b or (a == 0 and b == 0)):
            return UNSPEC
        if isinstance(a, str) or isinstance(b, str):
            return UNSPEC
        r = type(a) is type(b) and (a is b if a is undef else a == b)
        return r if op == "===" else not r
    if op == "&&":
        return b if truthy(a) else a
    if op == "||":
        return a if truthy(a) else b
    if op == "??":
        return b if a is undef else a
    raise KeyError(op)


def unop(op, a):
    if op == "!":
        return not truthy(a)
    if op == "^":
        if isint(a):
            return ~a
        raise YErr(TYPE)
    if not isnum(a):
        raise YErr(TYPE)
    if op == "+":
        return a
    return wrap(-a) if isint(a) else -a


INTS = [0, 1, -1, 2, -2, 3, 7, 10, 63, 64, 127, 128, 255, 256, -128, -129, 1 << 31, (1 << 31) - 1, -(1 << 31), (1 << 32) + 1, (1 << 53) + 1, (1 << 62),
        (1 << 63) - 1, -(1 << 63), (1 << 63) - 2, -(1 << 63) + 1, 3037000500, 4294967296, 0x7fffffff00000001]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, 0.1, 1e15, -1e15, 9007199254740993.0, 9223372036854775808.0, 1e20, 123456.789, math.inf, -math.inf, math.nan]


def rint(r):
    k = r.random()
    if k < .4:
        return r.choice(INTS)
    if k < .7:
        return r.randint(-20, 20)
    return wrap(r.getrandbits(64)) >> r.randint(0, 63)


def rfloat(r):
    if r.random() < .5:
        return r.choice(FLOATS)
    return r.randint(-10 ** 6, 10 ** 6) / r.choice([1, 2, 4, 8, 3, 10])


def rstr(r, n=4, alpha="abAB 0\xe9"):
    return "".join(r.choice(alpha) for _ in range(r.randint(0, n)))


def rval(r, kinds="iiifbus"):
    k = r.choice(kinds)
    return rint(r) if k == "i" else rfloat(r) if k == "f" else r.random() < .5 if k == "b" else undef if k == "u" else rstr(r)
