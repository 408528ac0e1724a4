"""Programs that call the math library, against Python's integers and the C library's floating-point functions."""
import ctypes, math
from yasl import *

libm = ctypes.CDLL("libm.so.6")
UN = "exp log sqrt sin cos tan asin acos atan ceil floor".split()
for f in UN:
    getattr(libm, f).restype = ctypes.c_double
    getattr(libm, f).argtypes = [ctypes.c_double]
PRIMES = [p for p in range(2, 2000) if all(p % d for d in range(2, int(p ** .5) + 1))]


def isprime(n):
    if n < 2:
        return False
    for p in PRIMES[:12]:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in PRIMES[:12]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def whole(v):
    return v if isint(v) else int(v)


def number(r):
    k = r.random()
    if k < .3:
        return r.randint(-20, 300)
    if k < .5:
        return rint(r)
    if k < .7:
        return r.randint(-40, 40) / 4
    return rfloat(r)


def best(args, greater):
    """The last argument that is as great as every later one; ties go to the one further left."""
    m = -math.inf if greater else math.inf
    for v in reversed(args):
        if not isnum(v):
            raise YErr(5)
        if v != v:
            return v
        a, b = (v, m) if isint(v) and isint(m) else (float(v), float(m))
        if a >= b if greater else a <= b:
            m = v
    return m


def positive(r):
    k = r.random()
    if k < .3:
        return r.randint(1, 200)
    if k < .5:
        return r.choice(PRIMES) * r.choice(PRIMES)
    if k < .6:
        return r.randint(1, 2 ** 31) * r.randint(1, 2 ** 31)
    return r.randint(1, 2 ** r.randint(1, 62))


def math_programs(s, r, n):
    for _ in range(n):
        lines, outs, status = [], [], 0
        for _ in range(8):
            k, bad = r.random(), r.random() < .03
            if k < .3:
                f, a = r.choice(UN), [number(r)]
                v = getattr(libm, f)(float(a[0]))
            elif k < .4:
                f, a = r.choice(["abs", "deg", "rad"]), [number(r)]
                if f == "abs" and a[0] == 0:
                    a = [0]                          # the sign of a zero is not specified
                v = {"abs": abs, "deg": lambda x: x * (180.0 / math.pi), "rad": lambda x: x * (math.pi / 180.0)}[f](a[0])
                if isint(v):
                    v = wrap(v)
            elif k < .6:
                f, a = r.choice(["max", "min"]), [number(r) for _ in range(r.choice([0, 1, 2, 2, 3, 5, 9]))]
                if a and r.random() < .3:
                    a[r.randrange(len(a))] = r.choice(a)
                if a and r.random() < .3:
                    x = r.choice(a)
                    if x == x and abs(x) < 2 ** 53:
                        a[r.randrange(len(a))] = float(x) if isint(x) else int(x)
                v = best(a, f == "max")
            elif k < .8:
                f, a = r.choice(["gcd", "lcm"]), [positive(r), positive(r)]
                if r.random() < .4:
                    g = r.randint(1, 5000)
                    a = [wrap(x % 2 ** 40 * g) for x in a]
                if r.random() < .3:
                    a[r.randrange(2)] = float(r.choice(a) % 10 ** 6)
                if r.random() < .2:
                    a[r.randrange(2)] = r.choice([0, -3, -2.0, 1, rint(r)])
                x, y = whole(a[0]), whole(a[1])
                v = undef if not (x > 0 and y > 0) else math.gcd(x, y) if f == "gcd" else wrap(x // math.gcd(x, y) * y)
            else:
                f = "isprime"
                k = r.random()
                x = r.randint(-5, 500) if k < .3 else r.choice(PRIMES) * r.choice(PRIMES) if k < .5 else (2 * r.randint(80, 1500) + 1) ** 2 if k < .6 else r.randint(40000, 10 ** 6)
                if r.random() < .1:
                    x = r.choice([2147483647, 4294967291, 999999000001, 1000003 * 1000003, 65537 * 65537, 65537 * 65539])
                a = [float(x) if r.random() < .2 else x]
                v = isprime(x)
            if bad and a:
                a[r.randrange(len(a))] = r.choice([True, "x", undef])
                try:
                    best(a, True)
                    continue
                except YErr:
                    pass
                if f in ("max", "min"):
                    # the arguments are read from the last one: an earlier NaN ends the search
                    try:
                        best(a, f == "max")
                        continue
                    except YErr:
                        pass
                lines.append("echo math.%s(%s)" % (f, ", ".join(lit(x) for x in a)))
                status = 5
                break
            lines.append("echo math.%s(%s)" % (f, ", ".join(lit(x) for x in a)))
            outs.append(show(v))
        s.add("\n".join(lines), "".join(o + "\n" for o in outs), status, "math functions")
    s.add("echo math.pi\necho math.inf\necho -math.inf\necho math.nan != math.nan", "".join(show(x) + "\n" for x in (math.pi, math.inf, -math.inf, True)), 0, "math constants")
    many = [r.randint(-10 ** 6, 10 ** 6) for _ in range(100)]
    s.add("echo math.max(%s)\necho math.min(%s)" % ((", ".join(map(str, many)),) * 2), "%d\n%d\n" % (max(many), min(many)), 0, "math functions")
