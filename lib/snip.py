"""Bounded stand-ins: YASL programs with the output they must have, run on the interpreter built from /repo's sources."""
from itertools import groupby
import os, random, re
from concurrent.futures import ThreadPoolExecutor
from yv import *


def native_sources(exclude=()):
    res = []
    for d in (".", "compiler", "data-structures", "interpreter", "util", "std"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = os.path.normpath(os.path.join(d, f))
            if p.endswith(".c") and p not in exclude and p != "main.c":
                res.append(p)
    return res


def build_native(run, main, name, defs=(), exclude=(), asan=True):
    """Builds a native program from /repo's sources and `main`; returns (path, error)."""
    d = run.path("nat_" + name)
    os.makedirs(d, exist_ok=True)
    flags = ["-std=gnu99", "-g", "-O1", "-w", "-fwrapv", "-DYV_NATIVE"] + (["-fsanitize=address"] if asan else []) + INC + ["-D" + x for x in defs]
    srcs = [main] + [os.path.join(REPO, l) for l in native_sources(exclude)]

    def one(k_s):
        k, s = k_s
        o = "%s/%d.o" % (d, k)
        return o, sh(["gcc"] + flags + ["-c", s, "-o", o], 200, mem_gb=0)
    objs = []
    with ThreadPoolExecutor(NPROC) as ex:
        for o, (rc, out) in ex.map(one, enumerate(srcs)):
            if rc != 0:
                return None, "native build failed: " + out[-800:]
            objs.append(o)
    rc, out = sh(["gcc"] + (["-fsanitize=address"] if asan else []) + ["-o", d + "/prog"] + objs + ["-lm", "-ldl"], 120, mem_gb=0)
    if rc != 0:
        return None, "native link failed: " + out[-800:]
    return d + "/prog", None


def once(lines):
    """Calls whose arguments are still being evaluated are named as well, so a line may be repeated."""
    return [k for k, _ in groupby(int(x) for x in lines)]


class Snippets:
    """Programs with expected output. Errors: `status` is the status the execution must end with (None: any)."""
    def __init__(self, run, what, prog="snip"):
        self.run, self.what, self.recs, self.prog = run, what, [], prog
        self.lines = {}  # program -> the lines its error message has to name: of the error, of the calls pending

    def add(self, src, out, status=0, about="", leak=False, lines=None):
        if not src.endswith("\n"):
            src += "\n"
        self.recs.append((src, out, status, about, leak))
        if lines is not None:
            self.lines[len(self.recs) - 1] = list(lines)

    def execute(self, chunk=4, secs=10):
        run = self.run
        with run.lock:
            fut = run.gb.get(self.prog)
            if fut is None:
                fut = run.gb[self.prog] = run.pool_submit(build_native, run, NATIVE + "/%s.c" % self.prog, self.prog)
        exe, err = fut.result()
        if err:
            run.notes.append("programs not run: " + err[:400])
            run.log(err)
            return
        recs = self.recs
        n = max(1, min(NPROC, (len(recs) + 19) // 20))
        parts = [list(range(i, len(recs), n)) for i in range(n)]
        uid = id(self)

        def go(k):
            idx = parts[k]
            f = run.path("snip-%d-%d.in" % (uid, k))
            with open(f, "wb") as fh:
                for i in idx:
                    b = recs[i][0].encode("utf-8", "surrogateescape")
                    fh.write(b"%d\n%s\n" % (len(b), b))
            p = subprocess.run([exe, f, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=Run.ENV, timeout=3600)
            return idx, p.stdout, p.stderr
        got = {}
        errs = b""
        with ThreadPoolExecutor(n) as ex:
            for idx, o, e in ex.map(go, range(n)):
                errs += e
                pos = 0
                while pos < len(o):
                    nl = o.find(b"\n", pos)
                    if nl < 0:
                        break
                    line = o[pos:nl]
                    pos = nl + 1
                    m = re.fullmatch(rb"R (\d+) (-?\d+) (-?\d+) (\d+) (\d+)", line)
                    if m:
                        l, e = int(m[4]), int(m[5])
                        got[idx[int(m[1])]] = (int(m[2]), o[pos:pos + l].decode("utf-8", "replace"), int(m[3]), o[pos + l:pos + l + e].decode("utf-8", "replace"))
                        pos += l + e + 1
                        continue
                    m = re.fullmatch(rb"C (\d+) (.*)", line)
                    if m:
                        got[idx[int(m[1])]] = (None, m[2].decode(), 0, "")
        bad = 0
        for i, (src, out, status, about, leak) in enumerate(recs):
            g = got.get(i)
            if g is None:
                continue
            st, text, lk, errtext = g
            why = None
            if st is None:
                why = "the interpreter crashed or did not end: " + text
                asan = re.search(rb"ERROR: AddressSanitizer: .*", errs)
                if asan:
                    why += " (" + asan[0].decode("utf-8", "replace") + ")"
            elif status is not None and st != status:
                why = "ended with status %d, expected %d" % (st, status)
            elif out is not None and text != out:
                why = "printed something else than specified"
            elif i in self.lines and once(re.findall(r"(?:\(line |In function call on line )(\d+)", errtext)) != once(self.lines[i]):
                why = "the error message names the wrong lines, expected %s" % self.lines[i]
            elif leak and lk != 0:
                why = "%d bytes still allocated after the state was deleted" % lk
            if why:
                bad += 1
                if bad <= 5:
                    run.violation(about or self.what, "program_%s_%d" % (self.what, i),
                                  "%s\n%s\n\n--- program\n%s\n--- expected output (status %s)\n%s\n--- actual output (status %s)\n%s\n%s\n" %
                                  (about or self.what, why, src, status, out, st, text[:20000], errtext[:3000]), True)
                    run.log("program %d (%s): %s" % (i, about or self.what, why))
        ok = sum(1 for i in range(len(recs)) if i in got)
        run.bounded.append({"what": self.what + ": generated programs run against an oracle (bounded: not counted as proved)",
                            "programs": ok, "failed": bad, "distinct": len({r[0] for r in recs}),
                            "sample": recs[0][0][:300] if recs else ""})
        return bad


def rng(run, salt=""):
    return random.Random("%s-%s-%d" % (run.prop, salt, SEED))


def lit(s):
    """A YASL string literal for the bytes/str `s` (raw-safe escapes)."""
    r = "'"
    for c in s:
        if c in "'\\":
            r += "\\" + c
        elif c == "\n":
            r += "\\n"
        elif c == "\t":
            r += "\\t"
        elif c == "#":
            r += "\\x23"
        elif ord(c) < 32 or ord(c) >= 127:
            r += "".join("\\x%02x" % b for b in c.encode("utf-8"))
        else:
            r += c
    return r + "'"
