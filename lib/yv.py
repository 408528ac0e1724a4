"""Framework: builds contract harnesses from /repo's current sources, has CBMC discharge their obligations, runs the same
harnesses natively (replay of counterexamples, bounded stand-ins), and writes evidence. See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YV_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")
NATIVE = os.path.join(VERIF, "native")
INC = ["-I" + CONTRACTS] + ["-I" + REPO + d for d in ("", "/compiler", "/data-structures", "/interpreter", "/util", "/std")]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
NPROC = os.cpu_count() or 4

SOLVERS = {
    "z3": ["--yices", "--external-smt2-solver", "z3-new"],
    "z3q": ["--yices", "--external-smt2-solver", os.path.join(VERIF, "bin", "z3q-smt2")],
    "cvc5": ["--yices", "--external-smt2-solver", os.path.join(VERIF, "bin", "cvc5-smt2")],
    "minisat": [],
    "cadical": ["--sat-solver", "cadical"],
}
BACKENDS = {"z3q": "z3-new (SMT, with quantifiers)", "z3": "z3-new (SMT, QF_AUFBV)", "cvc5": "cvc5 (SMT, QF_AUFBV)", "minisat": "MiniSat (CBMC's bit-vector back end)",
            "cadical": "CaDiCaL"}


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=6, inp=None):
    """Returns (rc, stdout+stderr); rc None on timeout. The whole process group is ended on a timeout."""
    def pre():
        import resource
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, preexec_fn=pre,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL)
    try:
        out, _ = p.communicate(inp, timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def annotate(txt, fn, k, clauses):
    """Inserts a loop contract after the header of loop k (textual order) of function fn; None where there is no such loop."""
    for m in re.finditer(r"(?<![\w.>])%s\s*\(" % re.escape(fn), txt):
        end = _balance(txt, m.end() - 1)
        if end is None:
            continue
        b = re.compile(r"\s*(#[^\n]*\n\s*)*\{").match(txt, end)
        if not b:
            continue
        stop = _balance(txt, b.end() - 1)
        n = 0
        for l in re.compile(r"(?<![\w])(while|for)\s*\(").finditer(txt, b.end(), stop):
            e = _balance(txt, l.end() - 1)
            if n == k:
                for d in re.finditer(r"(?<![\w])do\s*(?=\{)", txt[b.end():l.start()]):       # do { } while (): the contract goes behind do
                    if (_balance(txt, b.end() + d.end()) or 0) == len(txt[:l.start()].rstrip()):
                        e = b.end() + d.end()
                return txt[:e] + "\n" + clauses + "\n" + txt[e:]
            n += 1
        return None
    return None


def _balance(txt, i):
    """Index after the bracket that closes the one at i."""
    o = txt[i]
    c = {"(": ")", "{": "}"}[o]
    d = 0
    while i < len(txt):
        ch = txt[i]
        if ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i + 1
        elif ch in "'\"":
            j = i + 1
            while txt[j] != ch:
                j += 2 if txt[j] == "\\" else 1
            i = j
        i += 1
    return None


class TU:
    """A harness file, the repo sources linked with it, and its units."""
    def __init__(self, src, links=(), defs=(), native_links=None, native=True, iters=3000, annot=(), sub=(), tag=""):
        self.src, self.links, self.defs = src, list(links), list(defs)
        self.annot = list(annot)        # loop contracts: (function, index of the loop in it, clauses)
        self.native_links = list(native_links if native_links is not None else links)
        self.native, self.iters = native, iters
        self.sub = tuple(sub)           # textual substitutions after preprocessing (regex, replacement), in the sources linked too
        self.name = re.sub(r"\W", "_", src + tag) + ("_" + re.sub(r"\W", "_", "".join(self.defs)) if self.defs else "")
        self.units = []

    def unit(self, name, contract=None, replace=(), unwind=26, solvers=("z3", "minisat"), timeout=90, bounded=None,
             about="", native=True, prove=True, unwindset=(), opts=(), tier="quick", unlink=(), iters=None):
        u = Unit(self, name, contract, replace, unwind, solvers, timeout, bounded, about, native, prove, unwindset, opts, tier)
        u.iters, u.unlink = iters, list(unlink)
        self.units.append(u)
        return u


class Unit:
    def __init__(self, tu, name, contract, replace, unwind, solvers, timeout, bounded, about, native, prove, unwindset, opts, tier):
        self.tu, self.name, self.contract, self.replace = tu, name, contract, list(replace)
        self.unwind, self.solvers, self.timeout, self.bounded = unwind, list(solvers), timeout, bounded
        self.about, self.native, self.prove = about, native, prove
        self.unwindset, self.opts, self.tier = list(unwindset), list(opts), tier
        # results
        self.status = "not-run"      # discharged | failed | undecided
        self.reason = ""
        self.failed = []             # (obligation name, text)
        self.n_obl = self.n_contract = 0
        self.backend = None
        self.solver_s = 0.0
        self.inputs = None
        self.output = ""


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="yv-%s-" % prop)
        self.pool = ThreadPoolExecutor(NPROC)
        self.lock = threading.Lock()
        self.gb = {}
        self.violations = []
        self.known = []              # genuine defects that are recorded and not repaired
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"KNOWN-FINDING: property=(\w+) (.*)", l)
                if m and m.group(1) == prop:
                    self.known.append(m.group(2))
        self.bounded = []           # evidence of the bounded stand-ins
        self.notes = []
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- CBMC
    def goto(self, src, defs=(), annot=(), sub=()):
        """Compiles one C file for CBMC; returns (path of goto binary, error)."""
        key = (src, tuple(defs), tuple(annot), sub)
        with self.lock:
            if key in self.gb:
                f = self.gb[key]
            else:
                f = self.gb[key] = self.pool_submit(self._goto, src, defs, annot, sub)
        return f.result()

    def pool_submit(self, fn, *a):
        # goto jobs are short; run them on threads of their own to keep nested submission free of deadlocks
        from concurrent.futures import Future
        fut = Future()
        def work():
            try:
                fut.set_result(fn(*a))
            except BaseException as e:      # noqa
                fut.set_exception(e)
        threading.Thread(target=work, daemon=True).start()
        return fut

    def _goto(self, src, defs, annot=(), sub=()):
        full = src if os.path.isabs(src) else (os.path.join(CONTRACTS, src) if os.path.exists(os.path.join(CONTRACTS, src)) else os.path.join(REPO, src))
        tag = re.sub(r"\W", "_", src + "".join(defs)) + "_%x" % (hash((tuple(annot), sub)) & 0xffffff)
        i, o = self.path(tag + ".i"), self.path(tag + ".gb")
        rc, out = sh(["gcc", "-std=gnu99", "-E"] + INC + ["-D__CPROVER", "-DYV_CBMC"] + ["-D" + d for d in defs] +
                     # the same header first everywhere: goto-cc names anonymous unions after which of their types are complete
                     ["-include", os.path.join(REPO, "interpreter", "YASL_Object.h"), full, "-o", i], 120)
        if rc != 0:
            return None, "preprocessing of %s failed: %s" % (src, out[-600:])
        # `inline` functions of headers are made static (C99 inline semantics, same bodies)
        txt = open(i, errors="replace").read()
        txt = re.sub(r"^inline ", "static inline ", txt, flags=re.M)
        txt = re.sub(r"^extern inline .*$", "", txt, flags=re.M)
        for a, b in sub:
            txt = re.sub(a, b, txt)
        plain = txt
        for fn, k, clauses in annot:
            new = annotate(txt, fn, k, clauses)
            if new is None:
                with self.lock:
                    self.notes.append("loop contract of %s, loop %d, does not attach any more" % (fn, k))
            else:
                txt = new
        open(i, "w").write(txt)
        rc, out = sh(["goto-cc", "-std=gnu99", "-c", i, "-o", o], 120)
        if rc != 0 and annot:
            with self.lock:
                self.notes.append("loop contracts of %s left out: they do not compile with the current source: %s" % (src, out[-300:]))
            open(i, "w").write(plain)
            rc, out = sh(["goto-cc", "-std=gnu99", "-c", i, "-o", o], 120)
        if rc != 0:
            return None, "goto-cc on %s failed: %s" % (src, out[-600:])
        return o, None

    def prove_unit(self, u):
        t0 = time.time()
        try:
            self._prove(u)
        except Exception as e:      # noqa
            u.status, u.reason = "undecided", "internal: %r" % e
        u.wall = time.time() - t0
        return u

    def _prove(self, u):
        gbs = []
        for src, defs, annot in [(u.tu.src, u.tu.defs, u.tu.annot)] + [(l, [], []) for l in u.tu.links if l not in u.unlink]:
            g, err = self.goto(src, defs, annot, u.tu.sub)
            if err:
                u.status, u.reason = "undecided", err
                return
            gbs.append(g)
        entry = "u_" + u.name
        base = self.path("%s.%s" % (u.tu.name, u.name))
        rc, out = sh(["goto-cc", "--function", entry] + gbs + ["-o", base + ".m.gb"], 120)
        if rc != 0 or "not found" in out:
            u.status, u.reason = "undecided", "link failed: " + out[-400:]
            return
        target = base + ".m.gb"
        if u.contract:
            cmd = ["goto-instrument", "--no-malloc-may-fail", "--dfcc", entry, "--enforce-contract-rec" if u.contract in u.replace else "--enforce-contract", u.contract]
            for r in u.replace:
                if r != u.contract:       # recursive calls are checked against the contract
                    cmd += ["--replace-call-with-contract", r]
            if u.tu.annot:
                cmd += ["--apply-loop-contracts"]
            rc, out = sh(cmd + [target, base + ".d.gb"], 180)
            if rc != 0:
                u.status, u.reason = "undecided", "goto-instrument --dfcc failed: " + (re.sub(r"(?s)Backtrace.*|Instrumenting[^\n]*\n|loop \S* does not[^\n]*\n", "", out)[-700:])
                return
            target = base + ".d.gb"
        cmd = ["cbmc", target, "--drop-unused-functions", "--no-malloc-may-fail", "--unwind", str(u.unwind), "--unwinding-assertions",
               "--no-standard-checks", "--bounds-check", "--pointer-check", "--slice-formula"] + u.opts
        for w in u.unwindset:
            cmd += ["--unwindset", w]
        last = "no solver"
        if os.environ.get("YV_KEEP"):
            shutil.copy(target, os.environ["YV_KEEP"])
        for s in u.solvers:
            t1 = time.time()
            rc, out = sh(cmd + SOLVERS[s], u.timeout)
            u.solver_s += time.time() - t1
            if rc is None:
                last = "%s: no answer within %d s" % (s, u.timeout)
                continue
            if not re.search(r"VERIFICATION (SUCCESSFUL|FAILED)$", out, re.M):
                last = "%s: no verdict: %s" % (s, out[-300:])
                continue
            self._classify(u, out, s)
            if u.status == "failed":
                rc, tr = sh(cmd + SOLVERS[s] + ["--trace"], u.timeout * 2)
                u.inputs = self._inputs(tr, u)
                u.output = "\n".join(l for l in out.splitlines() if "FAILURE" in l)
            for f in (base + ".m.gb", base + ".d.gb"):
                if os.path.exists(f):
                    os.unlink(f)
            return
        u.status, u.reason = "undecided", last

    @staticmethod
    def _classify(u, out, solver):
        reach, fails, undec, ok, contract = 0, [], [], 0, 0
        for m in re.finditer(r"^\[(\S+)\] (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M):
            name, text, res = m.groups()
            if "yv_reach" in text:
                if res == "FAILURE":
                    reach += 1
                continue
            if res == "SUCCESS":
                ok += 1
                if "postcondition" in name or "yv_" in name or ".assertion." in name and not name.startswith("__CPROVER"):
                    contract += 1
                continue
            if ("unwind" in name or "recursion" in name or "unwinding assertion" in text or "undefined function" in text or
                    "no body" in text or "assignable" in text or "freeable" in text or "write_set" in name or "assigns clause" in text or
                    "frees clause" in text or res in ("UNKNOWN", "ERROR") or "must be one of" in text or "__CPROVER_contracts" in name or "is_fresh" in text or
                    "requires clause" in text or "loop_invariant" in name or "loop_assigns" in name or "loop_step" in name or "decreases" in name or
                    "loop invariant" in text):
                undec.append("%s: %s" % (name, text))
            else:
                fails.append((name, text))
        u.backend = solver
        u.n_obl, u.n_contract = ok + len(fails), contract + len(fails)
        if undec:
            # e.g. an unwinding bound or the frame: says nothing about the property by itself
            u.status, u.reason = "undecided", "; ".join(undec[:3])
            u.failed = fails
        elif fails:
            u.status, u.failed = "failed", fails
        elif reach == 0:
            u.status, u.reason = "undecided", "vacuous: the end of the unit is not reachable"
        elif ok == 0:
            u.status, u.reason = "undecided", "no obligations were generated"
        else:
            u.status = "discharged"

    @staticmethod
    def _inputs(trace, u):
        """Inputs of every counterexample of a failed (non-reach) obligation: list of dicts."""
        res = []
        for part in re.split(r"^Trace for ", trace, flags=re.M)[1:]:
            vals = {int(k): int(v) for k, v in re.findall(r"yv_in\[(\d+)l*\]=(-?\d+)", part)}
            viol = part.rsplit("Violated property:", 1)[-1]
            if "yv_reach" in viol or not vals:
                continue
            if vals not in res:
                res.append(vals)
        return res

    # -------------------------------------------------------------- native
    def native_build(self, tu):
        if not tu.native:
            return None, "no native mode"
        with self.lock:
            if tu.name in self.gb:
                f = self.gb[tu.name]
            else:
                f = self.gb[tu.name] = self.pool_submit(self._native_build, tu)
        return f.result()

    def _native_build(self, tu):
        d = self.path("native_" + tu.name)
        os.makedirs(d)
        names = [u.name for u in tu.units if u.native]
        with open(d + "/units.c", "w") as f:
            for n in names:
                f.write("void u_%s(void);\n" % n)
            f.write("struct yv_unit { const char *name; void (*fn)(void); };\nstruct yv_unit yv_units[] = {\n")
            for n in names:
                f.write('\t{ "%s", u_%s },\n' % (n, n))
            f.write("\t{ 0, 0 } };\n")
        flags = ["-std=gnu99", "-g", "-O1", "-w", "-fwrapv", "-fsanitize=address", "-fno-sanitize-recover=all", "-DYV_NATIVE"] + INC + ["-D" + x for x in tu.defs]
        srcs = [os.path.join(CONTRACTS, tu.src), CONTRACTS + "/native_main.c", d + "/units.c"] + [os.path.join(REPO, l) for l in tu.native_links]
        objs = []
        def one(k_s):
            k, s = k_s
            o = "%s/%d.o" % (d, k)
            return o, sh(["gcc"] + flags + ["-c", s, "-o", o], 200, mem_gb=0)
        with ThreadPoolExecutor(4) as ex:
            for o, (rc, out) in ex.map(one, enumerate(srcs)):
                if rc != 0:
                    return None, "native build failed: " + out[-800:]
                objs.append(o)
        rc, out = sh(["gcc", "-fsanitize=address", "-o", d + "/run"] + objs + ["-lm", "-ldl"], 120, mem_gb=0)
        if rc != 0:
            return None, "native link failed: " + out[-800:]
        return d + "/run", None

    ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=42:allocator_may_return_null=1:detect_stack_use_after_return=0")

    def native_run(self, tu, units, iters, secs):
        """Runs units on generated inputs: returns (results {unit: (clause, inputs)|None}, ran, error)."""
        exe, err = self.native_build(tu)
        if err:
            return {}, 0, err
        rc, out = sh([exe, "run", str(SEED), str(iters), str(secs)] + units, (secs + 25) * max(1, len(units)), env=self.ENV, mem_gb=0)
        res, ran = {}, 0
        for m in re.finditer(r"^YV-OK unit=(\S+) ran=(\d+) skipped=(\d+)", out, re.M):
            res[m[1]] = None
            ran += int(m[2]) - int(m[3])
        for m in re.finditer(r"^YV-FAIL unit=(\S+) clause=(.*?) inputs=(\S*)$", out, re.M):
            asan = re.search(r"ERROR: AddressSanitizer: .*", out)
            res[m[1]] = (m[2], m[3], asan[0] if asan else "")
        return res, ran, None

    def native_replay(self, tu, unit, inputs):
        exe, err = self.native_build(tu)
        if err:
            return None
        s = ",".join("%d:%d" % kv for kv in sorted(inputs.items()))
        rc, out = sh([exe, "replay", unit, s], 60, env=self.ENV, mem_gb=0)
        m = re.search(r"^YV-FAIL unit=(\S+) clause=(.*?) inputs=(\S*)$", out, re.M)
        return (m[2], s, out[-3000:]) if m else None

    # ----------------------------------------------------------- reporting
    def violation(self, what, replay, text, concrete):
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "%s-%s.txt" % (self.prop, re.sub(r"\W+", "_", replay)[:60]))
        with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(text)
        self.violations.append({"what": what, "replay": path, "concrete": concrete})

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)


def run_harnesses(run, tus, secs_native=2.0, budget=420):
    """Proves every unit of every TU and runs the native mode of all of them; returns the units."""
    units = [u for tu in tus for u in tu.units if u.tier == "quick" or TIER == "thorough"]
    for tu in tus:
        if any(u.native for u in tu.units):
            run.pool_submit(run.native_build, tu)
    proofs = [u for u in units if u.prove]
    if TIER == "thorough":
        for u in proofs:
            u.timeout *= 3
        secs_native *= 15
    deadline = time.time() + budget * (8 if TIER == "thorough" else 1)

    def job(u):
        if time.time() > deadline:
            u.status, u.reason = "undecided", "the check's time budget was used up"
            return u
        return run.prove_unit(u)
    futs = [run.pool.submit(job, u) for u in sorted(proofs, key=lambda u: -u.timeout)]
    for f in futs:
        f.result()
    for u in proofs:
        if u.status != "discharged":
            run.log(("unit %s: %s %s %s" % (u.name, u.status, u.reason, u.failed[:4]))[:400])
    # bounded stand-in and search for failing inputs: the same harnesses, natively
    nat_units = 0
    nat_runs = 0

    def nat(tu):
        names = [u.name for u in tu.units if u.native and u in units]
        if not names or not tu.native:
            return tu, names, {}, 0, None
        chunks = [names[i::4] for i in range(4) if names[i::4]]
        res, ran, err = {}, 0, None
        with ThreadPoolExecutor(4) as ex:
            for r, n, e in ex.map(lambda c: run.native_run(tu, c, tu.iters * (20 if TIER == "thorough" else 1), secs_native), chunks):
                res.update(r)
                ran += n
                err = err or e
        return tu, names, res, ran, err
    with ThreadPoolExecutor(3) as ex:
        for tu, names, res, ran, err in ex.map(nat, tus):
            nat_units += len(names)
            nat_runs += ran
            if err:
                run.notes.append("native mode of %s not available: %s" % (tu.src, err[:300]))
                run.log("native %s: %s" % (tu.src, err[-500:]))
            for u in tu.units:
                r = res.get(u.name)
                if r:
                    u.native_fail = r
                else:
                    u.native_fail = None
    run.bounded.append({"what": "contract harnesses executed on generated inputs (bounded: not counted as proved)",
                        "units": nat_units, "executions": nat_runs})
    for u in units:
        nf = getattr(u, "native_fail", None)
        if u.status == "failed" and not nf and u.native and u.inputs:
            for ins in u.inputs[:6]:
                rp = run.native_replay(u.tu, u.name, ins)
                if rp:
                    nf = (rp[0], rp[1], "counterexample of the verifier, replayed: " + rp[2])
                    break
        if nf:
            run.violation(u.about or u.name, u.tu.src + "_" + u.name,
                          "unit %s of %s\ncontract of: %s\nviolated clause: %s\ninputs (index:value): %s\n%s\n\nfailed obligations:\n%s\n\nrerun: the harness %s, native mode, `replay %s %s`\n" %
                          (u.name, u.tu.src, u.contract or "(postcondition asserted in the unit)", nf[0], nf[1], nf[2],
                           "\n".join("%s: %s" % f for f in u.failed), u.tu.src, u.name, nf[1]), True)
        elif u.status == "failed":
            run.violation(u.about or u.name, u.tu.src + "_" + u.name,
                          "unit %s of %s\ncontract of: %s\nfailed obligations (passed on the unchanged tree):\n%s\n\nback end: %s\ncounterexample inputs: %s\n" %
                          (u.name, u.tu.src, u.contract or "", u.output, u.backend, u.inputs), False)
    return units


def finish(run, units, level, about, assumptions, trusted, checker="goto-cc; goto-instrument --dfcc H --enforce-contract F; cbmc --slice-formula (z3-new | MiniSat)"):
    proofs = [u for u in units if u.prove]
    full = [u for u in proofs if not u.bounded]
    bnd = [u for u in proofs if u.bounded]
    dis = [u for u in full if u.status == "discharged"]
    fns = sorted({(u.contract or u.about or u.name) for u in full})
    cov = {
        "obligations": sum(u.n_obl for u in full),
        "discharged": sum(u.n_obl - len(u.failed) for u in full if u.status == "discharged"),
        "contract_clauses": sum(u.n_contract for u in full),
        "units": len(full), "units_discharged": len(dis),
        "functions_under_contract": fns,
        "units_undecided": [{"unit": u.name, "reason": u.reason[:200]} for u in full if u.status == "undecided"],
        "bounded_units": [{"unit": u.name, "bound": u.bounded, "status": u.status, "obligations": u.n_obl} for u in bnd],
        "backends": {BACKENDS[b]: sum(1 for u in proofs if u.backend == b) for b in SOLVERS if any(u.backend == b for u in proofs)},
        "solver_seconds": round(sum(u.solver_s for u in proofs), 1),
        "checker_cmd": checker,
        "trusted_base": trusted,
        "bounded_stand_ins": run.bounded,
        "explanation": about,
        "notes": run.notes,
    }
    if level not in ("proof",):
        ev = sum(b.get("executions", 0) + b.get("programs", 0) for b in run.bounded)
        cov.update({"evaluations": ev})
    ev = {"property": run.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - run.t0, 1), "violations": len(run.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    run.log("units: %d discharged of %d (%d obligations), %d bounded units, %d violations" %
            (len(dis), len(full), cov["discharged"], len(bnd), len(run.violations)))
    for k in run.known:
        print("KNOWN-FINDING: property=%s %s" % (run.prop, k))
    seen = set()
    vs = sorted(run.violations, key=lambda v: not v["concrete"])
    if any(v["concrete"] for v in vs):
        vs = [v for v in vs if v["concrete"]]
    for v in vs[:10]:
        print("VIOLATION property=%s replay=%s%s" % (run.prop, v["replay"], "" if v["concrete"] else " no-failing-input-found"))
    sys.stdout.flush()
    return 1 if run.violations else 0
