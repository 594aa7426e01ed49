"""Shared machinery of the checks: building from /repo's working tree, running,
confirming and recording violations, known findings, evidence."""
import atexit, hashlib, json, multiprocessing, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

GOENV = {
    "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off",
    "GOFLAGS": "-mod=mod", "GOWORK": "off", "GOENV": "off", "GOPATH": "/root/go",
    "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
    "LANG": "C", "LC_ALL": "C", "TZ": "UTC",
    "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
}

class CannotBuild(Exception):
    pass

class Ctx:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.start = time.time()
        self.quick = tier == "quick"
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.owner = os.getpid()
        atexit.register(self.cleanup)
        self.violations = []      # (key, what, replay text)
        self.known_hit = []
        self.cov = {}
        self.assumptions = []
        self.exhaustive = True
        self.known = load_known(prop)

    def cleanup(self):
        if os.getpid() == self.owner and os.path.isdir(self.scratch):
            shutil.rmtree(self.scratch, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.start

    # -- building ---------------------------------------------------------
    def go(self, args, cwd=REPO, env=None, timeout=600):
        e = dict(GOENV); e.update(env or {})
        return subprocess.run(["go"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")

    def build_oh(self, name="oh", extra=()):
        """The oh binary of the current working tree of /repo."""
        out = os.path.join(self.scratch, name)
        r = self.go(["build", *extra, "-o", out, "."])
        if r.returncode:
            raise CannotBuild(r.stdout)
        os.chmod(out, 0o755)
        return out

    def build_harness(self, name, extra_replace=None, out=None, tags=None):
        """A Go program of ours (VERIF/harness/NAME/*.go) built inside /repo's module
        through an overlay, so that it can use the repository's packages."""
        out = out or os.path.join(self.scratch, "h_" + name.replace("/", "_"))
        rep = {}
        src = os.path.join(VERIF, "harness", name)
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "internal/zzverif", name, f)] = os.path.join(src, f)
        rep.update(extra_replace or {})
        ov = os.path.join(self.scratch, "ov_%s.json" % name.replace("/", "_"))
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        r = self.go(["build", "-overlay", ov, "-o", out, "./internal/zzverif/" + name])
        if r.returncode:
            raise CannotBuild(r.stdout)
        return out

    def count(self, states=0, transitions=0, traces=0):
        """What was covered: distinct model states (or outcomes), steps taken, traces replayed on the real code."""
        for k, v in (("states", states), ("transitions", transitions), ("traces_validated_against_impl", traces)):
            self.cov[k] = self.cov.get(k, 0) + v

    # -- verdicts -----------------------------------------------------------
    def violation(self, key, what, replay):
        for k in self.known:
            if k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return False
        self.violations.append((key, what, replay))
        return True

    def finish(self):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        self.cov["exhaustive"] = bool(self.exhaustive)
        if self.level == "model_checking":
            self.count()
            self.cov.setdefault("samples", [])
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        shown = []
        for n, (key, what, replay) in enumerate(self.violations[:10]):
            path = os.path.join(rdir, "%s-%d.txt" % (self.prop, n))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\nwhat: %s\n\n%s\n" % (self.prop, key, what, replay))
            shown.append((path, what))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
            f.write("\n")
        for path, what in shown:
            print("# " + what.replace("\n", " | ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        print("%s %s: %s in %.1fs exhaustive=%s %s" % (
            self.prop, self.tier, "%d violations" % len(self.violations) if self.violations else "held",
            self.elapsed(), self.exhaustive,
            {k: v for k, v in self.cov.items() if isinstance(v, int) and not isinstance(v, bool)}), flush=True)
        return 1 if self.violations else 0

def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(\"(?:[^\"\\]|\\.)*\") (.*)$", l)
            if m and m.group(1) == prop:
                out.append({"key": json.loads(m.group(2)), "what": m.group(3)})
    return out

# ---------------------------------------------------------------------------
# Running things as an unprivileged user, in a scratch directory, in a session of
# their own, so that nothing a changed shell does can reach the sandbox.
NOBODY = 65534

def _limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))

def unprivileged():
    """Can we drop to nobody here?"""
    global _UNPRIV
    try:
        return _UNPRIV
    except NameError:
        pass
    try:
        r = subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[])
        _UNPRIV = r.returncode == 0
    except Exception:
        _UNPRIV = False
    return _UNPRIV

def run(cmd, cwd, timeout, env=None, stdin=None, priv=False, merge=False, text=False):
    """Returns (status or None on timeout, stdout bytes, stderr bytes); kills the whole session."""
    kw = {}
    if not priv and os.geteuid() == 0 and unprivileged():
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    out = tempfile.TemporaryFile()
    err = out if merge else tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=out, stderr=err, preexec_fn=_limits, **kw)
    try:
        if stdin is not None:
            try:
                p.communicate(stdin, timeout=timeout)
            except BrokenPipeError:
                pass
        st = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        st = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()
    out.seek(0); o = out.read()
    e = b""
    if not merge:
        err.seek(0); e = err.read()
    return st, o, e

def scratch_env(home, path="/usr/local/bin:/usr/bin:/bin"):
    return {"HOME": home, "PATH": path, "USER": "nobody", "LANG": "C", "LC_ALL": "C", "TZ": "UTC", "OH_RC": "/nonexistent"}

# ---------------------------------------------------------------------------
# Batches of small programs run by one oh process, each in a method of its own.
BEGIN, END = "@@B", "@@E"

def wrap(i, body, catch=True):
    h = "    catch ex {\n        write EX $ex\n        return ()\n    }\n" if catch else ""
    ind = body + "\n"
    return "write-line '%s %d'\n(method () {\n%s%s})\nwrite-line '%s %d'\n" % (BEGIN, i, h, ind, END, i)

SKIPPED = object()
class Batch:
    """Runs cases with one oh binary in a scratch directory."""
    def __init__(self, oh, dirname, env=None, prelude="", timeout=60, single_timeout=10, size=400, catch=True, reset=None):
        self.oh, self.dir, self.prelude = oh, dirname, prelude
        self.env = env or scratch_env(dirname)
        self.timeout, self.single, self.size, self.catch = timeout, single_timeout, size, catch
        os.makedirs(dirname, exist_ok=True)
        os.chmod(dirname, 0o777)
        self.processes = 0

    def script(self, cases):
        return self.prelude + "".join(wrap(i, b, self.catch) for i, b in enumerate(cases))

    def run_once(self, cases, timeout):
        """Returns list of outputs (str), None for a case not completed; plus (status, stderr)."""
        self.processes += 1
        f = os.path.join(self.dir, "batch.oh")
        with open(f, "wb") as h:
            h.write(self.script(cases).encode("utf-8", "surrogateescape"))
        os.chmod(f, 0o644)
        st, o, e = run([self.oh, f], self.dir, timeout, self.env)
        o = o.decode("utf-8", "surrogateescape")
        res = [None] * len(cases)
        started = -1
        for m in re.finditer(r"^%s (\d+)\n(.*?)^%s \1$" % (BEGIN, END), o, re.M | re.S):
            res[int(m.group(1))] = m.group(2)
        for m in re.finditer(r"^%s (\d+)$" % BEGIN, o, re.M):
            started = int(m.group(1))
        return res, started, st, o, e.decode("utf-8", "replace")

    def outputs(self, cases):
        """Output per case; a case that ended the shell gives ('DIED', status, stderr tail, output)."""
        cases = list(cases)
        res, hung = [], 0
        while len(res) < len(cases):
            if hung >= 3:
                # Enough to report; the rest would only cost time.
                res.extend(SKIPPED for _ in cases[len(res):])
                break
            part = cases[len(res):len(res) + self.size]
            r, started, st, o, e = self.run_once(part, self.timeout)
            n = 0
            while n < len(part) and r[n] is not None:
                n += 1
            res.extend(r[:n])
            if n < len(part):
                # Case n did not end. Run it alone to see what it does.
                r1, _, st1, o1, e1 = self.run_once([part[n]], self.single)
                if r1[0] is not None:
                    res.append(r1[0])
                else:
                    out = o1.split("%s 0\n" % BEGIN, 1)[-1]
                    res.append(("HUNG" if st1 is None else "DIED", st1, e1[-2000:], out))
                    hung += st1 is None
        return res

    def one(self, body):
        r, _, st, o, e = self.run_once([body], self.single)
        if r[0] is not None:
            return r[0]
        return ("HUNG" if st is None else "DIED", st, e[-2000:], o.split("%s 0\n" % BEGIN, 1)[-1])

def fmt(x):
    return x if isinstance(x, str) else "%s status=%s\n%s\n%s" % (x[0], x[1], x[3], x[2])

# ---------------------------------------------------------------------------
def pool(fn, args):
    """Run fn(arg) for each arg in separate processes; returns the list of results."""
    ctx = multiprocessing.get_context("fork")
    qs = []
    for a in args:
        r, w = ctx.Pipe(False)
        def child(a=a, w=w):
            try:
                w.send((True, fn(a)))
            except CannotBuild as ex:
                w.send((False, "CannotBuild " + str(ex)))
            except BaseException:
                w.send((False, traceback.format_exc()))
            w.close()
            os._exit(0)
        p = ctx.Process(target=child)
        p.start(); w.close()
        qs.append((p, r))
    out = []
    for p, r in qs:
        try:
            out.append(r.recv())
        except EOFError:
            out.append((False, "worker died"))
        p.join()
    bad = [e for ok, e in out if not ok]
    if bad:
        raise RuntimeError("worker failed:\n" + bad[0])
    return [v for _, v in out]

def enumerate_batches(ctx, gen, oh, judge=None, prelude="", size=400, deadline=None, env=None, normalize=None, catch=True,
                      setup=None, timeout=30, single_timeout=10, workers=None, name=None, steps=None, fresh=None, inspect=None):
    """The common engine of the reference-model checks. gen() yields (key, body, expect) where expect
    is a string or a thunk; every case is run on the real shell by one of NCPU workers, and its output is
    compared with what the reference model says. Every disagreement is re-run alone five times, and, if it
    needs what ran before it in the same shell, with its predecessors three times. fresh(dir, key) makes a case's
    files; inspect(dir, key, out) then says what was observed in place of the output alone, and removes them."""
    deadline = deadline or (ctx.start + (300 if ctx.quick else 820))
    nw = workers or NCPU
    def work(w):
        d = os.path.join(ctx.scratch, "w%d" % w)
        b = Batch(oh, d, prelude=prelude, size=size, env=env(d) if env else None, catch=catch, timeout=timeout, single_timeout=single_timeout)
        if setup:
            setup(d)
        bad, n, complete, samples, outcomes, nsteps, skipped = [], 0, True, [], set(), 0, 0
        pend = []
        def flush():
            nonlocal n, nsteps, complete
            outs = b.outputs([p[1] for p in pend])
            for i, ((key, body, exp), out) in enumerate(zip(pend, outs)):
                if out is SKIPPED:
                    complete = False
                    break
                n += 1
                nsteps += steps(body) if steps else body.count("\n") + 1
                if inspect:
                    out = inspect(d, key, out)
                o = out
                if normalize and isinstance(o, str):
                    o = normalize(o)
                outcomes.add(hash(exp if isinstance(exp, str) else repr(exp)))
                ok = judge(key, body, exp, o) if judge else (o == exp)
                if len(samples) < 2 and n % 97 == 1:
                    samples.append({"key": key, "program": body, "expected": exp if isinstance(exp, str) else repr(exp)})
                if not ok and len(bad) < 200:
                    bad.append((key, body, exp, out, [p[1] for p in pend[:i]]))
            pend.clear()
        for i, c in enumerate(gen()):
            if i % nw != w:
                continue
            key, body, exp = c
            if callable(exp):
                exp = exp()
                if exp is None:
                    # The model has no answer: the program does not end.
                    skipped += 1
                    continue
            pend.append((key, body() if callable(body) else body, exp))
            if fresh:
                fresh(d, key)
            if len(pend) >= size:
                flush()
                if time.time() > deadline or len(bad) >= 200 or not complete:
                    complete = False
                    break
        if complete:
            flush()
        confirmed, unconfirmed = [], []
        def fails(key, body, exp, o):
            o2 = normalize(o) if normalize and isinstance(o, str) else o
            return not (judge(key, body, exp, o2) if judge else o2 == exp)
        known = [k["key"] for k in ctx.known]
        bad.sort(key=lambda x: x[0] not in known)
        unknown = 0
        for key, body, exp, out, before in bad:
            if key not in known:
                unknown += 1
                if unknown > 6:
                    break
            outs = []
            for _ in range(2 if key in known or not isinstance(out, str) and out[0] == "HUNG" else 5):
                if fresh:
                    fresh(d, key)
                o = b.one(body)
                if inspect:
                    o = inspect(d, key, o)
                outs.append(o)
                if not fails(key, body, exp, o):
                    break
            else:
                confirmed.append((key, body, exp, outs[-1]))
                continue
            if not before:
                unconfirmed.append(key)
                continue
            for _ in range(3):
                if fresh:
                    fresh(d, key)
                o = b.outputs(before + [body])[-1]
                if inspect:
                    o = inspect(d, key, o)
                if not fails(key, body, exp, o):
                    unconfirmed.append(key)
                    break
            else:
                confirmed.append((key, b.script(before + [body]), exp, o))
        return dict(n=n, complete=complete, bad=confirmed, samples=samples, unconfirmed=unconfirmed, outcomes=outcomes, procs=b.processes, steps=nsteps)
    rs = pool(work, range(nw))
    n = sum(r["n"] for r in rs)
    outcomes = set().union(*[r["outcomes"] for r in rs])
    if not all(r["complete"] for r in rs):
        ctx.exhaustive = False
    for r in rs:
        for key, body, exp, out in r["bad"]:
            ctx.violation(key, "%s: expected %r got %r" % (key, exp, out if isinstance(out, str) else out[:2]),
                          "program:\n%s\n\nexpected:\n%s\n\ngot:\n%s\n" % (body, exp, fmt(out)))
    c = ctx.cov
    ctx.count(states=len(outcomes), transitions=sum(r["steps"] for r in rs), traces=n)
    un = [k for r in rs for k in r["unconfirmed"]]
    if un:
        c.setdefault("unconfirmed_disagreements", []).extend(un[:10])
    c.setdefault("families", []).append({"family": name or "programs", "programs": n, "distinct_expected_outcomes": len(outcomes),
                                          "shell_processes": sum(r["procs"] for r in rs), "exhausted": all(r["complete"] for r in rs)})
    c.setdefault("samples", []).extend(rs[0]["samples"][:2])
    return n, len(outcomes)

def enumerate_runs(ctx, gen, judge, deadline=None, env=None, name=None, timeout=10, setup=None, prepare=None, cleanup=None, workers=None, priv=False):
    """One process per case. gen() yields (key, argv, stdin bytes or None, expect); judge(expect, status, out, err, dir)
    returns None if the run was right, else what was wrong. prepare(dir, key, expect) makes the case's files."""
    deadline = deadline or (ctx.start + (300 if ctx.quick else 820))
    nw = workers or NCPU
    def work(w):
        d = os.path.join(ctx.scratch, "r%d" % w)
        os.makedirs(d, exist_ok=True); os.chmod(d, 0o777)
        if setup:
            setup(d)
        e = env(d) if env else scratch_env(d)
        def once(key, argv, stdin, exp):
            if prepare:
                prepare(d, key, exp)
            st, o, er = run(argv, d, timeout, e, stdin, priv=priv)
            o, er = o.decode("utf-8", "surrogateescape"), er.decode("utf-8", "replace")
            return judge(exp, st, o, er, d), st, o, er
        bad, n, complete, samples, outcomes, un = [], 0, True, [], set(), []
        for i, (key, argv, stdin, exp) in enumerate(gen()):
            if i % nw != w:
                continue
            n += 1
            why, st, o, er = once(key, argv, stdin, exp)
            outcomes.add(hash((st, o)))
            if len(samples) < 2 and n % 61 == 1:
                samples.append({"case": key, "argv": argv, "expected": repr(exp)[:400]})
            if why:
                for _ in range(1 if key in [k["key"] for k in ctx.known] or st is None else 4):
                    why2, st, o, er = once(key, argv, stdin, exp)
                    if not why2:
                        un.append(key)
                        break
                else:
                    bad.append((key, why, "argv: %r\nstdin: %r\n%s\nexpected: %r\nstatus: %r\nstdout: %r\nstderr: %r" % (argv, stdin, why, exp, st, o, er[-3000:])))
                    if len([b for b in bad if b[0] not in [k["key"] for k in ctx.known]]) >= 6:
                        complete = False
                        break
            if n % 16 == 0 and time.time() > deadline:
                complete = False
                break
        return dict(n=n, bad=bad, complete=complete, samples=samples, outcomes=outcomes, un=un)
    rs = pool(work, range(nw))
    for r in rs:
        for key, why, rep in r["bad"]:
            ctx.violation(key, "%s: %s" % (key, why), rep)
    if not all(r["complete"] for r in rs):
        ctx.exhaustive = False
    outcomes = set().union(*[r["outcomes"] for r in rs])
    n = sum(r["n"] for r in rs)
    ctx.count(states=len(outcomes), transitions=n, traces=n)
    un = [k for r in rs for k in r["un"]]
    if un:
        ctx.cov.setdefault("unconfirmed_disagreements", []).extend(un[:10])
    ctx.cov.setdefault("families", []).append({"family": name or "runs", "processes": n, "distinct_outcomes": len(outcomes), "exhausted": all(r["complete"] for r in rs)})
    ctx.cov.setdefault("samples", []).extend(rs[0]["samples"][:2])

# ---------------------------------------------------------------------------
def main(mod):
    for sig in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM):  # ignored, say, when run by nohup; inherited by what is checked
        if signal.getsignal(sig) == signal.SIG_IGN:
            signal.signal(sig, signal.SIG_DFL)
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = Ctx(prop, tier, mod.LEVEL)
    try:
        mod.run(ctx)
    except CannotBuild as e:
        print("# cannot build on this tree, nothing explored:\n" + str(e)[-3000:])
        ctx.exhaustive = False
        ctx.cov["explanation"] = "nothing explored: the harness did not build on this tree"
    except BaseException as e:
        traceback.print_exc()
        if not ctx.violations:
            ctx.exhaustive = False
            ctx.cov["explanation"] = "the check stopped early: %r" % (e,)
    rc = ctx.finish()
    ctx.cleanup()
    return rc
