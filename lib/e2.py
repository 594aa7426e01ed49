"""Engine E2: the real interpreter, job monitor, pipes and channels under a controlled scheduler.

The rewriter replaces go statements, channels, select, sync, atomics, timers and the operating system calls of the
working tree's own source by the scheduler's (harness/mc, msync, matomic, mos); mcrun then runs small shell programs
under every schedule (dynamic partial order reduction with source sets), and reports the set of outcomes. A check
compares that set with what the property allows."""
import json, os, queue, select, shutil, subprocess, threading, time
import vc

DUMMIES = "p-exit p-kill p-echo p-yes p-cat p-head p-sink p-sleep p-stop p-steps p-send p-bad p-from p-onto rm".split()

def build(ctx, shared=False, what="mcrun"):
    """Rewrites the working tree into a scratch overlay and builds the explorer; returns its path."""
    d = os.path.join(ctx.scratch, "e2s" if shared else "e2")
    if not os.path.isdir(d):
        os.makedirs(d)
        rw = os.path.join(ctx.scratch, "rw")
        r = ctx.go(["build", "-o", rw, os.path.join(vc.VERIF, "harness/mcrewrite/main.go")])
        if r.returncode:
            raise vc.CannotBuild(r.stdout)
        r = subprocess.run([rw, vc.REPO, d, os.path.join(vc.VERIF, "harness"), "1" if shared else "0"], env=vc.GOENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise vc.CannotBuild("rewriting: " + r.stdout)
    out = os.path.join(d, what)
    r = ctx.go(["build", "-overlay", os.path.join(d, "overlay.json"), "-o", out, "./internal/zzverif/" + what])
    if r.returncode:
        raise vc.CannotBuild(r.stdout)
    os.chmod(out, 0o755); os.chmod(d, 0o755)
    return out

def place(ctx, n):
    d = os.path.join(ctx.scratch, "m%d" % n)
    b = os.path.join(d, "bin")
    if not os.path.isdir(b):
        os.makedirs(b)
        for x in DUMMIES:
            with open(os.path.join(b, x), "w") as f:
                f.write("#!/bin/sh\n")
            os.chmod(os.path.join(b, x), 0o755)
        os.chmod(d, 0o777)
        os.chmod(b, 0o755)
    return d, b

class Runner:
    """One mcrun process, restarted when it has become unusable."""
    def __init__(self, ctx, binary, n, monitor=False, files=None, prelude=None):
        self.binary, self.p = binary, None
        self.dir, b = place(ctx, n)
        for name, text in (files or {}).items():
            with open(os.path.join(self.dir, name), "w") as f:
                f.write(text)
        self.env = {"HOME": self.dir, "PATH": b, "USER": "u", "LANG": "C", "LC_ALL": "C", "TZ": "UTC", "OH_RC": "/nonexistent", "GOMAXPROCS": "2"}
        if prelude:
            with open(os.path.join(self.dir, "prelude.oh"), "w") as f:
                f.write(prelude)
            self.env["MC_PRELUDE"] = os.path.join(self.dir, "prelude.oh")
        if monitor:
            self.env["MC_MONITOR"] = "1"
        self.starts = 0

    def start(self):
        self.starts += 1
        kw = dict(user=vc.NOBODY, group=vc.NOBODY, extra_groups=[]) if os.geteuid() == 0 and vc.unprivileged() else {}
        self.err = open(os.path.join(self.dir, "err.log"), "w+b")
        self.p = subprocess.Popen([self.binary], cwd=self.dir, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, preexec_fn=vc._limits, **kw)

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            self.p.wait()
            self.p.stdin.close() if self.p.stdin else None
            self.p.stdout.close()
            self.p = None

    def ask(self, prog, timeout):
        """The answer, or (None, why)."""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        try:
            self.p.stdin.write((json.dumps(prog) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        buf, end = b"", time.time() + timeout
        while not buf.endswith(b"\n"):
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.stop()
                return None, "no answer in time"
            x = os.read(self.p.stdout.fileno(), 1 << 20)
            if not x:
                self.stop()
                self.err.seek(0)
                return None, "ended: " + self.err.read().decode("utf-8", "replace")[:4000]
            buf += x
        d = json.loads(buf)
        if d.get("report", {}).get("dirty"):
            self.stop()
        return d, None

def classify(o):
    """One line for an outcome, the same on every run."""
    if o["status"] == "done":
        return o["text"]
    if o["status"] == "deadlock":
        return "HANG " + o["text"]
    d = o.get("detail", "").split("\n")[0]
    return o["status"].upper() + " " + d[:200]

def explore(ctx, binary, progs, judge=None, name="schedules", deadline=None, stages=None, monitor=False, files=None, workers=None, prelude=None):
    """progs: dicts with Key, Src and Allowed (a set of outcome texts, or a function of the outcome line giving None
    or what is wrong); All: outcomes that must all be seen (checked when exhausted). Known findings are identified by
    '<Key>: <outcome line>'."""
    deadline = deadline or (ctx.start + (60 if ctx.quick else 800))
    # Without a bound if that can be done, else with up to so many preemptions (completely, then only what reduction leaves).
    stages = stages or ([(None, False, 1), (0, False, 2), (1, False, 3)] if ctx.quick else [(None, False, 30), (0, False, 20), (1, False, 30), (2, False, 60), (3, True, 20)])
    q = queue.Queue()
    for i, p in enumerate(progs):
        q.put((i, p))
    res = [None] * len(progs)
    lock = threading.Lock()
    def wrong(p, line):
        a = p.get("Allowed")
        if callable(a):
            return a(line)
        return None if line in a else "not one of %r" % sorted(a)[:4]
    def work(n):
        r = Runner(ctx, binary, n, monitor, files, prelude)
        failed = 0
        while failed < 5 and len(ctx.violations) + sum(len(r[2]) for r in res if r) < 40:
            try:
                i, p = q.get_nowait()
            except queue.Empty:
                break
            left = deadline - time.time()
            if left <= 0.5:
                continue
            base = {k: v for k, v in p.items() if k not in ("Allowed", "All", "Stages")}
            bad, got, level, total, why = [], {}, None, None, None
            for bound, loose, secs in p.get("Stages", stages):
                left = deadline - time.time()
                if left <= 0.5:
                    break
                msg = dict(base, Seconds=min(secs, left))
                if bound is not None:
                    msg.update(Bound=bound, Loose=loose)
                d, why = r.ask(msg, msg["Seconds"] + 30)
                failed = 0 if d else failed + 1
                if not d:
                    break
                R = d["report"]
                if total is None:
                    total = dict(executions=0, transitions=0, diverged="", races=set())
                total["executions"] += R["executions"]; total["transitions"] += R["transitions"]
                total["diverged"] = total["diverged"] or R["diverged"]
                total["races"] |= set(R.get("races") or [])
                for o in R["outcomes"]:
                    if classify(o) in got:
                        continue
                    got[classify(o)] = o
                    w = wrong(p, classify(o))
                    if w and len(bad) < 8:
                        # Again, with the schedule given: the same must come of it.
                        m2 = dict(msg, Schedule=o["schedule"] or " ")
                        d2, _ = r.ask(m2, 60) if o["schedule"] else (None, None)
                        r.stop()
                        tr = (d2["trace"] or []) if d2 else []
                        same = bool(d2) and classify(d2["outcome"]) == classify(o) and not d2.get("diverged")
                        bad.append((o, w, tr, same))
                if R["exhausted"]:
                    level = "all" if bound is None else "%d, reduced" % bound if loose else bound
                    if bound is None:
                        break
                elif bound is not None and not loose:
                    break   # A larger bound will not do either.
            res[i] = (total, why, bad, level, got)
        r.stop()
    ts = [threading.Thread(target=work, args=(n,)) for n in range(workers or vc.NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    execs = trans = outs = 0
    levels, samples, left = {}, [], []
    for p, r in zip(progs, res):
        if r is None or r[0] is None:
            ctx.exhaustive = False
            left.append(p["Key"])
            if r:
                ctx.cov.setdefault("unanswered", []).append("%s: %s" % (p["Key"], (r[1] or "")[:1500]))
            continue
        R, why, bad, level, got = r
        execs += R["executions"]; trans += R["transitions"]; outs += len(got)
        levels[str(level)] = levels.get(str(level), 0) + 1
        if level is None:
            left.append(p["Key"])
            ctx.exhaustive = False
        if R["diverged"]:
            ctx.cov.setdefault("diverged", []).append("%s: %s" % (p["Key"], R["diverged"][:500]))
        if len(samples) < 4 and len(got) > 1 or len(samples) < 2:
            o = list(got.values())[-1]
            samples.append({"program": p["Key"], "source": p["Src"], "executions": R["executions"], "outcomes": [x[:200] for x in got][:6], "schedule": o["schedule"][:300]})
        for o, w, tr, same in bad:
            line = classify(o)
            if not same:
                ctx.cov.setdefault("unconfirmed_disagreements", []).append("%s: %s" % (p["Key"], line[:300]))
                continue
            ctx.violation("%s: %s" % (p["Key"], line), "%s: %r %s" % (p["Key"], line, w),
                          "program (top-level commands):\n%s\n\noutcome: %s\n%s\n%s\n%s\n\nschedule (goroutine[.alternative][*times]):\n%s\n\nlast steps:\n%s\n" % (
                              "\n".join(p["Src"]), line, w, o.get("detail", ""), o.get("blocked", ""), o["schedule"], "\n".join(tr[-400:])))
        missing = [x for x in p.get("All", []) if x not in got]
        if missing and level == "all" and not bad:
            ctx.violation("%s: never %s" % (p["Key"], missing[0]), "%s: no schedule gives %r" % (p["Key"], missing[0]),
                          "program:\n%s\n\noutcomes seen: %r\n" % ("\n".join(p["Src"]), list(got)))
    ctx.count(states=outs, transitions=trans, traces=execs)
    ctx.cov.setdefault("families", []).append({"family": name, "programs": len(progs), "schedules_explored": execs, "programs_by_preemption_bound_completed": {("no bound" if k == "all" else "none" if k == "None" else k): v for k, v in sorted(levels.items())},
                                              "outcomes": outs, "not_exhausted": left[:40]})
    ctx.cov.setdefault("samples", []).extend(samples[:4])
    return res
