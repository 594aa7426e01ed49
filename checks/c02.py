"""C02: the commands read do not depend on how the text is cut into pieces."""
import itertools, os, subprocess, time
import readv, vc
from pty_session import RC, Session
PROP, LEVEL = "C02", "model_checking"
TECHNIQUE = "explicit-state exploration of the real reader against an executable reference grammar (bounded-exhaustive), and every short sequence of lines typed into the real shell on a pseudo terminal against the same lines in a script"
NOTE = "Exhaustive for every text up to the stated token lengths; trusts the reference grammar in harness/readv/ref.go."

SAY = """define say (method ((args)) {
    write-line $args >> out
})
"""
LINES = ["", "  ", "say x", "say 'a", "b'", "say \"g", "h\" i", "block {", "    say y", "}", "say c \\", "say d &&", "# e 'f", "say (block {", "})", "say k; say l"]

def typed(ctx, limit):
    """Every sequence of lines that a script accepts does the same when it is typed."""
    oh = ctx.build_oh()
    def place(w):
        d = os.path.join(ctx.scratch, "i%d" % w)
        if not os.path.isdir(d):
            os.makedirs(d); os.chmod(d, 0o777)
            with open(d + "/rc", "w") as f:
                f.write(SAY + RC)
        return d
    def said(d):
        p = d + "/out"
        try:
            with open(p) as f:
                return f.read()
        except FileNotFoundError:
            return ""
        finally:
            if os.path.exists(p):
                os.unlink(p)
    def script(d, lines):
        said(d)
        with open(d + "/script", "w") as f:
            f.write("".join(l + "\n" for l in lines))
        os.chmod(d + "/script", 0o644)
        env = dict(vc.scratch_env(d), OH_RC=d + "/rc")
        r = vc.run([oh, d + "/script"], d, 10, env)
        return said(d) if r[0] == 0 and not r[2] else None
    def session(d, lines):
        said(d)
        s = Session([oh], dict(vc.scratch_env(d), OH_RC=d + "/rc", OH_HISTORY=d + "/history", TERM="xterm"), d)
        try:
            for line in lines:
                if not s.prompt():
                    return "(no prompt for %r)" % line
                s.type(line.encode() + b"\r")
            if not s.prompt():
                return "(no prompt at the end)"
            s.type(b"\x04")
            if s.end() is None:
                return "(the session did not end)"
        finally:
            s.close()
        return said(d)
    cases = [c for n in range(1, 4 if ctx.quick else 5) for c in itertools.product(LINES, repeat=n)
             if any("say" in l for l in c) and sum(map(len, c)) and (n < 4 or "" in c)]
    def work(w):
        d, bad, n, m = place(w), [], 0, 0
        for c in cases[w::vc.NCPU]:
            if time.time() > limit:
                return n, m, bad, False
            n += 1
            want = script(d, c)
            if want is None or not want:
                continue
            m += 1
            got = session(d, c)
            for again in range(3):
                if got == want:
                    break
                got = session(d, c)
            if got != want:
                bad.append((c, want, got))
                if len(bad) > 3:
                    break
        return n, m, bad, True
    n = m = 0
    for a, b, bad, done in vc.pool(work, list(range(vc.NCPU))):
        n, m = n + a, m + b
        ctx.exhaustive &= done
        for c, want, got in bad:
            ctx.violation("typed: %r" % (c,), "typed: %r: said %r and not %r" % (c, got, want), "lines typed: %r\nin a script:\n%s\ntyped:\n%s\n" % (c, want, got))
    ctx.count(states=n, transitions=n + m, traces=m)
    ctx.cov.setdefault("families", []).append({"family": "typed a line at a time", "cases": n, "accepted and typed": m, "all": len(cases)})

def run(ctx):
    q = ctx.quick
    fams = []
    for alpha, n3, n2 in (("full", (2, 3), (4,)), ("ops", (3, 4), (5,)), ("nest", (4,), (5,)), ("meta", (3,), (4,)), ("eq", (4,), (5,)), ("word", (3,), (4,)), ("chain", (2,), (3,)), ("core", (3,), (4,))):
        for n in n3:
            fams.append(("%s, length %d, every cut in two or three" % (alpha, n), ["-mode", "chunks3", "-alpha", alpha, "-n", str(n)]))
        for n in n2:
            fams.append(("%s, length %d, every cut in two" % (alpha, n), ["-mode", "chunks2", "-alpha", alpha, "-n", str(n)]))
    if not q:
        fams += [("%s, length %d, every cut in two or three" % (a, n), ["-mode", "chunks3", "-alpha", a, "-n", str(n)])
                 for a, n in (("full", 4), ("ops", 5), ("nest", 5), ("core", 5), ("eq", 5), ("meta", 4), ("ops", 6))]
    ctx.cov["rule"] = "every text of the family times every way of cutting it at character boundaries; the commands and error the real reader delivers compared with those of the reference model for the same pieces"
    ctx.assumptions = ["cuts are between characters, not inside a multi-byte character"]
    readv.explore(ctx, fams, 120 if q else 640)
    typed(ctx, time.time() + (90 if q else 120))
