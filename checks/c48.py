"""C48: the file-name cache answers with the file system as it is."""
import os, subprocess, threading, time
import e2, sysfault, vc
PROP, LEVEL = "C48", "model_checking"
TECHNIQUE = "exhaustive fault injection on the real cache (every change of the directory and every error at every file operation of a scan, alone and in pairs), exhaustive enumeration of change and query sequences, and stateless model checking of concurrent queries with race detection"
NOTE = "Directories of up to three entries of seven kinds (and one of 300 that takes several reads). The operations are those of Go's package syscall, which is built with a hook for this. A symbolic link to a directory counts as a file."
FAMILIES = ["histories", "faults", "many", "table"]

def run(ctx):
    oh = sysfault.build(ctx, ["cachemain/zz_verif_cache.go"])
    limit = ctx.start + (240 if ctx.quick else 800)
    for fam in FAMILIES:
        def work(w, fam=fam):
            d = os.path.join(ctx.scratch, "%s%d" % (fam, w))
            os.makedirs(d); os.chmod(d, 0o777)
            env = vc.scratch_env(d); env["VERIF_CACHE"] = "%s %d %d %s" % (fam, w, vc.NCPU, "quick" if ctx.quick else "thorough")
            env["GOMAXPROCS"] = "2"
            st, out, err = vc.run([oh], d, max(30, limit - time.time()), env)
            try:
                at = open(d + "/progress", "rb").read().split(b"\0")[0].decode(errors="replace")
            except OSError:
                at = "start"
            return st, out.decode(errors="replace"), err.decode(errors="replace"), at
        total = [0] * 4
        for st, out, err, at in vc.pool(work, list(range(vc.NCPU))):
            done = False
            for l in out.splitlines():
                if l.startswith("V "):
                    ctx.violation("%s: %s" % (fam, l[2:]), "%s: %s" % (fam, l[2:]), "driver harness/cachemain, family %s\n%s" % (fam, l))
                elif l.startswith("S "):
                    done = True
                    total = [a + int(b) for a, b in zip(total, l.split()[1:])]
            if not done and st is None and time.time() > limit:
                ctx.exhaustive = False
            elif not done:
                ctx.violation("%s: %s" % (fam, at), "%s: %s at: %s %s" % (fam, "the shell hung" if st is None else "the shell died (status %s)" % st, at, err[:300]), "driver harness/cachemain, family %s\nat: %s\n%s" % (fam, at, err))
        ctx.count(states=total[3], transitions=total[2], traces=total[0])
        ctx.cov.setdefault("families", []).append({"family": fam, "scenarios": total[0], "operations_interrupted": total[1], "queries": total[2], "states": total[3]})
    ctx.cov["rule"] = "every state of the directory, every change or error before every file operation of the scan (alone and in pairs), every two changes between three queries"

    # Concurrent queries.
    mc = e2.build(ctx, shared=True, what="mccache")
    d = os.path.join(ctx.scratch, "mc")
    os.makedirs(d + "/D/s"); os.chmod(d, 0o755)
    for n, m in (("f", 0o644), ("x", 0o755), ("s/y", 0o644)):
        open(d + "/D/" + n, "w").close(); os.chmod(d + "/D/" + n, m)
    def work(n):
        return vc.run([mc, d + "/D", str(n), "3000" if ctx.quick else "100000"], d, max(20, (ctx.start + (300 if ctx.quick else 850)) - time.time()), dict(vc.scratch_env(d), GOMAXPROCS="2"))
    for n, (st, out, err) in zip((2, 3), vc.pool(work, [2, 3])):
        done = False
        for l in out.decode(errors="replace").splitlines():
            if l.startswith("V "):
                ctx.violation("queries: " + l[2:], "concurrent queries %s" % l[2:], "driver harness/mccache\n" + l)
            elif l.startswith("D "):
                ctx.exhaustive = False
                ctx.cov.setdefault("diverged", []).append(l)
            elif l.startswith("S "):
                done = True
                k, ex, steps, left = map(int, l.split()[1:])
                ctx.count(states=k, transitions=steps, traces=ex)
                ctx.cov["families"].append({"family": "%d concurrent queries" % n, "programs": k, "schedules_explored": ex, "not_exhausted": left})
                if left: ctx.exhaustive = False
        if not done and st == 0 or st is not None and st != 0:
            ctx.violation("queries: died", "the shell died with %d concurrent queries: %s" % (n, err.decode(errors="replace")[:400]), err.decode(errors="replace"))
        elif not done:
            ctx.exhaustive = False
