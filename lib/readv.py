"""Driving harness/readv: exhaustive exploration of the real reader against the reference grammar."""
import json, os, subprocess, time
import vc

def shards(ctx, exe, args, budget):
    """All shards of one family; returns the summed report."""
    procs = []
    for s in range(vc.NCPU):
        procs.append(subprocess.Popen([exe] + args + ["-shard", str(s), "-of", str(vc.NCPU), "-budget", "%ds" % budget],
                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"))
    tot = {}
    bad = []
    finished = True
    for p in procs:
        try:
            o, e = p.communicate(timeout=budget + 60)
        except subprocess.TimeoutExpired:
            p.kill(); o, e = p.communicate()
            finished = False
            continue
        if o.startswith("HANG"):
            t = o.strip().split(" ", 1)[1]
            bad.append({"Key": t, "What": "reading does not finish", "Want": "", "Got": "HANG"})
            continue
        try:
            r = json.loads(o)
        except ValueError:
            bad.append({"Key": "crash", "What": "the reader crashed the process", "Want": "", "Got": (o + e)[-3000:], "crash": True})
            continue
        for k, v in r.items():
            if isinstance(v, int) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
        finished = finished and r["finished"] and not r["Violations"]
        bad += r["Violations"] or []
        tot.setdefault("samples", []).extend(r["Samples"] or [])
    return tot, bad, finished

def confirm(exe, v):
    """Five more runs of the same text in a fresh process each."""
    out = ""
    f = exe + ".one"
    with open(f, "w") as h:
        h.write(v["Key"])
    for _ in range(5):
        try:
            r = subprocess.run([exe, "-onefile", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=40)
            out = r.stdout
            if r.returncode == 0:
                return False, out
        except subprocess.TimeoutExpired:
            out = "no answer in 40 s"
    return True, out

def explore(ctx, families, total, harness="readv", confirms=True):
    """families: list of (name, args). total: seconds for all of them."""
    exe = ctx.build_harness(harness)
    c = ctx.cov
    end = time.time() + total
    for name, args in families:
        left = int(end - time.time())
        if left < 5:
            ctx.exhaustive = False
            c.setdefault("not_reached", []).append(name)
            continue
        t, bad, fin = shards(ctx, exe, args, left)
        seen = 0
        for v in bad:
            if v.get("crash"):
                # Find the text by asking for a replay: a crash is deterministic in this single-goroutine use.
                ctx.violation("crash", "the reader crashed the process: " + v["Got"][-300:], "harness/readv %s\n%s" % (" ".join(args), v["Got"]))
                continue
            ok, out = confirm(exe, v) if confirms else (True, "")
            if ok:
                ctx.violation(v["Key"], "%s: text %s: expected %r got %r" % (v["What"], v["Key"][:300], v["Want"][:300], v["Got"][:300]),
                              "harness: -one '%s'\n%s\nfamily: %s" % (v["Key"], out, " ".join(args)))
            else:
                c["unconfirmed_disagreements"] = c.get("unconfirmed_disagreements", 0) + 1
            seen += 1
            if seen >= 5:
                break
        if not fin:
            ctx.exhaustive = False
        ctx.count(states=t.get("Distinct", 0), transitions=t.get("Steps", 0), traces=(t.get("Pieces", 0) or t.get("Cases", 0)) - t.get("Unspecified", 0))
        c.setdefault("families", []).append({"family": name, "texts": t.get("Cases", 0), "cuts": t.get("Pieces", 0), "well_formed": t.get("Complete", 0),
            "malformed": t.get("Bad", 0), "unfinished": t.get("Partial", 0), "left_unspecified": t.get("Unspecified", 0), "distinct_readings": t.get("Distinct", 0), "exhausted": fin})
        c.setdefault("samples", []).extend(t.get("samples", [])[:2])
    c["samples"] = c.get("samples", [])[:8]
