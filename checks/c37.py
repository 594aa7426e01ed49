"""C37: a stopped job resumes exactly where it stopped."""
import itertools, re
import e2, vc, c35
from c36 import ELEMS, parse
PROP, LEVEL = "C37", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter and job monitor: the stop key typed at every scheduling point of small foreground commands, then fg or bg, under every interleaving up to a preemption bound; and every sequence of job control commands up to a depth against a reference job table"
NOTE = ("The terminal, the processes and their signals are the model in harness/mos. A command that is blocked in a channel or pipe operation does not stop until that ends (known findings).")

def whole(els):
    exp = {}
    for e in els:
        for t, vs in ELEMS[e][1].items():
            exp.setdefault(t, []).extend(sorted(v - {"(|status 130|)"}) for v in vs)
    exp.setdefault("a", []).append(["end"])
    return exp

def wrong(line):
    if line.startswith(("HANG", "CRASH", "BUDGET")):
        return "the shell does not get to the next command"
    return None

def listed(rest):
    """The first lines of the jobs that were listed when they stopped, with their numbers."""
    return re.findall(r"^\[(\d+)\]\+?\t(.*)$", rest, re.M)

def key_program(els, keys, at, resume):
    body = []
    for i, e in enumerate(els):
        if i == at:
            body.append("keys " + " ".join(keys))
        body += ELEMS[e][0]
    if at == len(els):
        body.append("keys " + " ".join(keys))
    body += ["note a end", "mark end"]
    exp = whole(els)
    src = ["block {\n%s\n}" % "\n".join(body)] + resume + ["note c (marked end)"]
    def allowed(line):
        w = wrong(line)
        if w:
            return w
        rest, notes = parse(line)
        ls = listed(rest)
        if len(ls) > len(keys):
            return "listed more often than stopped: %s" % ls
        if any(n != "1" for n, _ in ls) and len(keys) == 1:
            return "job number: %s" % ls
        at_end = any(l.startswith("note c") for _, l in ls)
        at_bg = any(l.startswith("wait (bg") for _, l in ls)
        for t, vs in exp.items():
            ns = notes.get(t, [])
            if len(ns) != len(vs) or any(n not in v for n, v in zip(ns, vs)):
                return "%s noted %s and not %s" % (t, ns, vs)
        if set(notes) - set(exp) - {"c"}:
            return "notes nobody should make"
        if at_end:
            return None if "c" not in notes else "a stopped command went on"
        if notes.get("c") not in (["1"], ["(|number 1|)"]) and not at_bg:
            return "the next command ran before the resumed one ended: %s" % notes.get("c")
        if "error: job does not exist" not in rest and not ls:
            return "nothing to resume but no error"
        return None
    return src, allowed

def key_family(alphabet, n, keys, resume, ats=None, tag=""):
    ps = []
    for els in itertools.product(alphabet, repeat=n):
        if len(set(els)) < len(els) or els[0] == "w" or "p" in els and "w" not in els[els.index("p"):]:
            continue   # (What a command leaves running when it ends is not stopped with it.)
        for at in ats if ats is not None else range(n + 1):
            src, allowed = key_program(els, keys, at, resume)
            ps.append(dict(Key="%s %s at %d, %s%s" % ("".join(els), "+".join(keys), at, "; ".join(resume), tag), Src=src, Keys=[], Allowed=allowed))
    return ps

# ---- Sequences of commands against a job table. A job is a line that stops so many times, then notes its status.
PRELUDE = '''define one: method () = {
    note one (p-stop 1)
}
define two: method () = {
    note two (p-stop 1)
    note two (p-stop 2)
}
define safely: method (f n) = {
    catch e {
        note err caught
        return 1
    }
    f $n
}
'''
OPS = {"1": "one", "2": "two", "f": "fg", "F": "fg 1", "G": "fg 2", "j": "jobs", "b": "wait (bg)", "B": "wait (bg 1)", "C": "wait (bg 2)"}
STATUS = {"one": [1], "two": [1, 2]}

def table(seq):
    """What is printed and noted, or None if a job is made to wait for a job that stops again."""
    jobs, out, err, notes, last = {}, "", "", {}, ""
    def run(name, done, line):
        """One more stretch of a job: does it stop again?"""
        st = STATUS[name]
        if done > 0:
            notes.setdefault(name, []).append("(|status %d|)" % st[done - 1])
        return done < len(st)
    for o in seq:
        line = OPS[o]
        if o in "12":
            n = max(jobs, default=0) + 1
            run(line, 0, line)
            jobs[n] = [line, 0]
            out += "[%d]+\t%s\n" % (n, line)
        elif o == "j":
            for k in sorted(jobs):
                out += "[%d]%s\t%s\n" % (k, "+" if k == max(jobs) else "", jobs[k][0])
        else:
            n = {"f": max(jobs, default=0), "b": max(jobs, default=0), "F": 1, "B": 1, "G": 2, "C": 2}[o]
            if n not in jobs:
                err += "error: job does not exist\n"
                continue
            name, done = jobs.pop(n)
            out += name + "\n"
            if run(name, done + 1, name):
                if o in "bBC":
                    return None
                m = max(jobs, default=0) + 1
                jobs[m] = [name, done + 1]
                out += "[%d]+\t%s\n" % (m, name)
    return out, err, notes

def sequences(n, ops):
    ps = []
    for seq in itertools.product(ops, repeat=n):
        if seq[0] not in "12":
            continue
        t = table(seq)
        if t is None:
            continue
        out, err, notes = t
        def allowed(line, out=out, err=err, notes=notes):
            w = wrong(line)
            if w:
                return w
            rest, ns = parse(line)
            o, _, e = rest.partition("\nstderr: ")
            o = o[:o.rindex("=")] if "=" in o else o
            if o != out:
                return "printed %r and not %r" % (o, out)
            if e.strip() != err.strip():
                return "complained %r and not %r" % (e, err)
            return None if ns == notes else "noted %s and not %s" % (ns, notes)
        ps.append(dict(Key="jobs " + "".join(seq), Src=[OPS[o] for o in seq], Keys=[], Allowed=allowed))
    return ps

def special():
    ps = []
    def add(key, src, notes, out=None, last=True, **o):
        def allowed(line):
            w = wrong(line)
            if w:
                return w
            rest, ns = parse(line)
            if all(ns != x for x in (notes if isinstance(notes, list) else [notes])):
                return "noted %s and not %s" % (ns, notes)
            if out is not None and not re.search(out, rest, re.S):
                return "printed %r" % rest
            return None
        ps.append(dict(dict(Key=key, Src=src, Keys=[], Allowed=allowed), **o))
    st = "(|status %d|)"
    job = "block {\nnote a (p-stop 3)\nnote b 1\n}"
    add("killed while stopped", [job, "p-send 9", "fg", "note c 3"], {"a": [st % 137], "b": ["1"], "c": ["3"]}, r"^\[1\]\+\tblock")
    add("killed while stopped, then bg", [job, "p-send 9", "wait (bg)", "note c 3"], {"a": [st % 137], "b": ["1"], "c": ["3"]}, r"^\[1\]\+\tblock")
    add("terminated while stopped", [job, "p-send 15", "fg", "note c 3"], {"a": [st % 143], "b": ["1"], "c": ["3"]}, r"^\[1\]\+\tblock")
    add("continued by another", [job, "p-send 18", "fg", "note c 3"], {"a": [st % 3], "b": ["1"], "c": ["3"]}, r"^\[1\]\+\tblock")
    add("stopped in bg", ["block {\nnote a (p-stop 3)\nnote a (p-stop 4)\nnote b 1\n}", "bg", "mark x", "mark y"], [{"a": [st % 3]}], r"^\[1\]\+\tblock.*\[1\]\+\tblock")
    add("task spawned before", ["block {\nspawn {\nnote t 1\nnote t 2\n}\nnote a (p-stop 3)\nwait\n}", "fg", "note c 3"], {"t": ["1", "2"], "a": [st % 3], "c": ["3"]})
    add("task with a process", ["block {\nspawn {\nnote t (p-stop 2)\nnote t 2\n}\nwait\nnote a 1\n}", "fg", "note c 3"], {"t": [st % 2, "2"], "a": ["1"], "c": ["3"]}, r"^\[1\]\+\tblock")
    add("two processes", ["block {\nspawn {\nnote t (p-stop 2)\nnote t 2\n}\nnote a (p-stop 3)\nwait\n}", "fg", "fg", "note c 3"], {"t": [st % 2, "2"], "a": [st % 3], "c": ["3"]}, r"^\[1\]\+\tblock", Stages=[(0, True, 8)])
    add("one process ends as another stops", ["block {\nspawn {\nnote t (p-exit 2)\n}\nnote a (p-stop 3)\nwait\n}", "fg", "note c 3"], {"t": [st % 2], "a": [st % 3], "c": ["3"]}, r"^\[1\]\+\tblock", Stages=[(0, True, 8)])
    add("rest of the line", [job, "block {\nfg\nnote d 1\n}", "note c 3"], {"a": [st % 3], "b": ["1"], "c": ["3"], "d": ["1"]})
    add("result of bg", ["block {\nnote a (p-stop 3)\n}", "block {\ndefine t: bg\nwait $t\nnote d 1\n}", "note c 3"], {"a": [st % 3], "c": ["3"], "d": ["1"]})
    add("no such job", ["safely $fg 1", "safely $bg 1", "note c 3"], {"err": ["caught"] * 2, "c": ["3"]})
    add("no such job, one there", [job, "safely $fg 2", "safely $bg 7", "fg", "note c 3"], {"err": ["caught"] * 2, "a": [st % 3], "b": ["1"], "c": ["3"]})
    add("left running, stopped", ["block {\nspawn {\nnote t (p-stop 2)\nnote t 2\n}\n}", "fg", "note c 3"], {"t": [st % 2, "2"], "c": ["3"]})
    # Blocked where they do not stop.
    add("blocked: channel read", ["block {\ndefine g: chan\nspawn {\np-stop 0\ng write 1\n}\nnote a (g read)\n}", "fg", "note c 3"], {"a": ["1"], "c": ["3"]})
    add("blocked: capture", ["note a (capture (p-stop 0))", "fg", "note c 3"], {"a": ["()"], "c": ["3"]}, Stages=[(0, True, 20)])
    return ps

def run(ctx):
    q = ctx.quick
    plain = e2.build(ctx)
    end = ctx.start + (110 if q else 870)
    st = [(0, True, 2), (1, True, 4)] if q else [(0, True, 10), (1, True, 20), (2, True, 40)]
    kw = dict(deadline=end, monitor=True, prelude=PRELUDE)
    e2.explore(ctx, plain, special(), name="what happens to stopped jobs", stages=st, **kw)
    e2.explore(ctx, plain, sequences(3, "12fFGjbBC") + sequences(4, "12fFjb") + ([] if q else sequences(4, "12fFGjbBC") + sequences(5, "12fFjb")), name="sequences of job control commands", stages=[(0, True, 1)] if q else [(0, True, 2), (1, True, 4)], **kw)
    fams = [("one step, fg", "nxspSclr", 1, ["tstp"], ["fg"], None), ("one step, bg", "nxspScl", 1, ["tstp"], ["wait (bg)"], None), ("two steps, fg", "nxsw" if q else "nxspSwclr", 2, ["tstp"], ["fg"], [0, 1] if q else None),
            ("stopped twice", "nxs" if q else "nxspScl", 1, ["tstp", "tstp"], ["fg", "fg"], [0])]
    if not q:
        fams += [("stopped twice, fg and bg", "nxs", 1, ["tstp", "tstp"], ["fg", "wait (bg)"], [0]), ("three steps, fg", "nxsw", 3, ["tstp"], ["fg"], [0, 1])]
    for name, alphabet, n, keys, resume, ats in fams:
        e2.explore(ctx, plain, key_family(alphabet, n, keys, resume, ats), name=name, stages=st, **kw)
    shared = e2.build(ctx, shared=True)
    ps = [dict(p, Key="memory: " + p["Key"], Shared=True) for p in key_family("nxs", 1, ["tstp"], ["fg"], [0]) + [p for p in special()[:9] if p["Key"] != "stopped in bg"]]
    c35.races(ctx, e2.explore(ctx, shared, ps, name="memory", stages=[(0, True, 2), (1, True, 2)] if q else st, **kw), ps)
