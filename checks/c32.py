"""C32: pipes carry every byte written, in order, and end exactly at close."""
import itertools
import e2, vc
PROP, LEVEL = "C32", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter, pipes and reader: every interleaving (dynamic partial order reduction) and every fragmentation of the transport, outcomes compared with the reachable outcomes of a record queue model"
NOTE = "Every program of up to three tasks with up to three operations (write, write-line, read, read-line, read-list, the three closes) on one pipe, on every schedule; small pipe capacities, so that writers block; one task's sequences with every fragmentation into single bytes or whole buffers. What two closes at the same time, or a read at the same time as closing the read end, answer is left open (a value or an exception). On the real system every sequence of up to two (thorough: three) awkward records in every mixture of reads, and records around the sizes of buffers."
PRELUDE = '''define tw: method (p (v)) {
    catch ex {
        return threw
    }
    p write (splice $v)
    return ok
}
define tl: method (p v) {
    catch ex {
        return threw
    }
    p write-line $v
    return ok
}
define tc: method (p k) {
    catch ex {
        return threw
    }
    if (equal? $k x) {
        p writer-close
    } else if (equal? $k y) {
        p reader-close
    } else {
        p close
    }
    return ok
}
define tr: method (p k) {
    catch ex {
        return threw
    }
    if (equal? $k r) {
        return (p read)
    } else if (equal? $k l) {
        return (p read-line)
    }
    return (p read-list)
}
'''
def line(t, o, v):
    """The command, and whether what it gives is noted."""
    if o in "rlL":
        return "note t%d (tr $p %s)" % (t, o)
    if o in "xyz":
        return "tc $p %s" % o
    return "note t%d (%s)" % (t, {"w": "tw $p %s" % v, "W": "tl $p '%s'" % v, "M": "tw $p %s m" % v, "S": "tl $p '%s s'" % v, "B": "tl $p '%s%s'" % (v, "b" * 9)}[o])

def record(o, v):
    return {"w": v, "W": v, "M": v + " m", "S": v + " s", "B": v + "b" * 9}[o]

def shown(o, rec):
    if rec is None:
        return "()"
    ws = rec.split()
    return {"r": ws[0], "l": "$'%s'" % rec, "L": "(%s)" % " ".join(ws)}[o]

def text(tasks):
    out = ["define p: pipe"]
    for t, ops in enumerate(tasks):
        out.append("spawn {")
        out += ["    " + line(t, o, "%d%d" % (t, k)) for k, o in enumerate(ops)]
        out.append("}")
    return "block {\n    %s\n}" % "\n".join(out).replace("\n", "\n    ")

def up(t, i, v):
    return t[:i] + (v,) + t[i + 1:]

def model(tasks):
    """Outcomes at rest with a queue that is never full."""
    final, seen = set(), set()
    todo = [((0,) * len(tasks), (), False, False, ((),) * len(tasks))]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        pc, q, wc, rc, log = s
        moved = False
        for i, ops in enumerate(tasks):
            if pc[i] == len(ops):
                continue
            o, v = ops[pc[i]], "%d%d" % (i, pc[i])
            def go(q2, wc2, rc2, *obs):
                todo.append((up(pc, i, pc[i] + 1), q2, wc2, rc2, up(log, i, log[i] + obs)))
            if o in "rlL":
                if any(pc[j] < len(x) and x[pc[j]] in "yz" for j, x in enumerate(tasks) if j != i):
                    go(q, wc, rc, "threw")  # The read end is being closed.
                if rc:
                    go(q, wc, rc, "()"); moved = True
                    if any(x in "yz" for j, t in enumerate(tasks) if j != i for x in t):
                        go(q, wc, rc, "threw")
                elif q:
                    go(q[1:], wc, rc, shown(o, q[0])); moved = True
                elif wc:
                    go(q, wc, rc, "()"); moved = True
            elif o in "xyz":
                go(() if o != "x" else q, wc or o in "xz", rc or o in "yz"); moved = True
                if o == "z":
                    # Closing both ends is first one and then the other.
                    todo.append((pc, (), wc, True, log)) if not rc else None
            else:
                if wc or rc:
                    go(q, wc, rc, "threw")
                else:
                    go(q + (record(o, v),), wc, rc, "ok")
                moved = True
        if not moved:
            final.add(tuple(log))
    return {"".join(" t%d:%s" % (i, ",".join(l)) for i, l in enumerate(log) if l) for log in final}

def families(q):
    """(name, per-task operation strings, options)"""
    S = lambda ops, n, least=1: ["".join(x) for k in range(least, n + 1) for x in itertools.product(ops, repeat=k)]
    yield "one task", [(a,) for a in S("wrlx", 4) + S("wMSWrlLxyz", 3)], {}
    two = [(a, b) for a in S("wWx", 2) + ["wwx", "Mwx", "wSx"] for b in S("rlL", 2) + ["rrr", "lrl", "rlr"]]
    yield "writer and reader", two, {}
    yield "two tasks", [(a, b) for a in S("wlxyr", 2) for b in S("wrxyz", 2) if (a <= b or not set(a) <= set("wrxyz")) and (not q or len(a + b) < 4 or "l" in a)], {}
    yield "two writers and a reader", [(a, b, c) for a in (("w", "B") if q else ("w", "W", "B", "wx")) for b in ("w", "S", "wx", "B") for c in (("r", "l") if q else ("r", "l", "rr", "lr"))], {}
    yield "a writer and two readers", [(a, b, c) for a in ("ww", "wx", "WSx") for b in ("r", "l") for c in (("l", "L") if q else ("r", "l", "L", "rr"))], {}

def full(q):
    """Pipes too small for what is written, drained in the end."""
    for cap in ((4, 8) if q else (2, 4, 8, 16)):
        for a in ("ww", "B", "BB", "wB", "Bww", "BSw"):
            for b in ("rl", "lr", "Lr"):
                r = (b * 3)[:len(a)]
                yield cap, (a + "x", r + "r")
        for a, b in (("w", "B"), ("B", "B")):
            yield cap, (a, b, "ll")
            yield cap, (a, b, "rr")

CONTENT = ["", "a", "a b", "\n", "a\n", "\na", "a\n\nb", " ", " a ", "\t", "#x", "'", '"', "\\", "$x", "(", "{", "\r", "a\r", "\0", "\x1b", "\u00e9", "x" * 300]
LONG = [n for k in (4096, 8192, 65000) for n in (k - 1, k, k + 1)]
def quoted(s):
    return "$'" + "".join({"\\": "\\\\", "'": "\\'", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\x00", "\x1b": "\\x1b"}.get(c, c) for c in s) + "'"

def contents(q):
    """What one task writes to a pipe and then reads: every record of awkward text, whatever is beside it."""
    for n in (1, 2) if q else (1, 2, 3):
        for vs in itertools.product(CONTENT, repeat=n):
            for form in ("line", "value") if n == 1 else ("lines", "values", "line value", "value line"):
                body = ["define p: pipe"]
                kinds = [("line" if form.startswith("line") else "value")] * n
                if " " in form:
                    kinds[1:] = [form.split()[1]] * (n - 1)
                reads = []
                for k, v in zip(kinds, vs):
                    body.append("p %s %s" % ("write-line" if k == "line" else "write", quoted(v)))
                    if k == "line":
                        reads += [("read-line", x) for x in (v + "\n").split("\n")[:-1]]
                    else:
                        reads.append(("read", v))
                body.append("p writer-close")
                for r, x in reads:
                    body.append("write-line (equal? %s (p %s))" % (quoted(x), r))
                body.append("write (p read-line)\np close")
                yield "%s %r" % (form, vs), "\n".join(body), "true\n" * len(reads) + "()\n"
    for n in LONG:
        for k, r in (("write-line", "read-line"), ("write", "read")):
            for m in (1, 2):
                v = "'%s'" % ("0123456789" * (n // 10 + 1))[:n]
                body = "define v %s\ndefine p: pipe\nspawn {\n    %s    p writer-close\n}\n%swrite (p read-line)\np reader-close" % (
                    v, ("p %s $v\n    " % k) * m, ("write-line (equal? $v (p %s))\n" % r) * m)
                yield "%s of %d bytes, %d times" % (k, n, m), body, "true\n" * m + "()\n"

def run(ctx):
    q = ctx.quick
    vc.enumerate_batches(ctx, lambda: contents(q), ctx.build_oh(), name="what records contain", deadline=ctx.start + (60 if q else 200))
    mcrun = e2.build(ctx)
    stages = [(None, False, 1), (0, False, 1), (1, False, 3)] if q else [(None, False, 20), (1, False, 20), (2, False, 20)]
    dl = ctx.start + (100 if q else 870)
    ps = [dict(Key="capacity %d %s" % (c, "/".join(t)), Src=[text(t)], Quiet=True, Cap=c, PipeBuf=min(c, 4), Allowed=model(t)) for c, t in full(q)]
    e2.explore(ctx, mcrun, ps, name="full pipes", deadline=dl, prelude=PRELUDE, stages=stages)
    frag = [a for a in ("wrx", "wwrl", "Mlwr", "wSrlx", "WMLl", "wwxrlr", "Bl", "Br", "SLwr")]
    ps = [dict(Key="fragments " + a, Src=[text((a,))], Quiet=True, Fragment=True, Allowed=model((a,))) for a in frag]
    ps += [dict(Key="fragments %s/%s" % (a, b), Src=[text((a, b))], Quiet=True, Fragment=True, Allowed=model((a, b))) for a in ("w", "wx", "Sx") for b in ("l", "r", "lr")]
    e2.explore(ctx, mcrun, ps, name="fragmented reads", deadline=dl, prelude=PRELUDE, stages=stages)
    for name, progs, opt in families(q):
        ps = [dict(Key=name + " " + "/".join(t), Src=[text(t)], Quiet=True, Allowed=model(t), **opt) for t in progs]
        e2.explore(ctx, mcrun, ps, name=name, deadline=dl, prelude=PRELUDE, stages=stages)
