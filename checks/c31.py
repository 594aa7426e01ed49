"""C31: channels are bounded FIFO queues on every schedule."""
import functools, itertools
import e2, vc
PROP, LEVEL = "C31", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter and channels (dynamic partial order reduction over all interleavings), outcomes compared with the reachable outcomes of a bounded queue model"
NOTE = "Every program of two tasks with up to three, and three tasks with up to two, operations (write, read, close) on one channel of capacity 0 to 2 (thorough: 3), and on every schedule of each. Larger programs, select-like use and capacities above 3 are not covered."
PRELUDE = '''define tw: method (c (v)) {
    catch ex {
        return threw
    }
    c write (splice $v)
    return ok
}
define tl: method (c v) {
    catch ex {
        return threw
    }
    c write-line $v
    return ok
}
define tc: method (c m) {
    catch ex {
        return threw
    }
    if (equal? $m c) {
        c close
    } else {
        c writer-close
    }
    return ok
}
'''
# An operation is w (write), W (write-line), r (read), l (read-line), L (read-list), c (close), C (writer-close), n (reader-close).

def text(tasks, cap):
    out = ["define c: chan%s" % (" %d" % cap if cap else "")]
    for t, ops in enumerate(tasks):
        out.append("spawn {")
        for k, o in enumerate(ops):
            v = "%d%d" % (t, k)
            out.append("    note t%d (%s)" % (t, {"w": "tw $c " + v, "W": "tl $c '%s'" % v, "r": "c read", "l": "c read-line", "L": "c read-list", "c": "tc $c c", "C": "tc $c w", "n": "c reader-close"}[o]))
        out.append("}")
    return "block {\n    %s\n}" % "\n".join(out).replace("\n", "\n    ")

def model(tasks, cap):
    """All outcomes of the bounded queue at rest: what each task saw."""
    final, seen = set(), set()
    todo = [((0,) * len(tasks), (), False, ((),) * len(tasks))]
    def up(t, i, v):
        return t[:i] + (v,) + t[i + 1:]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        pc, q, closed, log = s
        moved = False
        for i, ops in enumerate(tasks):
            if pc[i] == len(ops):
                continue
            o = ops[pc[i]]
            v = ("%d%d" % (i, pc[i]), o == "W")
            def go(q2, closed2, obs):
                todo.append((up(pc, i, pc[i] + 1), q2, closed2, up(log, i, log[i] + (obs,))))
            if o in "wW":
                if closed:
                    go(q, closed, "threw"); moved = True
                elif len(q) < cap:
                    go(q + (v,), closed, "ok"); moved = True
                elif cap == 0:
                    for j, o2 in enumerate(tasks):
                        if j != i and pc[j] < len(o2) and o2[pc[j]] in "rlL":
                            pc2 = up(up(pc, i, pc[i] + 1), j, pc[j] + 1)
                            log2 = up(log, i, log[i] + ("ok",))
                            todo.append((pc2, q, closed, up(log2, j, log[j] + ((v, o2[pc[j]]),))))
                            moved = True
            elif o in "rlL":
                if q:
                    go(q[1:], closed, (q[0], o)); moved = True
                elif closed:
                    go(q, closed, (None, o)); moved = True
            elif o == "n":
                go(q, closed, "()"); moved = True
            else:
                go(q, True, "threw" if closed else "ok"); moved = True
        if not moved:
            final.add(tuple(log))
    return final

def render(log, lit):
    out = ""
    for i, l in enumerate(log):
        if l:
            out += " t%d:" % i + ",".join(x if isinstance(x, str) else lit(x) for x in l)
    return out

def lit(x):
    """How what was read is shown: a value, the text of a line, a list of values."""
    v, o = x
    if v is None:
        return "()"
    val, line = v
    val = "$'%s'" % val if line or o == "l" else val
    return "(%s)" % val if o == "L" else val

def programs(shape, ops, caps):
    seqs = [list(map("".join, itertools.chain.from_iterable(itertools.product(ops, repeat=n) for n in range(1, k + 1)))) for k in shape]
    for tasks in itertools.product(*seqs):
        if shape[0] == shape[-1] and list(tasks) != sorted(tasks):
            continue    # The same program with its tasks in another order.
        if len(tasks) > 1 and not any(o in "rlL" for t in tasks for o in t) and len("".join(tasks)) > 4:
            continue
        for cap in caps:
            yield tasks, cap

def run(ctx):
    q = ctx.quick
    mcrun = e2.build(ctx)
    fams = [("one task", (4,), "wrc", (0, 1, 2, 3)),
            ("two tasks, two operations, every form", (2, 2), "wWrlLcCn", (1,) if q else (0, 1)),
            ("two tasks, three operations", (3, 3), "wrc", (0, 1, 2)),
            ("three tasks, one operation", (1, 1, 1), "wrlc", (0, 1, 2)),
            ("three tasks, two operations", (2, 2, 2), "wrc", (1,) if q else (0, 1, 2))]
    if not q:
        fams += [("two tasks, four operations", (4, 4), "wrc", (0, 1, 2)), ("four tasks", (1, 1, 1, 1), "wrc", (0, 1, 2, 3)), ("three tasks, three and two", (3, 2, 2), "wrc", (0, 1))]
    for k, (name, shape, ops, caps) in enumerate(fams):
        progs = []
        for tasks, cap in programs(shape, ops, caps):
            progs.append(dict(Key="%s %d %s" % (len(shape), cap, "/".join(tasks)), Src=[text(tasks, cap)], Quiet=True,
                              Allowed={render(l, lit) for l in model(tasks, cap)}))
        e2.explore(ctx, mcrun, progs, name=name, deadline=ctx.start + (300 if q else 850), prelude=PRELUDE)
