"""C33: a pipeline or capture completes with all its data, status and exceptions."""
import itertools
import e2, vc
from c32 import CONTENT, quoted
PROP, LEVEL = "C33", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter, job monitor and pipes with simulated processes: interleavings of every pipeline and capture shape up to the bounds (dynamic partial order reduction, preemption bounding)"
NOTE = "Every pipeline of a left and a right stage from a set of builtin, external, partial, throwing and failing stages, with large and with tiny pipes, three-stage pipelines, captures and their nestings; schedules up to the preemption bound stated in the evidence (without a bound where that can be completed). Processes are simulated (echo, cat, head and the like, and exit statuses); exit in a stage that runs in a task of its own is a known finding. On the real system awkward lines, output without a final newline, up to 200000 bytes and 3000 lines, through captures and pipelines."
PRELUDE = '''define both: method () {
    while (define x: read-line) {
        write-line $x
    }
    return (quote copied)
}
define count: method () {
    define n 0
    while (read-line) {
        set n: add $n 1
    }
    return $n
}
define say: method ((xs)) {
    for $xs (method (x) {
        write-line $x
    })
    return (quote said)
}
'''
# What a stage writes on its own, its value, what it throws.
LEFT = {
    "say1": ("say a", ["a"], "said", None), "say3": ("say a b c", ["a", "b", "c"], "said", None),
    "write": ("write a b", ["a b"], None, None), "none": ("p-exit 3", [], "(|status 3|)", None),
    "echo": ("p-echo a b", ["a b"], "(|status 0|)", None), "yes3": ("p-yes 3", ["y0", "y1", "y2"], "(|status 0|)", None),
    "throw": ("throw oops", [], None, "oops"), "say,throw": ("block {\n    say a b\n    throw oops\n}", ["a", "b"], None, "oops"),
    "missing": ("p-none", [], None, "p-none: command not found"),
    "echo,say": ("block {\n    p-echo a\n    say b\n}", ["a", "b"], "said", None),
}
# What a stage makes of the lines it is given: (output, value, exception, how many lines it reads; None is all).
RIGHT = {
    "cat": ("p-cat", lambda l: (l, "(|status 0|)", None, None)),
    "both": ("both", lambda l: (l, "copied", None, None)),
    "count": ("count", lambda l: ([], "(|number %d|)" % len(l) if l else "0", None, None)),
    "sink": ("p-sink", lambda l: ([], "(|status %d|)" % len(l), None, None)),
    "head1": ("p-head 1", lambda l: (l[:1], "(|status 0|)", None, 1)),
    "read-line": ("read-line", lambda l: ([], "$'%s'" % l[0] if l else "()", None, 1)),
    "ignore": ("p-exit 5", lambda l: ([], "(|status 5|)", None, 0)),
    "throw": ("throw bad", lambda l: ([], None, "bad", 0)),
    "drop": ("quote x", lambda l: ([], "x", None, 0)),
    "count,throw": ("block {\n    count\n    throw bad\n}", lambda l: ([], None, "bad", None)),
    "both,cat": ("block {\n    write-line (read-line)\n    p-cat\n}", None),
}

def attempt(cmd):
    return "block {\n    define f: method () {\n        catch ex {\n            note ex $ex\n            return threw\n        }\n        return (%s)\n    }\n    note v (f)\n}" % cmd.replace("\n", "\n        ")

def result(out, val, ex):
    """The outcome as reported."""
    o = "".join(x + "\n" for x in out)
    return o + ("" if ex is None else " ex:" + ex_lit(ex)) + " v:" + ("threw" if ex is not None else val)

def ex_lit(e):
    return e if e in ("oops", "bad") else "$'%s'" % e

BROKEN = "$'write |1: broken pipe'"

def two(l, r):
    """The outcomes allowed for LEFT | RIGHT."""
    src, lines, lval, lex = LEFT[l]
    rsrc, f = RIGHT[r]
    out, val, rex, reads = f(lines)
    allowed = set()
    exs = {lex, rex} - {None}
    if exs:
        allowed |= {result(out, None, e) for e in exs}
    else:
        allowed.add(result(out, val, None))
    if reads is not None and reads <= len(lines) and not src.startswith("p-") :
        # What is written when nobody reads any more is an error of the one who writes.
        allowed.add("".join(x + "\n" for x in out) + " ex:" + BROKEN + " v:threw")
    return allowed

def pipelines(q):
    for l in LEFT:
        for r in RIGHT:
            if RIGHT[r][1] is None:
                continue
            a = two(l, r)
            yield "%s | %s" % (l, r), "%s | %s" % (LEFT[l][0], RIGHT[r][0]), a

def chains(q):
    for l in ("say1", "say3", "echo", "throw", "none") if q else LEFT:
        for m in ("cat", "both"):
            for r in ("count", "cat", "read-line") if q else ("count", "cat", "both", "read-line", "sink", "throw", "head1"):
                src, lines, lval, lex = LEFT[l]
                out, val, rex, reads = RIGHT[r][1](lines)
                exs = {lex, rex} - {None}
                a = {result(out, None, e) for e in exs} if exs else {result(out, val, None)}
                if reads is not None and reads <= len(lines):
                    a.add("".join(x + "\n" for x in out) + " ex:" + BROKEN + " v:threw")
                yield "%s | %s | %s" % (l, m, r), "%s | %s | %s" % (src, RIGHT[m][0], RIGHT[r][0]), a

def captures(q):
    L = lambda lines: "(" + " ".join("$'%s'" % x for x in lines) + ")" if lines else "()"
    for l in LEFT:
        src, lines, val, ex = LEFT[l]
        yield "capture " + l, "capture (%s)" % src, {result([], L(lines), ex)} if ex is None else {result([], None, ex)}
    for l in ("say3", "echo", "throw") if q else LEFT:
        src, lines, val, ex = LEFT[l]
        yield "capture %s | cat" % l, "capture (%s | p-cat)" % src, {result([], L(lines), None)} if ex is None else {result([], None, ex)}
        yield "capture %s | both" % l, "capture (%s | both)" % src, {result([], L(lines), None)} if ex is None else {result([], None, ex)}
        yield "list of captures " + l, "list (capture (%s)) (capture (say z))" % src, {result([], "(%s ($'z'))" % L(lines), None)} if ex is None else {result([], None, ex)}
        yield "capture of capture " + l, "capture (say (splice (capture (%s))))" % src, {result([], L(lines), None)} if ex is None else {result([], None, ex)}
    yield "capture in left", "say `(say a b) | count", {result([], "(|number 2|)", None)}
    yield "capture in right", "say a | list (read-line) `(say b)", {result([], "($'a' $'b')", None)}
    yield "pipeline in loop", "block {\n    define k 0\n    while (lt? $k 2) {\n        set k: add $k 1\n        note n (say a | count)\n    }\n}", {" n:(|number 1|),(|number 1|) v:()"}
    yield "pipeline in task", "block {\n    define t: spawn {\n        note t (say a b | count)\n    }\n    wait $t\n}", {" t:(|number 2|) v:()"}
    yield "pipelines in two tasks", "block {\n    spawn {\n        note t (say a | count)\n    }\n    spawn {\n        note u (p-echo a | p-cat)\n    }\n    wait\n}", None
    yield "errors too", "block {\n    error a\n    say b\n} |& count", {result([], "(|number 2|)", None)}
    yield "errors not", "block {\n    say b\n} | both |& count", {result([], "(|number 1|)", None)}

EXITS = [("exit left", "exit 3 | count"), ("exit in capture", "capture (exit 3)"), ("fatal left", "fatal 3 | count")]

def num(n):
    return "(|number %d|)" % n

def contents(q):
    """Lines of awkward text, and many of them, through pipelines and captures on the real system."""
    text = [c for c in CONTENT if c not in ("\0", "a\n\nb")]
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        for vs in itertools.product(text, repeat=n):
            lines = "".join(v + "\n" for v in vs).split("\n")[:-1]
            want = "(list %s)" % " ".join(quoted(x) for x in lines)
            say = "block {\n    %s\n}" % "\n    ".join(["quote x"] + ["write-line %s" % quoted(v) for v in vs])
            for form, cmd in (("capture", say), ("capture of a pipeline", say + " | cat"), ("capture of a pipeline of three", say + " | cat | copy"), ("capture of a copy", say + " | copy")):
                if n == 2 and form == "capture of a pipeline of three" and q:
                    continue
                yield "%s %r" % (form, vs), "write-line (equal? %s (capture (%s)))" % (want, cmd), "true\n"
            # An external command's output need not end in a newline.
            raw = "".join(vs)
            lines = raw.split("\n")
            if lines[-1] == "":
                lines.pop()
            want = "(list %s)" % " ".join(quoted(x) for x in lines)
            out = "printf %%s %s" % " ".join(quoted(v) for v in vs or ("",))
            for form, cmd in (("raw", out), ("raw copy", out + " | copy"), ("raw cat", out + " | cat")):
                yield "%s %r" % (form, vs), "write-line (equal? %s (capture (%s)))" % (want, cmd), "true\n"
    # Amounts around the sizes of buffers and of the system's pipes.
    for size in (1, 4095, 4096, 4097, 65535, 65536, 65537, 200000):
        for cmd in ("printf %%0%dd 0" % size, "printf %%0%dd 0 | cat" % size, "printf %%0%dd 0 | copy" % size, "write-line `(printf %%0%dd 0)" % size, "write-line `(printf %%0%dd 0) | copy | cat" % size, "write-line `(printf %%0%dd 0) | cat" % size):
            yield "%d bytes: %s" % (size, cmd), "define l: capture (%s)\nwrite (l length) (str length (l head))" % cmd, "%s %s\n" % (num(1), num(size))
    for k in (0, 1, 100, 3000):
        for cmd in ("seq-lines %d" % k, "seq-lines %d | cat" % k, "seq-lines %d | copy" % k, "command seq 1 %d" % k, "command seq 1 %d | copy" % k, "command seq 1 %d | cat | copy" % k):
            for use in ("capture", "count"):
                last = "$'%d'" % k if k else "none"
                yield ("%d lines: %s, %s" % (k, cmd, use),) + (("define l: capture (%s)\nwrite (l length) (l get -1 none)" % cmd, "%s %s\n" % (num(k), last))
                       if use == "capture" else ("write (%s | count-lines)" % cmd, num(k) + "\n"))
CONTENT_PRELUDE = '''define copy: method () {
    while (define x: read-line) {
        write-line $x
    }
}
define count-lines: method () {
    define n: number 0
    while (define x: read-line) {
        set n: add $n 1
    }
    return $n
}
define seq-lines: method (k) {
    define n 0
    while (lt? $n $k) {
        set n: add $n 1
        write-line $n
    }
}
'''

def run(ctx):
    q = ctx.quick
    vc.enumerate_batches(ctx, lambda: contents(q), ctx.build_oh(), name="what lines contain, and how many there are", prelude=CONTENT_PRELUDE, deadline=ctx.start + (60 if q else 200))
    mcrun = e2.build(ctx)
    stages = [(0, True, 1), (1, True, 3), (2, True, 2)] if q else [(None, False, 6), (0, False, 8), (1, True, 10), (2, True, 20)]
    dl = ctx.start + (200 if q else 870)
    def go(name, gen, **opt):
        ps = [dict(Key=name + ": " + k, Src=[attempt(c)], Quiet=True, Allowed=a, **opt) for k, c, a in gen if a is not None]
        e2.explore(ctx, mcrun, ps, name=name, deadline=dl, prelude=PRELUDE, stages=stages)
    go("captures", captures(q))
    go("pipelines", pipelines(q))
    go("tiny pipes", [(k, c, a) for k, c, a in pipelines(q) if k.split(" | ")[0] in ("say3", "yes3", "echo", "say,throw") and (not q or k.split(" | ")[1] in ("cat", "both", "count", "read-line"))], Cap=2, PipeBuf=2)
    go("tiny captures", [(k, c, a) for k, c, a in captures(q) if k.split()[-1] in ("say3", "yes3", "echo", "cat")], Cap=2, PipeBuf=2)
    go("chains", chains(q))
    go("exits", [(k, c, {"?"}) for k, c in EXITS])
