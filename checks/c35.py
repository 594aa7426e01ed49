"""C35: variables shared by tasks behave like registers, and the interpreter has no data race on its own state."""
import itertools, re
import e2, vc
PROP, LEVEL = "C35", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter: every interleaving of small programs on shared variables, maps and objects against the set of outcomes of every sequential order; with a vector-clock check, on every schedule, of every access to the interpreter's own memory"
NOTE = ("Every pair of tasks with up to two operations each (three in the thorough tier) on shared variables, on the entries of a map, and on the members of an object; "
        "race detection on these and on families of programs that use every kind of shared thing (tasks, waits, processes, channels, pipes, exceptions, continuations, macros, redirections, imports, completion of symbols). "
        "Two tasks changing one list at the same time is the program's own race and not covered.")

# ---- Operations on variables: (source, atomic steps). A step is a function of the store giving what is noted, or None.
def rd(v):
    return ["note {t} $%s" % v], [lambda m, l: str(m[v])]
def wr(v, c):
    return ["set %s {c%s}" % (v, c)], [lambda m, l, v=v: m.__setitem__(v, l["c" + c])]
def inc(v):
    def a(m, l): l["r"] = m[v]
    def b(m, l): m[v] = l["r"] + 1
    return ["set %s: add $%s 1" % (v, v)], [a, b]
def cp(a, b):
    def f(m, l): l["r"] = m[a]
    def g(m, l): m[b] = l["r"]
    return ["set %s $%s" % (b, a)], [f, g]
VARS = {"x": rd("x"), "y": rd("y"), "X": wr("x", "1"), "Y": wr("y", "2"), "i": inc("x"), "c": cp("x", "y"), "d": cp("y", "x")}

# ---- Operations on a map. None: absent. What throws ends its task.
class Ends(Exception):
    pass
def some(x):
    if x is None:
        raise Ends()
    return x
def mset(k):
    return ["m set %s {c1}" % k], [lambda m, l: m.__setitem__(k, l["c1"])]
def mget(k):
    return ["note {t} (m get %s)" % k], [lambda m, l: str(some(m[k]))]
def mhas(k):
    return ["note {t} (m has %s)" % k], [lambda m, l: "true" if m[k] is not None else "()"]
def mdel(k):
    def f(m, l):
        r, m[k] = m[k], None
        return "true" if r is not None else "()"
    return ["note {t} (m del %s)" % k], [f]
MAP = {"A": mset("a"), "B": mset("b"), "a": mget("a"), "b": mget("b"), "h": mhas("a"), "H": mhas("b"), "D": mdel("a"), "E": mdel("b")}

# ---- Members of an object, read and changed by its methods and from outside.
def oget():
    return ["note {t} (o get)"], [lambda m, l: str(m["v"])]
def oset():
    return ["o put {c1}"], [lambda m, l: m.__setitem__("v", l["c1"])]
def oinc():
    def a(m, l): l["r"] = m["v"]
    def b(m, l): m["v"] = l["r"] + 1
    return ["o inc"], [a, b]
def opub():
    return ["note {t} (o val w)"], [lambda m, l: str(m["w"])]
def opubset():
    return ["o putw {c2}"], [lambda m, l: m.__setitem__("w", l["c2"])]
def oexp():
    return ["o exp n {c1}"], [lambda m, l: m.__setitem__("n", l["c1"])]
def oexpg():
    return ["note {t} (o has n)"], [lambda m, l: "true" if m["n"] is not None else "()"]
OBJ = {"g": oget(), "s": oset(), "i": oinc(), "w": opub(), "W": opubset(), "e": oexp(), "n": oexpg()}

PRELUDE = '''define mkobj: method () {
    object {
        define v 0
        export w 0
        export exp $export
        export has $set?
        export val $get
        export putw: method (x) = {
            set w $x
        }
        export put: method (x) = {
            set v $x
        }
        export get: method () = {
            return $v
        }
        export inc: method () = {
            set v: add $v 1
        }
    }
}
'''
SETUP = {"vars": "define x 0\ndefine y 0", "map": "define m: map\nm set a 0", "obj": "define o: mkobj"}
START = {"vars": {"x": 0, "y": 0}, "map": {"a": 0, "b": None}, "obj": {"v": 0, "w": 0, "n": None}}
TABLE = {"vars": VARS, "map": MAP, "obj": OBJ}

def model(start, tasks):
    """Every log the sequential orders of the steps give."""
    out, seen = set(), set()
    def go(m, locs, pcs, logs):
        key = (tuple(sorted(m.items(), key=str)), tuple(tuple(sorted(l.items())) for l in locs), pcs, logs)
        if key in seen:
            return
        seen.add(key)
        if all(p == len(s) for p, s in zip(pcs, tasks)):
            out.add(logs)
            return
        for t, s in enumerate(tasks):
            if pcs[t] < len(s):
                m2, l2 = dict(m), [dict(l) for l in locs]
                to = pcs[t] + 1
                try:
                    r = s[pcs[t]](m2, l2[t])
                except Ends:
                    r, to = None, len(s)
                lg = logs
                if r is not None:
                    lg = logs[:t] + (logs[t] + (r,),) + logs[t + 1:]
                go(m2, l2, pcs[:t] + (to,) + pcs[t + 1:], lg)
    go(dict(start), [dict(c1=10 * (t + 1), c2=10 * (t + 1) + 5) for t in range(len(tasks))], (0,) * len(tasks), ((),) * len(tasks))
    return out

def strip(s):
    return re.sub(r"\(\|number (-?\d+)\|\)", r"\1", s)

LAST = {"vars": "xy", "map": "hH", "obj": "gwn"}

def program(kind, tasks):
    """The last task is the main one; it looks at everything when it has done its own."""
    tab = TABLE[kind]
    body = [SETUP[kind]]
    steps = []
    tasks = list(tasks[:-1]) + [tasks[-1] + LAST[kind]]
    for t, ops in enumerate(tasks):
        b, st = [], []
        for o in ops:
            src, s = tab[o]
            b += [x.format(t="t%d" % t, c1=10 * (t + 1), c2=10 * (t + 1) + 5) for x in src]
            st += s
        steps.append(st)
        body += b if t == len(tasks) - 1 else ["spawn {\n    %s\n}" % "\n    ".join(b)]
    outs = {"".join(" t%d:%s" % (t, ",".join(l)) for t, l in enumerate(logs) if l) for logs in model(START[kind], steps)}
    def allowed(line):
        return None if strip(line) in outs else "is the outcome of no sequential order; those are %s" % sorted(outs)[:12]
    return ["block {\n    %s\n}" % "\n".join(body).replace("\n", "\n    ")], allowed, outs

def family(kind, shape, ops):
    ps = []
    for tasks in itertools.product(*[["".join(x) for x in itertools.product(ops, repeat=n)] for n in shape]):
        if list(tasks[:-1]) != sorted(tasks[:-1], key=lambda x: (-len(x), x)):
            continue
        s = "".join(tasks)
        if not set(s) & set("XYicdABDEsWe"):
            continue
        src, allowed, outs = program(kind, tasks)
        ps.append(dict(Key="%s: %s" % (kind, "/".join(tasks)), Src=src, Quiet=True, Allowed=allowed))
    return ps

def B(s):
    return ["block {\n%s\n}" % s]

def misc():
    """Programs whose outcomes are the business of other checks: only races count here."""
    ps = []
    def add(k, s):
        ps.append(dict(Key="use: " + k, Src=s if isinstance(s, list) else B(s), Quiet=True, Shared=True, Allowed=lambda line: None))
    two = lambda k, a, b, pre="": add(k, pre + "\nspawn {\n%s\n}\nspawn {\n%s\n}\nwait" % (a, b))
    two("processes", "note a (p-exit 2)", "note b (p-kill 9)")
    two("process and wait", "wait (spawn {\nmark a\n})", "note b (p-exit 0)")
    two("throw", "throw a", "throw b")
    two("exit", "exit 1", "fatal 2")
    two("jobs", "jobs", "jobs")
    two("cd", "cd /\nnote a $PWD", "cd /tmp\nnote b $PWD")
    two("export and run", "export zz 1\np-exit 1", "export yy 2\np-exit 2")
    two("sys export and run", "sys export zz 1", "p-exit 2")
    two("sys unset and run", "sys export zz 1\nsys unset zz", "p-exit 2")
    two("sys export twice", "sys export zz 1", "sys export yy 1\nnote t $zz", "sys export zz 0")
    two("file tests", "note t (exists bin)", "note u (exists bin)")
    two("glob", "note t (glob b*)", "note u (glob b*)")
    two("method", "note t (f 1)", "note u (f 2)", "define f: method (x) {\nreturn (add $x 1)\n}")
    two("macro", "note t (f (add 1 2))", "note u (f (add 3 4))", "define f: syntax (x) e {\nreturn (e eval $x)\n}")
    two("catch", "note t (f)", "note u (f)", "define f: method () {\ncatch ex {\nreturn $ex\n}\nthrow oops\n}")
    two("method object", "o put 1\no val x", "o put 2\no val x", "define o: object {\ndefine v 0\nexport x 0\nexport val $get\nexport put: method (y) = {\nset x $y\n}\n}")
    two("for and while", "for (list 1 2 3) (method (x) {\nadd $x 1\n})", "define n 0\nwhile (lt? $n 2) {\nset n: add $n 1\n}")
    two("quasiquote", "note t (quasiquote (a (unquote $x)))", "note u (quasiquote (b (unquote $x)))", "define x 5")
    two("strings", "note t (mend , a b)", "note u (rend , 'a,b')")
    two("numbers", "note t (add 1/2 $x)\nnote t (mul 2 3)", "note u (sub $x 1/2)\nnote u (div 3 2)", "define x 1/3")
    two("relations", "note t (lt? $x 1)\nnote t (eq? $x 1/3)", "note u (gt? $x 0)\nnote u (equal? $x $x)", "define x 1/3")
    two("symbols", "note t (symbol abcd)\nnote t (symbol efgh)", "note u (symbol abcd)\nnote u (symbol efgh)")
    two("reading a list", "note t (l head) (l get 1)", "note u (l length) (l tail) (l reverse)", "define l: list 1 2 3")
    two("resolve and eval", "note t (resolve x)\nnote t (resolves? nosuch)", "note u (s eval 'x')", "define x 5\ndefine s: resolve sys")
    two("umask", "umask 022", "umask 022")
    two("math and rand", "note t (random)" if 0 else "note t (mod 5 3)", "note u (mod 7 3)")
    two("channel", "c write 1\nnote t (c read)", "c write 2\nnote u (c read)", "define c: chan 2")
    two("channel 0", "c write 1", "note u (c read)", "define c: chan")
    two("channel closed", "c write 1\nc writer-close" if 0 else "c write 1", "note u (c read)\nnote u (c read)" if 0 else "note u (c read)", "define c: chan 1")
    two("pipe", "p write-line a\np writer-close", "note u (p read-line)\nnote u (p read-line)", "define p: pipe")
    two("pipe twice", "p write-line a", "p write-line b\np writer-close", "define p: pipe")
    two("pipe closed", "p reader-close", "p writer-close", "define p: pipe")
    two("pipe to process", "p-cat", "p-exit 1", "define p: pipe")
    two("redirections", "p-echo a >> a-file-name", "p-echo b >> b-file-name")
    two("redirection once", "p-echo a >> c-file-name", "mark a")
    two("pipeline", "write-line a | read-line", "mark a")
    two("capture", "note a (capture (write-line a))", "mark b")
    two("capture process", "note a (capture (p-echo a))", "mark b")
    add("continuation", "define g: method () {\nreturn 3\n}\ndefine f: method () {\nspawn {\nreturn 1\n}\ng\n}\nnote v (f)")
    add("continuation in two tasks", "define g: method () {\nreturn 3\n}\ndefine f: method () {\nspawn {\nreturn 1\n}\nspawn {\nreturn 2\n}\nblock {\ng\n}\n}\nnote v (f)")
    add("continuation in a loop", "define g: method (x) {\nreturn $x\n}\ndefine f: method () {\nspawn {\nreturn 1\n}\ndefine n 0\nwhile (lt? $n 2) {\nset n: add $n 1\n}\ng $n\n}\nnote v (g (add 1 (f)))")
    add("continuation stored", "define k ()\ndefine n 0\ndefine f: method () {\nset k $return\nreturn 1\n}\nnote v (f)\nset n: add $n 1\nif (lt? $n 3) {\nspawn {\nnote u (k 2)\n}\n}")
    add("tasks returned", "define t: spawn {\nreturn 1\n}\nspawn {\nwait $t\n}\nwait $t\nwait")
    add("nested spawn", "spawn {\nspawn {\nmark a\n}\nwait\n}\nspawn {\nspawn {\nmark b\n}\n}\nwait")
    add("after wait", ["define x 1", "spawn {\nset x 2\n}", "set x 3", "wait", "note r $x"])
    add("prompt", ["prompt '$'", "spawn {\nprompt '$'\n}", "prompt '%'", "wait"])
    add("import", ["block {\nspawn {\nf\n}\nspawn {\nf\n}\nwait\n}" .replace("block {", "block {\ndefine f: method () {\ncatch ex {\nreturn no\n}\nimport nosuch\n}")])
    add("throw in stages", ["define f: method () {\ncatch ex {\nreturn $ex\n}\nblock {\nthrow a\n} | block {\nread\n}\n}", "note v (f)"])
    return ps

def races(ctx, res, progs):
    n = 0
    for p, r in zip(progs, res):
        for x in sorted((r[0] or {}).get("races", [])) if r else []:
            n += 1
            ctx.violation("race: " + x, "two tasks access the interpreter's memory without ordering: %s (program %s)" % (x, p["Key"]),
                          "program (top-level commands):\n%s\n\nrace: %s\n" % ("\n".join(p["Src"]), x))
    ctx.cov["races_found"] = ctx.cov.get("races_found", 0) + n

def run(ctx):
    q = ctx.quick
    plain, shared = e2.build(ctx), e2.build(ctx, shared=True)
    end = ctx.start + (110 if q else 870)
    st = [(None, False, 1), (0, False, 1), (1, True, 2)] if q else [(None, False, 20), (0, False, 10), (1, False, 20), (2, True, 30)]
    ps = misc()
    for kind, shape, ops in [("vars", (1, 1), "xXi"), ("map", (1, 1), "AahD"), ("obj", (1, 1), "gsiwWen")]:
        ps += [dict(p, Key="use: " + p["Key"], Shared=True) for p in family(kind, shape, ops)]
    races(ctx, e2.explore(ctx, shared, ps, name="uses of shared things", deadline=end, prelude=PRELUDE, stages=[(0, True, 3), (1, True, 3), (2, True, 2)] if q else [(None, False, 5), (1, True, 10), (2, True, 10), (3, True, 10)]), ps)
    fams = [("variables, one operation each", "vars", (1, 1), "xyXYicd"), ("variables, two operations each", "vars", (2, 2), "xyXi" if q else "xyXYicd"),
            ("map entries, one operation each", "map", (1, 1), "ABabhHDE"), ("map entries, two operations each", "map", (2, 2), "AahD" if q else "ABabhHDE"),
            ("members, one operation each", "obj", (1, 1), "gsiwWen"), ("members, two operations each", "obj", (2, 1) if q else (2, 2), "gswWen" if q else "gsiwWen"),
            ("variables, three tasks", "vars", (1, 1, 1), "xXi" if q else "xyXYicd"), ("map, three tasks", "map", (1, 1, 1), "AaD" if q else "ABabhD")]
    if not q:
        fams += [("variables, three operations", "vars", (3, 2), "xyXi"), ("map, three operations", "map", (3, 2), "AahD")]
    for name, kind, shape, ops in fams:
        e2.explore(ctx, plain, family(kind, shape, ops), name=name, deadline=end, prelude=PRELUDE, stages=st)
