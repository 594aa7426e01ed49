"""C38: import loads a module once, whoever asks."""
import itertools, sys
import e2
PROP, LEVEL = "C38", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter: module graphs and import sequences enumerated against a model, and every interleaving of tasks that import at the same time"
NOTE = ("Module files of eleven forms (named first or late, unnamed, importing another before or after naming themselves, catching what it throws, throwing before or after naming themselves, importing or throwing in a method called after it is imported) "
        "in chains and diamonds up to three deep; every sequence of up to three imports by one task, and two or three tasks importing at the same time. Modules that import each other in a circle, and imports by tasks that a module's body spawns, are not covered.")
sys.setrecursionlimit(10000)

# A module is (name, form, child or None); what it imports is a module itself.
def fname(m):
    n, f, c = m
    return "%s%s%s" % (n, f, "-" + fname(c) if c else "")

RUN = "mark c{n}\nexport n: marked c{n}\nexport get $get"
def text(m):
    n, f, c = m
    imp = "define sub: import %s.oh" % fname(c) if c else ""
    b = {"p": "module (fresh {n})\n" + RUN,
         "l": "define x 1\nmodule (fresh {n})\n" + RUN,
         "u": RUN,
         "i": "module (fresh {n})\n" + imp + "\n" + RUN + "\nexport s: sub get n",
         "j": imp + "\nmodule (fresh {n})\n" + RUN + "\nexport s: sub get n",
         "k": "module (fresh {n})\n" + RUN + "\n" + imp + "\nexport s: sub get n",
         "c": "module (fresh {n})\ndefine try: method () {{\ncatch ex {{\nreturn threw\n}}\n" + imp + "\nreturn (sub get n)\n}}\nexport s: try\n" + RUN,
         "t": "module (fresh {n})\nmark c{n}\nthrow boom-{n}",
         "b": "throw boom-{n}\nmodule (fresh {n})",
         "z": "module (fresh {n})\n" + RUN + "\nexport s 0\nexport lazy: method () {{\n" + imp + "\nreturn (sub get n)\n}}",
         "x": "module (fresh {n})\n" + RUN + "\nexport lazy: method () {{\nthrow late-{n}\n}}"}[f]
    return b.format(n=n) + "\n"

class Boom(Exception):
    pass
class World:
    def __init__(self):
        self.table, self.ran = {}, {}
    def load(self, m):
        n, f, c = m
        o = {"m": m}
        if f in "j":
            o["s"] = self.load(c)["n"]
        if f == "b":
            raise Boom("boom-" + n)
        if f != "u" and n in self.table:
            return self.table[n]
        def run():
            self.ran[n] = self.ran.get(n, 0) + 1
            o["n"] = self.ran[n]
        if f in "i":
            o["s"] = self.load(c)["n"]
        if f == "c":
            try:
                o["s"] = self.load(c)["n"]
            except Boom:
                o["s"] = "threw"
        run()
        if f == "k":
            o["s"] = self.load(c)["n"]
        if f == "t":
            raise Boom("boom-" + n)
        if f != "u":
            self.table[n] = o
        return o

def walk(ms):
    out = []
    for m in ms:
        while m:
            if m not in out:
                out.append(m)
            m = m[2]
    return out

PRELUDE = '''define imp: method (path) {
    catch ex {
        return $ex
    }
    define m: import $path
    return (m get n)
}
define both: method (path) {
    catch ex {
        return $ex
    }
    define m: import $path
    return (list (m get n) (m get s))
}
define lazy: method (path) {
    catch ex {
        return $ex
    }
    define m: import $path
    return (m lazy)
}
define same: method (p q) {
    catch ex {
        return $ex
    }
    return (equal? (import $p) (import $q))
}
'''
def val(x):
    return str(x)

def use(w, m):
    """What the main program's import of m notes, and its command."""
    n, f, c = m
    try:
        o = w.load(m)
        if f == "x":
            return "lazy %s.oh" % fname(m), "late-" + n
        if f == "z":
            return "lazy %s.oh" % fname(m), val(w.load(c)["n"])
        if o["m"][1] in "ijkc" and f in "ijkc":
            return "both %s.oh" % fname(m), "(%s %s)" % (val(o["n"]), val(o["s"]))
        return "imp %s.oh" % fname(m), val(o["n"])
    except Boom as e:
        return ("lazy" if f == "z" else "both" if f in "ijkc" else "imp") + " %s.oh" % fname(m), str(e)

def modules(q):
    C = [("C", f, None) for f in ("put" if q else "plutbx")]
    B = [("B", f, None) for f in "plutbx"] + [("B", f, c) for f in ("ick" if q else "ijkcz") for c in C]
    A = [("A", f, b) for f in ("ijkcz") for b in B] + [("A", f, c) for f in "iz" for c in C]
    return A, B, C

def sequential(q):
    A, B, C = modules(q)
    ps = {}
    def add(ms):
        w, body, exp = World(), [], []
        for m in ms:
            s, v = use(w, m)
            body.append("note r (%s)" % s)
            exp.append(v)
        # The same object again? (Of a module without a name there are many.)
        m = ms[-1]
        try:
            v = "true" if w.load(m) is w.load(m) else "()"
        except Boom as e:
            v = str(e)
        body.append("note r (same %s.oh %s.oh)" % (fname(m), fname(m)))
        exp.append(v)
        key = "then ".join(fname(m) + " " for m in ms).strip()
        ps[key] = dict(Key="seq: " + key, Src=["block {\n    %s\n}" % "\n    ".join(body)], Quiet=True, Cap=8, Allowed={" r:" + ",".join(exp)})
    for m in A + B + C:
        add([m, m])
        for x in walk([m])[1:]:
            add([x, m]); add([m, x])
    for a in A:
        if a[2][0] == "B":
            # A diamond: B and C on their own, and through A.
            for c in C:
                add([a, ("B", "i", c), c])
    if not q:
        for a in A:
            for o in A + B:
                add([o, a]); add([a, o, a])
    return list(ps.values())

def concurrent(q):
    P, Q = ("P", "p", None), ("Q", "p", None)
    S = [P, ("I", "i", P), ("J", "j", P), ("T", "t", None), ("K", "k", ("T", "t", None)), ("D", "i", ("I", "i", P)), ("Z", "z", P), ("C", "c", ("T", "t", None)), ("X", "x", None)]
    ps = []
    def add(tasks):
        body, exp = [], ""
        for t, ms in enumerate(tasks):
            cmds = []
            for k, m in enumerate(ms):
                s, v = use(World(), m)
                cmds.append("note t%d (%s)" % (t, s))
                exp += ("," if k else " t%d:" % t) + v
            body += cmds if t == len(tasks) - 1 else ["spawn {\n        %s\n    }" % "\n        ".join(cmds)]
        ps.append(dict(Key="tasks: " + " / ".join("+".join(fname(m) for m in ms) for ms in tasks), Src=["block {\n    %s\n}" % "\n    ".join(body)], Quiet=True, Allowed={exp}))
    for a, b in itertools.combinations_with_replacement(S, 2):
        add([[a], [b]])
    for a, b, c in (itertools.product(S[:2] + S[3:4], repeat=3)):
        if q and len({a, b, c}) == 1 and a is not S[1]:
            continue
        add([[a], [b], [c]])
    for a, b, c in itertools.product(S[:3] if q else S, repeat=3):
        add([[a, b], [c]])
    return ps

def run(ctx):
    q = ctx.quick
    mcrun = e2.build(ctx)
    seq, con = sequential(q), concurrent(q)
    files = {}
    A, B, C = modules(q)
    P = ("P", "p", None)
    S = [P, ("I", "i", P), ("J", "j", P), ("T", "t", None), ("K", "k", ("T", "t", None)), ("D", "i", ("I", "i", P)), ("Z", "z", P), ("C", "c", ("T", "t", None)), ("X", "x", None)]
    for m in walk(A + B + C + [("B", "i", c) for c in C] + S):
        files[fname(m) + ".oh"] = text(m)
    e2.explore(ctx, mcrun, seq, name="one task: module graphs and import sequences", deadline=ctx.start + (50 if q else 400), prelude=PRELUDE, files=files, stages=[(0, True, 2)])
    e2.explore(ctx, mcrun, con, name="tasks that import at the same time", deadline=ctx.start + (110 if q else 870), prelude=PRELUDE, files=files,
               stages=[(0, True, 1), (1, True, 4)] if q else [(0, True, 5), (1, True, 30), (2, True, 60)])
