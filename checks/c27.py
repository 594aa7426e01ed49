"""C27: loops and tail calls run in constant space."""
import itertools, json, os, re, time
import vc
from trees import forests, flat, name
PROP, LEVEL = "C27", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of loop and tail-call shapes on the real shell, comparing the number of live heap objects at the same point of successive iterations"
NOTE = "Exhaustive over loop bodies and tail-call chains up to the bound; a program is in violation if live objects (exact, after garbage collection) keep growing by one or more an iteration over four measurements twelve iterations apart. The shell's main package gets one extra file, through an overlay, that answers the measurements."

PRE = """define P: open a %s
define A: open r %s
define probe: method () {
    P write-line x
    write-line (A read-line)
}
define count ()
define at: list 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 1 () 1 1 1 1 1 1 1 1 1 1 1 () 1 1 1 1 1 1 1 1 1 1 1 () 1 1 1 1 1 1 1 1 1 1 1 () 1 1 1 1 1 1 1 1 1 1 1 () 1 1
define start: method () {
    set count $at
}
define tick: method () {
    define here: count head
    set count: count tail
    if (not $here) {
        probe
    }
    return $count
}
define ev: syntax (x) e {
    e eval $x
}
define do: syntax ((body)) e {
    e eval (cons block $body)
}
define id: method (x) {
    return $x
}
define go: method (f) {
    f
}
"""
N = 5           # probes in a run; the first is not used
def stmt(t, ind):
    """A statement of a loop body."""
    p = "    " * ind
    if isinstance(t, str):
        return p + {"W": "id x", "S": "set v: list a b c", "D": "define d: id y", "X": "export y: id z", "I": "set v: add 1 2", "ret": "id (return-early)", "st": "set v \"a${w}b\"", "U": "unset q",
                    "lst": "set v: cons a (list b (cons c d))", "obj": "set v: object {\n%s    export a b\n%s    export m: method () {\n%s        return x\n%s    }\n%s}" % (p, p, p, p, p), "map": "set v: map",
                    "cl": "set v: method (x) {\n%s    return $x\n%s}" % (p, p), "cc": "set v: (method () {\n%s    return $return\n%s})" % (p, p), "for": "for (list a b) (method (x) {\n%s    id $x\n%s})" % (p, p),
                    "qq": "set v: quasiquote (a (unquote (id b)))", "and": "id x && id y", "or": "or () (id y)", "ev": "ev (id $w)", "eval": "eval (quote (id x))", "spl": "id (splice (list a))",
                    "rd": "set v: mend '' a $w", "ch": "set v: chan 1", "glob": "resolves? w", "coal": "set v: coalesce nope w"}[t]
    c, inner = t
    b = "\n".join(stmt(x, ind + 1) for x in inner)
    b2 = "\n".join(stmt(x, ind + 2) for x in inner)
    return {"block": lambda: "%sblock {\n%s\n%s}" % (p, b, p), "if": lambda: "%sif true {\n%s\n%s}" % (p, b, p), "else": lambda: "%sif () {\n%s    id x\n%s} else {\n%s\n%s}" % (p, p, p, b, p),
            "m": lambda: "%s(method () {\n%s\n%s})" % (p, b, p), "me": lambda: "%s(method () e {\n%s\n%s})" % (p, b, p), "arg": lambda: "%sid ((method () {\n%s\n%s    return x\n%s}))" % (p, b, p, p),
            "catch": lambda: "%s(method () {\n%s    catch ex {\n%s        return $ex\n%s    }\n%s\n%s    throw boom\n%s})" % (p, p, p, p, b, p, p),
            "err": lambda: "%s(method () {\n%s    catch ex {\n%s        return $ex\n%s    }\n%s\n%s    cons a\n%s})" % (p, p, p, p, b, p, p),
            "while": lambda: "%sdefine k true\n%swhile $k {\n%s    set k ()\n%s\n%s}" % (p, p, p, b, p), "do": lambda: "%sdo {\n%s\n%s}" % (p, b, p),
            "for": lambda: "%sfor (list a b) (method (x) {\n%s\n%s})" % (p, b, p), "ret": lambda: "%s(method () {\n%s\n%s    block {\n%s        return x\n%s    }\n%s})" % (p, b, p, p, p, p)}[c]()
def loops(q):
    leaves = ["W", "S", "D", "X", "st", "lst", "obj", "map", "cl", "cc", "for", "qq", "and", "or", "ev", "eval", "spl", "ch", "coal"]
    conts = ["block", "if", "else", "m", "me", "arg", "catch", "err", "while", "do", "for", "ret"]
    def prog(f, kind):
        body = "\n".join(stmt(t, 2) for t in f)
        if kind == "while":
            return "(method () {\n    define v a\n    define w b\n    start\n    while (tick) {\n%s\n    }\n})" % body
        # A tail-recursive method with the same body.
        return "(method () {\n    define v a\n    define w b\n    define f: method () {\n        if (not: tick) {\n            return ()\n        }\n%s\n        f\n    }\n    start\n    f\n})" % body
    for n in (1, 2):
        for f in forests(leaves, conts, n):
            for kind in ("while", "tail"):
                if kind == "tail" and exports(f): continue
                yield "%s: %s" % (kind, name(f)), prog(f, kind)
    small = (["W", "S", "cl"], ["block", "if", "m", "arg", "catch", "while", "do"]) if q else (leaves, conts)
    for f in forests(*small, 3):
        if not q and sum(1 for x in flat(f)) == 3 and not any(isinstance(t, tuple) for t in f): continue
        for kind in ("while", "tail"):
            if kind == "tail" and exports(f): continue
            yield "%s: %s" % (kind, name(f)), prog(f, kind)
def exports(f):
    """An export in the scope that makes the call must stay visible to it: the calls have to nest."""
    for t in f:
        if t == "X": return True
        if isinstance(t, tuple) and t[0] in ("do", "block") and False: return True
    return False
# ---- ways to reach a tail position ------------------------------------------------
TAILS = ["block", "if", "else", "elif", "m", "me", "do", "ev", "eval", "go", "mutual", "arg", "rest", "splice", "var", "headcmd", "envp", "pre-block", "pre-while", "pre-call", "pre-define", "pre-catch"]
def tails(q):
    for n in range(0, 3 if q else 4):
        for chain in itertools.product(TAILS, repeat=n):
            yield "tail: " + " ".join(chain), tail(chain)
            if n < (2 if q else 3) and not {"ev", "do", "go", "eval"} & set(chain):
                # f is a member of an object, found lexically or through self.
                yield "member tail: " + " ".join(chain), tail(chain, "lexical")
                if all(c[:3] in ("blo", "if", "els", "eli", "pre", "m", "me") for c in chain): yield "self tail: " + " ".join(chain), tail(chain, "self")
def tail(chain, member=None):
    """f calls itself as the last command, inside the chain of constructs. (A call out of an object that has public
    names has to keep them visible to what it calls, so only calls of the object's own members are tail calls there.)"""
    defs, n = [], [0]
    call = "self f" if member == "self" else "f"
    def ind(s): return "\n".join("    " + l if l else l for l in s.split("\n"))
    body = call
    for c in reversed(chain):
        n[0] += 1
        g = "g%d" % n[0]
        if c == "block": body = "block {\n%s\n}" % ind(body)
        elif c == "if": body = "if true {\n%s\n}" % ind(body)
        elif c == "else": body = "if () {\n    id x\n} else {\n%s\n}" % ind(body)
        elif c == "elif": body = "if () {\n    id x\n} else if true {\n%s\n}" % ind(body)
        elif c == "m": body = "(method () {\n%s\n})" % ind(body)
        elif c == "me": body = "(method () e {\n%s\n})" % ind(body)
        elif c == "do": body = "do {\n%s\n}" % ind(body)
        elif c == "ev": body = "ev (block {\n%s\n})" % ind(body)
        elif c == "eval": body = "eval (quote (block {\n%s\n}))" % ind(body)
        elif c == "go": body = "go (method () {\n%s\n})" % ind(body)
        elif c == "mutual":
            defs.append("define %s: method () {\n%s\n}" % (g, ind(body)))
            body = g
        elif c == "arg":
            defs.append("define %s: method (x y) {\n%s\n}" % (g, ind(body)))
            body = "%s (id a) $w" % g
        elif c == "rest":
            defs.append("define %s: method ((xs)) {\n%s\n}" % (g, ind(body)))
            body = "%s a b c" % g
        elif c == "splice":
            defs.append("define %s: method (x (xs)) {\n%s\n}" % (g, ind(body)))
            body = "%s (splice (list a b))" % g
        elif c == "var":
            defs.append("define %s: method () {\n%s\n}" % (g, ind(body)))
            body = "$%s" % g
        elif c == "headcmd":
            defs.append("define %s: method () {\n%s\n}" % (g, ind(body)))
            body = "(id $%s)" % g
        elif c == "envp":
            defs.append("define %s: syntax (x) e {\n%s\n}" % (g, ind(body)))
            body = "%s (no evaluated)" % g
        elif c == "pre-block": body = "block {\n    id x\n}\n" + body
        elif c == "pre-while": body = "define k true\nwhile $k {\n    set k ()\n}\n" + body
        elif c == "pre-call": body = "id (id (id x))\n" + body
        elif c == "pre-define": body = "define z: list a b\nset z: cons $z $z\n" + body
        elif c == "pre-catch": body = "(method () {\n    catch ex {\n        return ()\n    }\n    throw boom\n})\n" + body
    if member:
        b = "define o: object {\n%s\n    export f: method %s() {\n        if (not: tick) {\n            return ()\n        }\n%s\n    }\n}" % (ind("\n".join(defs)) or "    define none ()", "self " if call != "f" else "", ind(ind(body)))
        return "(method () {\n    define w b\n%s\n    start\n    o f\n})" % ind(b)
    b = "define f: method () {\n    if (not: tick) {\n        return ()\n    }\n%s\n}" % ind(body)
    return "(method () {\n    define w b\n%s\n    start\n    f\n})" % ind("\n".join(defs + [b]))

def growing(ms):
    """ms are the measurements, the first discarded: does every step grow by at least one object an iteration?"""
    d = [b - a for a, b in zip(ms[1:], ms[2:])]
    return len(d) >= 3 and min(d) >= 11

def run(ctx):
    q = ctx.quick
    src = os.path.join(vc.VERIF, "harness", "heapmain", "zz_verif_heap.go")
    ov = os.path.join(ctx.scratch, "ov.json")
    with open(ov, "w") as f: json.dump({"Replace": {os.path.join(vc.REPO, "zz_verif_heap.go"): src}}, f)
    oh = ctx.build_oh(extra=("-overlay", ov))
    deadline = ctx.start + (200 if q else 780)
    def cases():
        yield from loops(q)
        yield from tails(q)
    def work(w):
        d = os.path.join(ctx.scratch, "p%d" % w)
        os.makedirs(d); os.chmod(d, 0o777)
        i, o = d + "/i", d + "/o"
        for f in (i, o): os.mkfifo(f); os.chmod(f, 0o666)
        env = dict(vc.scratch_env(d), VERIF_PROBE_IN=i, VERIF_PROBE_OUT=o)
        def measure(progs, timeout=60):
            with open(d + "/s.oh", "w") as f:
                f.write(PRE % (i, o) + "".join("write-line '@@B %d'\n%s\n" % (k, p) for k, p in enumerate(progs)) + "write-line '@@B end'\n")
            st, out, err = vc.run([oh, d + "/s.oh"], d, timeout, env)
            parts = re.split(r"^@@B (\d+|end)$", out.decode("utf-8", "replace"), flags=re.M)[1:]
            res = {}
            for a, b in zip(parts[::2], parts[1::2]):
                if a != "end": res[int(a)] = b
            return res, "end" in parts, st, err.decode("utf-8", "replace")
        bad, n, complete, un, steps, samples = [], 0, True, [], 0, []
        todo = [c for k, c in enumerate(cases()) if k % vc.NCPU == w]
        while todo:
            batch, todo = todo[:60], todo[60:]
            res, done, st, err = measure([p for _, p in batch])
            for k, (key, p) in enumerate(batch):
                n += 1
                ms = [int(x) for x in re.findall(r"^(\d+)$", res.get(k, ""), re.M)]
                if len(ms) == N and not growing(ms):
                    steps += N * 12
                    if len(samples) < 2 and n % 53 == 1: samples.append({"program": p, "live_objects": ms})
                    continue
                # Again, alone.
                again = []
                for _ in range(3):
                    res1, _, st1, err1 = measure([p], 20)
                    ms1 = [int(x) for x in re.findall(r"^(\d+)$", res1.get(0, ""), re.M)]
                    again.append((ms1, st1, err1[-500:], res1.get(0, "")[-500:]))
                    if len(ms1) == N and not growing(ms1) or st1 is None and len(again) > 1: break
                if all(len(a[0]) != N for a in again): bad.append((key, "the program did not run to its end", p, again))
                elif all(growing(a[0]) for a in again): bad.append((key, "live objects at the same point of later iterations: %r" % again[-1][0], p, again))
                else: un.append(key)
                if len(bad) >= 4: break
            if len(bad) >= 4 or time.time() > deadline:
                complete = not todo
                break
        return dict(bad=bad, n=n, complete=complete, un=un, steps=steps, samples=samples)
    rs = vc.pool(work, range(vc.NCPU))
    for r in rs:
        for key, why, p, again in r["bad"]:
            ctx.violation(key, "%s: %s" % (key, why), "program (after the prelude of checks/c27.py):\n%s\n\n%s\nmeasurements: %r\n" % (p, why, again))
    if not all(r["complete"] for r in rs): ctx.exhaustive = False
    n = sum(r["n"] for r in rs)
    ctx.count(states=n * N, transitions=sum(r["steps"] for r in rs), traces=n)
    ctx.cov["samples"] = rs[0]["samples"]
    un = [k for r in rs for k in r["un"]]
    if un: ctx.cov["unconfirmed_disagreements"] = un[:10]
    ctx.cov["rule"] = "every loop body and every chain of tail positions up to the bound; live heap objects measured at 5 iterations of each"
