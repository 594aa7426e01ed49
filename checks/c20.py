"""C20: names resolve lexically first, then to the callers' public names."""
import itertools
import vc, ohref
from ohref import *
from trees import forests, flat, name
PROP, LEVEL = "C20", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of scope-nesting programs run on the real shell against a reference interpreter of the scope rules"
NOTE = "Exhaustive over every program of up to 5 (thorough 6) operations and scopes on one name, and up to 4 (thorough 5) on two names; the reference interpreter is an independent implementation of the rules in the statement."

class Build:
    """A tree to code; every value written is unique, so an output tells which binding was found."""
    def __init__(self): self.n = 0
    def v(self):
        self.n += 1
        return "v%d" % self.n
    def seq(self, f):
        out = []
        for t in f:
            out += self.tree(t)
        return out
    def tree(self, t):
        if isinstance(t, str):
            op, n = t[:-1], t[-1]
            if op == "D": return [["define", n, self.v()]]
            if op == "X": return [["export", n, self.v()]]
            if op == "S": return [["set", n, self.v()]]
            if op == "U": return [["unset", n]]
            if op == "R": return [["write", "$" + n]]
            if op == "Q": return [["write", ["resolves?", n], ["set?", n]]]
            if op == "C": return [[n]]                       # call the routine called n
            if op == "E": return [["e", "define", n, self.v()]]
            if op == "P": return [["e", "export", n, self.v()]]
            if op == "T": return [["e", "set", n, self.v()]]
            if op == "V": return [["write", ["e", "resolve", n]]]
            if op == "W": return [["write", ["e", "eval", "$q"]]]
            raise ValueError(t)
        c, inner = t
        if c == "block": return [["block", *self.seq(inner)]]
        if c == "if": return [["if", "true", *self.seq(inner)]]
        if c == "else": return [["if", [], ["write", "no"], "else", *self.seq(inner)]]
        if c == "while":
            n = "w%d" % self.n
            self.n += 1
            return [["define", n, "on"], ["while", "$" + n, ["set", n, []], *self.seq(inner)]]
        if c == "now": return [[["method", [], *self.seq(inner)]]]
        if c == "nowe": return [[["method", [], "e", *self.seq(inner)]]]
        if c == "param": return [[["method", ["x"], *self.seq(inner)], self.v()]]
        if c in ("f", "g"): return [["define", c, ["method", [], *self.seq(inner)]]]
        if c in ("fx",): return [["export", "f", ["method", [], *self.seq(inner)]]]
        if c in ("s",): return [["define", "f", ["syntax", [], "e", *self.seq(inner)]]]
        raise ValueError(c)

def program(f):
    b = Build()
    return C(b.seq(f))

def cases(leaves, containers, sizes, tag, keep=None):
    reads = {l for l in leaves if l[0] in "RQVW"}
    calls = {l for l in leaves if l[0] == "C"}
    defs = {c for c in containers if c in ("f", "g", "fx", "s")}
    def ok(f):
        fl = list(flat(f))
        # A program that never reads, or ends in something that cannot be seen, shows nothing another does not.
        if not any(x in reads for x in fl): return False
        if fl[-1] not in reads and fl[-1] not in calls: return False
        if any(x in calls for x in fl) != any(x in defs for x in fl): return False
        for i, x in enumerate(fl):
            if x in calls:
                if not any(y in defs for y in fl[:i]): return False
                break
        return keep is None or keep(fl)
    for n in sizes:
        for f in forests(leaves, containers, n, ok):
            def exp(f=f):
                return ohref.expect(program(f), steps=3000)
            yield "%s: %s" % (tag, name(f)), f, exp

def run(ctx):
    oh = ctx.build_oh()
    def stream(fam):
        for key, f, exp in cases(*fam):
            if not recursive(f) and not late(f): yield key, (lambda f=f: render(program(f))), exp
    q = ctx.quick
    one = ["Dx", "Xx", "Sx", "Ux", "Rx", "Qx", "Cf"]
    fams = [
        (one, ["block", "if", "else", "while", "now", "f", "fx", "param"], range(1, 5 if q else 6), "one name"),
        (["Dx", "Xx", "Sx", "Rx", "Cf"], ["block", "now", "f"], range(5, 7 if q else 8), "one name, deep"),
        (["Dx", "Dy", "Xx", "Xy", "Sx", "Sy", "Rx", "Ry", "Cf"], ["block", "now", "f"], range(2, 5 if q else 6), "two names"),
        (["Dx", "Xx", "Sx", "Rx", "Ex", "Px", "Tx", "Vx", "Cf"], ["nowe", "s", "block"], range(2, 5 if q else 6), "caller's environment"),
        (["Dx", "Xx", "Sx", "Rx", "Cf", "Cg"], ["f", "g", "block"], range(4, 6 if q else 7), "two closures"),
    ]
    for fam in fams:
        vc.enumerate_batches(ctx, lambda fam=fam: stream(fam), oh, normalize=ohref.norm, name=fam[3])
    # Callers that export several names, at several depths: which of their scopes a routine sees through the call.
    readers = [("f", ("Rx", "Ry")), ("f", (("block", ("Rx", "Ry")),)), ("f", ("Dx", "Rx", "Ry")), ("f", ("Xx", "Rx", ("now", ("Ry",))))]
    through = [(), (("g", ("Cf",)),), (("g", ("Xx", "Cf")),), (("g", ("Xx", "Xy", ("block", ("Xz", "Cf")))),)]
    def several():
        leaves, boxes = ["Xx", "Xy", "Xz", "Cf"], ["block", "now"]
        for n in range(2, 7 if q else 8):
            for tree in forests(leaves, boxes, n):
                fl = list(flat(tree))
                if fl.count("Cf") != 1 or fl[-1] != "Cf" or len([x for x in fl if x[0] == "X"]) < 2: continue
                for i, r in enumerate(readers):
                    if n >= 6 and i: continue
                    for j, g in enumerate(through):
                        if n >= (6 if q else 7) and j: continue
                        t = tree if not g else swap(tree)
                        f = ("Xx",) * (i == 2) + (r,) + g + t
                        yield "several exports: %s" % name(f), (lambda f=f: render(program(f))), (lambda f=f: ohref.expect(program(f), steps=3000))
    vc.enumerate_batches(ctx, several, oh, normalize=ohref.norm, name="callers with several public names")
    ctx.cov["rule"] = "every program of the listed operations and scopes up to the bound that reads or calls something; the output names the binding found at every read"

def swap(f):
    """The tree with g called in place of f."""
    return tuple("Cg" if t == "Cf" else t if isinstance(t, str) else (t[0], swap(t[1])) for t in f)

def late(f, inside=False):
    """Does a routine export into its caller while the call runs, and then look names up? Not covered by the statement."""
    fl = list(flat(f))
    if inside and any(x[0] == "P" for x in fl) and any(x[0] in "RQC" for x in fl[[x[0] for x in fl].index("P"):]): return True
    return any(late(t[1], inside or t[0] in ("nowe", "s")) for t in f if isinstance(t, tuple))

def recursive(f, inside=(), usese=False):
    """Does a routine body call a name a routine of that kind may have (unbounded recursion), or use e without one?"""
    for t in f:
        if isinstance(t, str):
            if t[0] == "C" and (t[1] in inside or ("f" in inside and "g" in inside)): return True
            if t[0] in "EPTVW" and not usese: return True
        else:
            c = {"fx": "f", "s": "f"}.get(t[0], t[0])
            if recursive(t[1], inside + (c,), usese or t[0] in ("nowe", "s")): return True
    return False
