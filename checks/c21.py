"""C21: objects and maps expose exactly their public members."""
import itertools
import vc, ohref
from ohref import *
PROP, LEVEL = "C21", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of object bodies and uses, and of map operation sequences, on the real shell against a reference interpreter and a dictionary"
NOTE = "Exhaustive over object bodies of up to 3 and uses of up to 2 operations around 5 outer scopes, object graphs of two objects, and map histories of up to 3 (thorough 4) operations on two keys and two maps."

class Gen:
    def __init__(self): self.n = 0
    def v(self):
        self.n += 1
        return "v%d" % self.n
OUTER = {"-": [], "D": [["define", "a", "outer"]], "X": [["export", "a", "outer"]], "M": [["export", "m", ["method", [], ["write", "outer-m"]]]],
         "B": [["define", "a", "hidden"], ["export", "b", "pub"]]}
# What an object's body may contain.
BODY = {
    "Da": lambda g: ["define", "a", g.v()], "Xa": lambda g: ["export", "a", g.v()], "Sa": lambda g: ["set", "a", g.v()], "Ua": lambda g: ["unset", "a"],
    "Xm": lambda g: ["export", "m", ["method", [], ["write", g.v(), "$a"]]],                       # lexical read
    "Dm": lambda g: ["define", "m", ["method", [], ["write", g.v(), "$a"]]],                       # private method
    "Xw": lambda g: ["export", "w", ["method", ["x"], ["set", "a", "$x"]]],                        # lexical write
    "Xs": lambda g: ["export", "s", ["method", "self", [], ["write", g.v(), ["self", "get", "a"]]]],  # read through self
    "Xc": lambda g: ["export", "c", ["method", "self", [], ["self", "m"]]],                        # call through self
    "Xd": lambda g: ["export", "c", ["method", [], ["m"]]],                                        # lexical call
    "Wa": lambda g: ["write", g.v(), "$a"],
}
ACC = [["export", "get", "$get"], ["export", "has", "$set?"], ["export", "del", "$unset"], ["export", "put", "$export"], ["export", "hide", "$define"], ["export", "change", "$set"]]
USE = {
    "o.m": lambda g, o: [o, "m"], "o.a": lambda g, o: [o, "a"], "o.get": lambda g, o: ["write", g.v(), [o, "get", "a"]], "o.has": lambda g, o: ["write", [o, "has", "a"]],
    "o.del": lambda g, o: ["write", [o, "del", "a"]], "o.put": lambda g, o: [o, "put", "a", g.v()], "o.hide": lambda g, o: [o, "hide", "a", g.v()], "o.change": lambda g, o: [o, "change", "a", g.v()],
    "o.w": lambda g, o: [o, "w", g.v()], "o.s": lambda g, o: [o, "s"], "o.c": lambda g, o: [o, "c"], "Ra": lambda g, o: ["write", "$a"], "Da": lambda g, o: ["define", "a", g.v()],
    "take": lambda g, o: ["block", ["define", "f", [o, "get", "m"]], ["f"]], "takes": lambda g, o: ["block", ["define", "f", [o, "get", "s"]], ["f"]],
    "putm": lambda g, o: [o, "put", "m", ["method", [], ["write", g.v(), "$a"]]], "puts": lambda g, o: [o, "put", "s", ["method", "self", [], ["write", g.v(), ["self", "get", "a"]]]],
    "export": lambda g, o: [o, "export", "a", g.v()],
}
SEES = ("o.m", "o.get", "o.has", "o.del", "o.s", "o.c", "Ra", "take", "takes", "o.a", "o.hide", "o.change", "export")

def one(outer, body, uses, acc, where):
    g = Gen()
    o = [BODY[b](g) for b in body] + (ACC if acc else [])
    us = []
    if where == "here":
        return OUTER[outer] + [["define", "o", ["object", *o]]] + [USE[u](g, "o") for u in uses]
    if where == "method":        # the object comes out of a constructor and is used in a scope with its own a
        return OUTER[outer] + [["define", "new", ["method", [], ["object", *o]]], ["define", "o", ["new"]],
                               [["method", ["a"], *[USE[u](g, "o") for u in uses]], "caller"]]
    if where == "exported":      # the user has a public a while it calls in
        return OUTER[outer] + [["define", "o", ["object", *o]], [["method", [], ["export", "a", "callers"], *[USE[u](g, "o") for u in uses]]]]
    if where == "twice":         # two objects from one constructor do not share
        uses = list(uses)
        return OUTER[outer] + [["define", "new", ["method", [], ["object", *o]]], ["define", "o", ["new"]], ["define", "p", ["new"]]] + [USE[u](g, "op"[i % 2]) for i, u in enumerate(uses)] + [USE[uses[-1]](g, "po"[(len(uses) - 1) % 2])]
    if where == "nested":        # an object in an object
        return OUTER[outer] + [["define", "o", ["object", ["define", "a", "in-between"], ["export", "o", ["object", *o]], ["export", "get", "$get"], ["export", "m", ["method", [], ["write", "outer-m", "$a"]]]]],
                               ["set", "o", ["o", "get", "o"]]] + [USE[u](g, "o") for u in uses]

def objects(q):
    # The longest body for a use sequence of one and two operations.
    here, there = ((3, 1), (2, 1)) if q else ((3, 2), (3, 2))
    for where in ("here", "method", "exported", "twice", "nested"):
        for outer in OUTER:
            for nb in range(0, max(here if where == "here" else there) + 1):
                for body in itertools.product(BODY, repeat=nb):
                    # Reading an undefined name while the object is made ends the program; more does not show more.
                    if q and nb == 3 and outer not in "XB": continue
                    for acc in (True, False):
                        if not acc and nb > (1 if q else 2): continue
                        us = USE if acc else [u for u in USE if u not in ("o.get", "o.has", "o.del", "o.put", "o.hide", "o.change", "take", "takes", "putm", "puts")]
                        for nu in (1, 2):
                            if nb > (here if where == "here" else there)[nu - 1]: continue
                            for uses in itertools.product(us, repeat=nu):
                                if uses[-1] not in SEES: continue
                                def prog(a=(outer, body, uses, acc, where)):
                                    return one(*a)
                                yield "%s %s {%s}%s %s" % (where, outer, " ".join(body), "" if acc else " closed", " ".join(uses)), (lambda p=prog: render(p())), (lambda p=prog: ohref.expect(p(), steps=3000))

def maps(depth):
    ops = [(m, o, k) for m in ("m", "n") for o in ("set", "del", "get", "has") for k in ("a", "b")]
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            if h[0][0] != "m" or h[-1][1] in ("set",): continue   # by symmetry; ends in something seen
            body, out, d, dead = "define m: map\ndefine n: map\n", "", {"m": {}, "n": {}}, False
            for i, (m, o, k) in enumerate(h):
                if o == "set":
                    d[m][k] = "v%d" % i; body += "%s set %s v%d\n" % (m, k, i)
                elif o == "del":
                    body += "write (%s del %s)\n" % (m, k); out += "true\n" if d[m].pop(k, None) else "()\n"
                elif o == "has":
                    body += "write (%s has %s)\n" % (m, k); out += "true\n" if k in d[m] else "()\n"
                else:
                    body += "write (%s get %s)\n" % (m, k)
                    if k not in d[m]:
                        out += "EX <message>\n"; dead = True
                        break
                    out += d[m][k] + "\n"
            if dead and i < n - 1: continue
            yield "map " + " ".join("%s.%s.%s" % x for x in h), body, out

def keys():
    # Any text is a key; the map's own members are keys like any other.
    ks = ["a", "'a b'", "''", "$'\\n'", "1", "'$x'", "get", "set", "del", "has", "x:y", "'+'", "'x:'", "'λ'", "define", "export", "return", "throw", "stdout", "PATH", "ORIGIN", "resolve"]
    for i, k in enumerate(ks):
        own = k in ("get", "set", "del", "has")
        yield "key absent " + k, "define m: map\nwrite (m has %s)" % k, "true\n" if own else "()\n"
        if not own: yield "key absent get " + k, "define m: map\nwrite (m get %s)" % k, "EX <message>\n"
        if own: continue
        for j, l in enumerate(ks):
            if l in ("get", "set", "del", "has") or i == j or k == "'x:'" or l == "'x:'": continue
            yield "keys %s %s" % (k, l), "define m: map\nm set %s 1\nm set %s 2\nwrite (m get %s) (m get %s)\nm del %s\nwrite (m has %s) (m has %s)" % (k, l, k, l, k, k, l), "1 2\n() true\n"

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    vc.enumerate_batches(ctx, lambda: objects(q), oh, normalize=ohref.norm, name="objects")
    vc.enumerate_batches(ctx, lambda: maps(3 if q else 4), oh, normalize=ohref.norm, name="maps")
    vc.enumerate_batches(ctx, keys, oh, normalize=ohref.norm, name="map keys")
    ctx.cov["rule"] = "every object body and use sequence up to the bounds in five settings; every map history up to the bound over two maps and two keys"
