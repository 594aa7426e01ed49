"""C12: list operations act on exactly the cells they name."""
import itertools
import vc
from ohval import *
PROP, LEVEL = "C12", "model_checking"
TECHNIQUE = "bounded-exhaustive operation histories on the real shell against an explicit heap model of cons cells"
NOTE = "Exhaustive over histories of the operation alphabet up to depth 3 (thorough 4) from five heaps, and over every query with every index for lists up to length 4 (thorough 5)."

class Heap:
    def __init__(self, env): self.e = env
    def val(self, a):
        return self.e[a[1:]] if a.startswith("$") else NULL if a == "()" else Sym(a)
    def do(self, op, r, args):
        """The mathematical operation on the receiver cell; returns its value, may change cells."""
        if op == "head": return r.car if r is not NULL else NULL
        if op == "tail": return r.cdr if r is not NULL else NULL
        if op == "append":
            return self.grow(r, [args[0]])
        if op == "extend":
            if not isinstance(args[0], (Cell, Null)): raise Thrown()
            self.last(r)
            return self.grow(r, items(args[0]))
        if op in ("set-head", "set-tail"):
            if r is NULL: raise Thrown()
            setattr(r, "car" if op == "set-head" else "cdr", args[0])
            return args[0]
        xs = items(r)
        if op == "length": return Num(len(xs))
        if op == "reverse": return lst(*reversed(xs))
        ns = [int(a) for a in args[:2 if op == "slice" else 1]]
        if op == "get":
            i = ns[0] if ns else 0
            if i < 0: i += len(xs)
            if 0 <= i < len(xs): return xs[i]
            if len(args) > 1: return args[1]
            raise Thrown()
        if op == "slice":
            n, s, e = len(xs), ns[0], ns[1] if len(ns) > 1 else 0
            if s < 0: s += n
            if s < 0: raise Thrown()
            s = min(s, n)
            if e <= 0: e += n
            if e < 0: raise Thrown()
            e = min(e, n)
            if e < s: raise Thrown()
            return lst(*xs[s:e])
        raise ValueError(op)
    def last(self, r):
        l = None
        while isinstance(r, Cell):
            l, r = r, r.cdr
        if r is not NULL: raise Thrown()
        return l
    def grow(self, r, xs):
        l = self.last(r)
        new = lst(*xs)
        if l is None: return new
        if xs: l.cdr = new
        return r
    def step(self, stmt):
        t, op, r, args = stmt
        if op == "cons": v = Cell(*[self.val(a) for a in args])
        elif op == "list": v = lst(*[self.val(a) for a in args])
        elif op == "=": v = self.val(args[0])
        else:
            rv = self.e[r]
            if not isinstance(rv, (Cell, Null)): raise Skip()
            v = self.do(op, rv, [self.val(a) for a in args])
        if t: self.e[t] = v

class Skip(Exception): pass

def code(stmt):
    t, op, r, args = stmt
    a = " ".join(args)
    if op == "=": return "set %s %s" % (t, a)
    c = "%s %s" % (op, a) if r is None else "%s %s %s" % (r, op, a)
    return ("set %s: %s" % (t, c) if t else c).rstrip()

OPS = [(None, "append", "x", ["d"]), (None, "append", "y", ["$x"]), ("z", "append", "z", ["e"]), (None, "extend", "x", ["$y"]), (None, "extend", "y", ["$x"]), ("z", "extend", "z", ["$y"]),
       (None, "extend", "x", ["$x"]), (None, "set-head", "x", ["p"]), (None, "set-head", "y", ["q"]), (None, "set-head", "z", ["$y"]), (None, "set-tail", "x", ["$y"]), (None, "set-tail", "y", ["()"]), (None, "set-tail", "z", ["k"]),
       ("z", "tail", "x", []), ("y", "tail", "x", []), ("z", "reverse", "x", []), ("z", "slice", "x", ["0"]), ("y", "slice", "x", ["1"]), ("z", "head", "x", []), ("z", "get", "x", ["1", "$y"]),
       ("x", "cons", None, ["h", "$y"]), ("z", "=", None, ["$x"]), ("y", "list", None, ["$x", "$y"]), ("x", "append", "y", ["f"])]

def heaps():
    yield "plain", "define x: list a b\ndefine y: list c\ndefine z ()\n", lambda: dict(x=lst(Sym("a"), Sym("b")), y=lst(Sym("c")), z=NULL)
    def shared():
        y = lst(Sym("b"), Sym("c"))
        return dict(x=Cell(Sym("a"), y), y=y, z=lst(y))
    yield "shared", "define y: list b c\ndefine x: cons a $y\ndefine z: list $y\n", shared
    def nested():
        i = lst(Sym("i"))
        return dict(x=lst(i, i), y=i, z=i)
    yield "nested", "define y: list i\ndefine x: list $y $y\ndefine z $y\n", nested
    yield "empty", "define x ()\ndefine y ()\ndefine z: list ()\n", lambda: dict(x=NULL, y=NULL, z=lst(NULL))
    yield "improper", "define x: cons a (cons b c)\ndefine y: list d\ndefine z: list u v w\n", lambda: dict(x=Cell(Sym("a"), Cell(Sym("b"), Sym("c"))), y=lst(Sym("d")), z=lst(Sym("u"), Sym("v"), Sym("w")))

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    def hist():
        for hn, start, mk in heaps():
            for n in range(1, 4 if q else 5):
                for t in itertools.product(OPS, repeat=n):
                    h = Heap(mk())
                    ex = ""
                    try:
                        for s in t:
                            h.step(s)
                            if cyclic(*h.e.values()): raise Skip()
                    except Thrown:
                        if s is not t[-1]: continue
                        ex = "EX\n"
                    except Skip:
                        continue
                    show = "write $x $y $z"
                    body = start + "catch e {\n    write EX\n    %s\n    return ()\n}\n" % show + "".join(code(s) + "\n" for s in t) + show
                    yield hn + ": " + "; ".join(code(s) for s in t), body, ex + " ".join(lit(h.e[k]) for k in "xyz") + "\n"
    vc.enumerate_batches(ctx, hist, oh, name="operation histories on a shared heap", size=300)
    def queries():
        L = 4 if q else 5
        ls = [lst(*[Sym(c) for c in "abcde"[:n]]) for n in range(L + 1)] + [lst(NULL, lst(Sym("a")), Num(2)), Cell(Sym("a"), Sym("b"))]
        for r in ls:
            calls = [("head",), ("tail",), ("length",), ("reverse",), ("get",), ("length", "1"), ("reverse", "1"), ("slice",), ("append",), ("extend",), ("append", "a", "b"), ("extend", "a"), ("extend", "1")]
            idx = [str(i) for i in range(-L - 2, L + 3)]
            calls += [("get", i) for i in idx] + [("get", i, "dflt") for i in idx] + [("slice", i) for i in idx] + [("slice", i, j) for i in idx for j in idx] + [("slice", "0", "1", "1")]
            for c in calls:
                bad = len(c) > 1 and c[0] in ("length", "reverse") or c in (("slice",), ("append",), ("extend",)) or len(c) > 3 or len(c) > 2 and c[0] in ("append", "extend")
                h = Heap({"l": eval_copy(r)})
                try:
                    if bad: raise Thrown()
                    v = lit(h.do(c[0], h.e["l"], [Sym(a) for a in c[1:]]))
                except Thrown:
                    v = "EX"
                body = "define l %s\n(method () {\n    catch e {\n        write EX\n        return ()\n    }\n    write (l %s)\n})\nwrite $l" % (src(r), " ".join(c))
                yield "%s %s" % (lit(r), " ".join(c)), body, "%s\n%s\n" % (v, lit(h.e["l"]))
    vc.enumerate_batches(ctx, queries, oh, name="queries at every index", size=200)
    ctx.cov["rule"] = "every history of %d list operations over three variables with shared cells; every query at every index; all variables printed afterwards (also after an operation that threw)" % len(OPS)

def eval_copy(v):
    return Cell(eval_copy(v.car), eval_copy(v.cdr)) if isinstance(v, Cell) else v
