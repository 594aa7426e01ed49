"""C26: return and saved continuations resume exactly the captured point."""
import itertools
import vc, ohref
from ohref import *
from trees import forests, flat, name
PROP, LEVEL = "C26", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of programs that save, call and re-enter continuations, on the real shell against a reference interpreter in continuation-passing style"
NOTE = "Exhaustive over programs of up to 5 (thorough 6) operations that capture return in methods nested in operands, blocks, branches, loops and lists, and call it up to three times later from anywhere."

class Count:
    def __init__(self): self.n = 0
    def __call__(self):
        self.n += 1
        return "%d" % self.n
def leaf(t, g):
    n = g()
    return {"W": lambda: ["write", "w" + n], "V": lambda: ["write", "v" + n, "$v"], "S": lambda: ["set", "v", "s" + n], "D": lambda: ["define", "v", "d" + n],
            "K": lambda: ["set", "k", "$return"], "L": lambda: ["set", "l", "$return"],
            "Jk": lambda: ["if", "$n", ["set", "n", ["n", "tail"]], ["k", "j" + n]], "Jl": lambda: ["if", "$n", ["set", "n", ["n", "tail"]], ["l", "j" + n]],
            "R": lambda: ["return", "r" + n], "F": lambda: ["f"], "T": lambda: ["throw", "t" + n], "C": lambda: ["catch", "ex", ["write", "c" + n, "$ex"], ["return", "h" + n]],
            "Rv": lambda: ["return", "$v"]}[t]()
def build(f, g):
    out = []
    for t in f:
        if isinstance(t, str):
            out.append(leaf(t, g)); continue
        c, inner = t
        n = g()
        body = build(inner, g)
        out.append({"block": lambda: ["block", *body], "m": lambda: ["write", "m" + n, [["method", [], *body]]], "if": lambda: ["if", "true", *body],
                    "df": lambda: ["define", "f", ["method", [], *body]],
                    "while": lambda: ["while", ["lt?", "$c", "2"], ["set", "c", ["add", "$c", "1"]], *body],
                    "args": lambda: ["write", "a" + n, ["list", "x", [["method", [], *body]], ["block", ["write", "z" + n], "y"] if False else [["method", [], ["write", "z" + n], ["return", "y"]]]]],
                    "cond": lambda: ["if", [["method", [], *body]], ["write", "then" + n], "else", ["write", "else" + n]],
                    "and": lambda: ["write", "b" + n, ["and", [["method", [], *body]], [["method", [], ["write", "z" + n], ["return", "y"]]]]],
                    "def": lambda: ["define", "v", [["method", [], *body]]],
                    "obj": lambda: ["block", ["define", "o", ["object", ["export", "g", ["method", [], *body]]]], ["write", "o" + n, ["o", "g"]]],
                    "for": lambda: ["write", "l" + n, ["for", ["list", "a", "b"], ["method", ["v"], *body]]]}[c]())
    return out
def selfcall(f, inside=False):
    return any((t == "F" and inside) if isinstance(t, str) else selfcall(t[1], inside or t[0] == "df") for t in f)
def programs(sizes, leaves, containers, need):
    def keep(f):
        fl = list(flat(f))
        return all(any(x in alt for x in fl) for alt in need) and ("F" in fl) == ("df" in fl) and not selfcall(f)
    for n in sizes:
        for f in forests(leaves, containers, n, keep):
            def prog(f=f):
                return [["define", "v", "v0"], ["define", "k", []], ["define", "l", []], ["define", "n", ["list", "x", "x", "x"]], ["define", "c", ["number", "0"]],
                        ["write", "m", [["method", [], *build(f, Count()), ["write", "end"], ["return", "last"]]]], ["write", "after", "$v"]]
            def exp(prog=prog):
                try: return ohref.expect(prog(), steps=6000)
                except Unmodelled: return None
            yield name(f), (lambda prog=prog: render(prog())), exp

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    J, S = (("Jk", "Jl", "R", "Rv"),), (("K", "L"), ("Jk", "Jl"))
    fams = [(range(1, 5 if q else 6), ["W", "R", "V", "S", "Rv"], ["m", "block", "if", "while", "args"], J, "return"),
            (range(2, 6 if q else 7), ["K", "Jk", "W", "S"], ["m", "block"], S, "one capture"),
            (range(2, 5 if q else 6), ["K", "Jk", "W", "V", "S", "D"], ["m", "block", "if", "while", "args"], S, "captures in constructs"),
            (range(2, 5 if q else 6), ["K", "L", "Jk", "Jl", "W", "V", "S"], ["m", "args", "def"], S, "two captures"),
            (range(2, 5 if q else 6), ["K", "Jk", "F", "R", "W", "T", "C"], ["m", "df", "block"], S, "captures, closures and exceptions"),
            (range(2, 4 if q else 5), ["K", "Jk", "R", "W", "V", "D", "S"], ["m", "cond", "def", "obj", "while"], S, "other constructs")]
    fams.append((range(5, 6) if q else range(6, 7), ["K", "Jk", "W"], ["m", "args", "while", "block"], S, "deep"))
    fams.append((range(5, 6) if q else range(6, 7), ["K", "L", "Jk", "Jl"], ["m", "args"], S, "deep, two captures"))
    for sizes, leaves, cont, need, n in fams:
        vc.enumerate_batches(ctx, lambda: programs(sizes, leaves, cont, need), oh, normalize=ohref.norm, name=n)
    ctx.cov["rule"] = "every program of the operations up to the bound that leaves through return or a saved continuation"
