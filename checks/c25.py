"""C25: a thrown value reaches exactly the nearest active handler."""
import itertools
import vc, ohref
from ohref import *
from trees import forests, flat, name
PROP, LEVEL = "C25", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of programs that throw and catch, on the real shell against a reference interpreter"
NOTE = "Exhaustive over programs of up to 5 (thorough 6) operations: throws and internal errors in blocks, branches, loops, methods, operands and closures under handlers that return, fall through, rethrow, throw something else or have no clause; uncaught throws in scripts, -c and spawned tasks."

class Count:
    def __init__(self): self.n = 0
    def __call__(self):
        self.n += 1
        return "%d" % self.n
def leaf(t, g):
    n = g()
    return {"T": lambda: ["throw", "t" + n], "I": lambda: ["cons", "a"], "N": lambda: ["no-such-command"], "W": lambda: ["write", "w" + n], "F": lambda: ["f"], "A": lambda: ["write", "a" + n, ["throw", "t" + n]],
            "ret": lambda: ["return", "r" + n], "Cr": lambda: ["catch", "ex", ["write", "c" + n, "$ex"], ["return", "h" + n]], "Cf": lambda: ["catch", "ex", ["write", "c" + n, "$ex"]],
            "C0": lambda: ["catch", "ex"], "Ct": lambda: ["catch", "ex", ["write", "c" + n, "$ex"], ["throw", "again" + n]], "Ci": lambda: ["catch", "ex", ["write", "c" + n, "$ex"], ["cons", "x"]],
            "Cd": lambda: ["catch", "ex", ["write", "c" + n, "$v"], ["set", "v", "caught" + n], ["return", "$v"]], "V": lambda: ["write", "$v"], "S": lambda: ["set", "v", "s" + n],
            "L": lambda: ["throw", ["list", "t" + n, "t" + n]], "E": lambda: ["throw", []],
            "Cm": lambda: ["catch", "ex", ["define", "x", [["method", [], ["catch", "ex2", ["write", "in" + n, "$ex2"], ["return", "i" + n]], ["throw", "inner" + n]]]], ["write", "c" + n, "$x", "$ex"], ["return", "h" + n]],
            }[t]()
def build(f, g):
    out = []
    for t in f:
        if isinstance(t, str):
            out.append(leaf(t, g)); continue
        c, inner = t
        n = g()
        body = build(inner, g)
        out.append({"block": lambda: ["block", *body], "m": lambda: ["write", "m" + n, [["method", [], *body]]], "if": lambda: ["if", "true", *body], "else": lambda: ["if", [], "no", "else", *body] if False else ["if", [], ["write", "no"], "else", *body],
                    "df": lambda: ["define", "f", ["method", [], *body]], "xf": lambda: ["export", "f", ["method", [], *body]], "for": lambda: ["for", ["list", "a", "b"], ["method", ["i"], *body]],
                    "while": lambda: ["block", ["define", "k", "on"], ["while", "$k", ["set", "k", []], *body]],
                    "arg": lambda: ["write", "a" + n, ["list", *[b if isinstance(b, list) else b for b in body]]],
                    "cond": lambda: ["if", ["block", *body], ["write", "then" + n], "else", ["write", "else" + n]]}[c]())
    return out
CATCH = ("Cr", "Cf", "C0", "Ct", "Ci", "Cd", "Cm")
THROW = ("T", "I", "N", "A", "L", "E")
def selfcall(f, inside=False):
    return any((t == "F" and inside) if isinstance(t, str) else selfcall(t[1], inside or t[0] in ("df", "xf")) for t in f)
def programs(sizes, leaves, containers):
    def keep(f):
        fl = list(flat(f))
        return any(x in THROW for x in fl) and any(x in CATCH for x in fl) and not (("F" in fl) != ("df" in fl or "xf" in fl)) and not selfcall(f)
    for n in sizes:
        for f in forests(leaves, containers, n, keep):
            def prog(f=f): return [["define", "v", "v0"], [["method", [], *build(f, Count()), ["write", "end"]]], ["write", "after", "$v"]]
            def exp(prog=prog):
                try: return ohref.expect(prog(), steps=3000)
                except Unmodelled: return None
            yield name(f), (lambda prog=prog: render(prog())), exp

def uncaught(thorough):
    """Programs whose last act is an uncaught throw: what came before is done, nothing after is, and the message is on stderr."""
    whats = ["throw boom", "throw 'some text'", "cons a", "no-such-command-zz", "set nope-zz 1", "write (throw boom)", "define x: throw boom"]
    wraps = ["%s", "block {\n    %s\n}", "if true {\n    %s\n    write-line not-reached\n}", "define m: method () {\n    %s\n    write-line not-reached\n}\nm", "while true {\n    %s\n}", "for (list a b) (method (x) {\n    %s\n})", "object {\n    %s\n}",
             "define m: method () {\n    catch ex {\n        throw $ex\n    }\n    %s\n}\nm", "define m: method () {\n    catch ex {\n        return handled\n    }\n    return ok\n}\nm\n%s", "%s; write-line not-reached", "true && block {\n    %s\n}"]
    for a, w, pre in itertools.product(whats, wraps, ("", "write-line before\n")):
        yield "uncaught %r" % (pre + w % a), pre + w % a + "\nwrite-line not-reached\n", (pre != "", {"throw boom": "boom", "throw 'some text'": "some text", "write (throw boom)": "boom", "define x: throw boom": "boom"}.get(a, ""))
    for a in whats:
        yield "spawned %r" % a, "write-line before\ndefine t: spawn {\n    %s\n    write-line not-reached\n}\nwait $t\nwrite-line after\n" % a, ("spawn", {"throw boom": "boom"}.get(a, ""))
        yield "piped %r" % a, "write-line before\n(method () {\n    catch ex {\n        write-line caught\n        return ()\n    }\n    block {\n        %s\n        write-line not-reached\n    } | block {\n        while (define l: read-line) {\n            write-line $l\n        }\n    }\n})\nwrite-line after\n" % a, ("pipe", "")

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    fams = [(range(2, 5 if q else 6), ["T", "I", "W", "Cr", "Cf", "C0", "Ct"], ["m", "block", "if", "while", "arg"], "nesting"),
            (range(2, 5 if q else 6), ["T", "N", "W", "F", "Cr", "Cf", "Cd", "V", "S"], ["m", "df", "xf", "block"], "callers and closures"),
            (range(2, 4 if q else 5), ["T", "L", "E", "A", "I", "Cr", "Ci", "Cm", "Ct", "ret", "W"], ["m", "for", "else", "cond", "block"], "handlers"),
            (range(5, 6) if q else range(6, 7), ["T", "Cr", "Cf", "W"], ["m", "block"] , "deep")]
    for sizes, leaves, cont, n in fams:
        vc.enumerate_batches(ctx, lambda: programs(sizes, leaves, cont), oh, normalize=ohref.norm, name=n)
    def gen():
        for k, s, e in uncaught(not q):
            yield k, [oh, "s.oh"], None, (s, e)
            if e[0] in (True, False) and "\n" not in s.strip("\n").replace("\nwrite-line not-reached", ""):
                yield "-c " + k, [oh, "-c", s.replace("\n", "; ").rstrip("; ")], None, (s, e)
    def prepare(d, key, exp):
        with open(d + "/s.oh", "w") as f: f.write(exp[0])
    def judge(exp, st, o, e, d):
        pre, msg = exp[1]
        if pre == "spawn":
            return None if o == "before\nafter\n" and st == 0 and msg in e else "a throw in a spawned task: status %r, printed %r" % (st, o)
        if pre == "pipe":
            return None if o == "before\ncaught\nafter\n" and st == 0 else "a throw in a pipeline: status %r, printed %r" % (st, o)
        if st is None: return "did not end"
        if o != ("before\n" if pre else ""): return "printed %r" % o
        if msg not in e or not e: return "the message is not on stderr: %r" % e
    vc.enumerate_runs(ctx, gen, judge, prepare=prepare, name="uncaught")
    ctx.cov["rule"] = "every program of the operations up to the bound with a throw and a handler; every uncaught throw in every context"
