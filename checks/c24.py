"""C24: syntax receives code unevaluated and eval runs it in the chosen scope."""
import itertools
import vc, ohref
from ohref import *
from trees import forests, flat, name
PROP, LEVEL = "C24", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of operands and templates on the real shell against a reference expander and interpreter"
NOTE = "Exhaustive over operand trees of up to 5 (thorough 6) nodes for quote, quasiquote and syntax parameters, and over operand programs of up to 4 (thorough 5) operations evaluated in the caller's environment compared with the same program in place."

PRE = """define show: method (v) {
    write $v
}
define q1: syntax (x) {
    return $x
}
define qs: syntax ((xs)) {
    return $xs
}
define ev: syntax (x) e {
    e eval $x
}
define ev2: syntax (x) e {
    define x2 $x
    define v hidden
    define w hidden
    ev-in $e $x2
}
define ev-in: method (env code) {
    define v hidden
    env eval $code
}
define do: syntax ((body)) e {
    define v hidden
    e eval (cons block $body)
}
define each: syntax ((body)) e {
    define v hidden
    define r ()
    while $body {
        set r: e eval (body head)
        set body: body tail
    }
    return $r
}
define twice: syntax (x) e {
    e eval $x
    e eval $x
}
define never: syntax (x) e {
    return ()
}
"""
# ---- data: quote and friends return the tree as written --------------------------------
ATOMS = ["a", "$v", "'s t'", "()", "1", "quote", "else"]
def trees(n, atoms):
    from functools import lru_cache
    @lru_cache(None)
    def one(k):
        if k == 1: return tuple(atoms)
        return tuple(seqs(k - 1))
    @lru_cache(None)
    def seqs(k):
        out = []
        for j in range(1, k + 1):
            for t in one(j):
                if j == k: out.append((t,))
                else: out += [(t,) + r for r in seqs(k - j)]
        return tuple(out)
    return one(n)
def text(t):
    return t if isinstance(t, str) else "(" + " ".join(text(x) for x in t) + ")"
def data(t):
    if not isinstance(t, str): return lst(*[data(x) for x in t])
    return {"()": NULL, "'s t'": Str("s t")}.get(t) or (NULL if t == "()" else V(t[1:]) if t.startswith("$") else Sym(t))
def quotes(n):
    for k in range(1, n + 1):
        for t in trees(k, ATOMS):
            s, d = text(t), data(t)
            yield "quote " + s, "define v val\nwrite (quote %s)\nwrite (q1 %s)\nwrite (qs %s x %s)\nwrite (quasiquote %s)" % (s, s, s, s, s), \
                "\n".join([lit(d), lit(d), lit(lst(d, Sym("x"), d)), lit(d)]) + "\n"
# ---- quasiquote: exactly the unquoted parts are replaced ---------------------------------
U = {"(unquote $v)": Sym("val"), "(unquote (t 1))": Sym("r1"), "(unquote (list a b))": lst(Sym("a"), Sym("b")), "(unquote 's')": Str("s")}
def quasi(n):
    atoms = ["a", "$v", "()"] + list(U)
    for k in range(1, n + 1):
        for t in trees(k, atoms):
            out = []
            def q(x):
                if isinstance(x, str):
                    if x in U:
                        if "(t 1)" in x: out.append("t")
                        return U[x]
                    return data(x)
                return lst(*[q(y) for y in x])
            r = q(t)
            yield "quasiquote " + text(t), "define v val\ndefine t: method (n) {\n    write-line t\n    return (symbol \"r$n\")\n}\nwrite (quasiquote %s)" % text(t), "".join(x + "\n" for x in out) + lit(r) + "\n"
# ---- an operand evaluated in the caller's environment is as if written in place --------------
def leaf(t, g):
    return {"R": lambda: ["write", "$v"], "D": lambda: ["define", "v", g()], "X": lambda: ["export", "v", g()], "S": lambda: ["set", "v", g()],
            "T": lambda: ["throw", "boom"], "ret": lambda: ["return", g()], "W": lambda: ["write", g()], "F": lambda: ["f"], "Rw": lambda: ["write", "$w"], "Dw": lambda: ["define", "w", g()]}[t]()
def build(f, g, wrapper):
    """The forest as commands; a container is a construct or a syntax routine around its contents."""
    out = []
    for t in f:
        if isinstance(t, str):
            out.append(leaf(t, g)); continue
        c, inner = t
        body = build(inner, g, wrapper)
        if c == "block": out.append(["block", *body])
        elif c == "if": out.append(["if", "true", *body])
        elif c == "m": out.append([["method", [], *body]])
        elif c == "df": out.append(["define", "f", ["method", [], *body]])
        elif wrapper:      # through the syntax routine
            out.append({"ev": lambda: ["ev", ["block", *body]] if len(body) > 1 else ["ev", body[0]], "ev2": lambda: ["ev2", ["block", *body]] if len(body) > 1 else ["ev2", body[0]],
                        "do": lambda: ["do", *body], "each": lambda: ["each", *body], "twice": lambda: ["twice", body[0]] if len(body) == 1 else ["twice", ["block", *body]],
                        "never": lambda: ["never", ["block", *body]], "eval": lambda: ["eval", ["quote", ["block", *body] if len(body) > 1 else body[0]]]}[c]())
        else:              # what that means, in place
            b = body if len(inner) == 1 else [["block", *body]]
            out += {"ev": lambda: b, "ev2": lambda: b, "do": lambda: [["block", *body]], "each": lambda: body, "twice": lambda: b + b, "never": lambda: [], "eval": lambda: b}[c]()
    return out
class Count:
    def __init__(self): self.n = 0
    def __call__(self):
        self.n += 1
        return "v%d" % self.n
SYN = ["ev", "ev2", "do", "each", "twice", "never", "eval"]
def places(size, leaves, containers):
    def keep(f):
        fl = list(flat(f))
        return any(x in SYN for x in fl) and fl[-1] in ("R", "Rw", "W", "F", "T", "ret") and not ("F" in fl and "df" not in fl) and not selfcall(f)
    for n in range(2, size + 1):
        for f in forests(leaves, containers, n, keep):
            for pre in ([], [["define", "v", "outer"], ["define", "w", "outer-w"]]):
                def prog(wr, f=f, pre=pre):
                    return pre + [[["method", [], *build(f, Count(), wr), ["write", "end"]]], ["write", "after"]]
                def exp(prog=prog):
                    try: return ohref.expect(prog(False), steps=3000)
                    except Unmodelled: return None
                yield "%s%s" % ("v: " if pre else "", name(f)), (lambda prog=prog: render(C(prog(True)))), exp
def selfcall(f, inside=False):
    return any((t == "F" and inside) if isinstance(t, str) else selfcall(t[1], inside or t[0] == "df") for t in f)

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    vc.enumerate_batches(ctx, lambda: quotes(5 if q else 6), oh, prelude=PRE, name="quote")
    vc.enumerate_batches(ctx, lambda: quasi(4 if q else 5), oh, prelude=PRE, name="quasiquote")
    vc.enumerate_batches(ctx, lambda: places(4 if q else 5, ["R", "D", "X", "S", "W"], SYN + ["block", "m"]), oh, prelude=PRE, normalize=ohref.norm, name="in place")
    vc.enumerate_batches(ctx, lambda: places(4 if q else 5, ["R", "D", "F", "T", "ret", "W"], ["ev", "do", "each", "eval", "df", "if"]), oh, prelude=PRE, normalize=ohref.norm, name="in place, control")
    ctx.cov["rule"] = "every operand tree and template up to the bound; every program with a part handed to a syntax routine up to the bound, against the same program with that part in place"
