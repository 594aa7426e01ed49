"""C22: arguments are evaluated once, in order, and bound exactly."""
import itertools
import vc, ohref
from ohref import *
PROP, LEVEL = "C22", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of routine headers, argument lists and recursive bodies on the real shell against a reference binding rule"
NOTE = "Exhaustive over headers (method and syntax, up to 3 parameters, rest parameter, self and environment labels) times argument lists of up to 4 (thorough 5) arguments of six forms, and recursive bodies of up to 4 (thorough 5) operations."

PRE = """define t: method (v) {
    write-line "t $v"
    return $v
}
define h: method (m) {
    write-line head
    return $m
}
define three: list p q r
define va: quote val
define nested: method (v) {
    write-line "n $v"
    return (t $v)
}
"""
# form: (source given n, trace lines given n, values given n or None for a throw)
FORMS = {
    "word": (lambda n: "w%d" % n, lambda n: [], lambda n: [Sym("w%d" % n)]),
    "var": (lambda n: "$va", lambda n: [], lambda n: [Sym("val")]),
    "cmd": (lambda n: "(t %d)" % n, lambda n: ["t %d" % n], lambda n: [Sym(str(n))]),
    "deep": (lambda n: "(t (nested (t %d)))" % n, lambda n: ["t %d" % n, "n %d" % n, "t %d" % n, "t %d" % n], lambda n: [Sym(str(n))]),
    "str": (lambda n: "'s  %d'" % n, lambda n: [], lambda n: [Str("s  %d" % n)]),
    "nil": (lambda n: "()", lambda n: [], lambda n: [NULL]),
    "splice0": (lambda n: "(splice ())", lambda n: [], lambda n: []),
    "splice3": (lambda n: "(splice $three)", lambda n: [], lambda n: [Sym("p"), Sym("q"), Sym("r")]),
    "splicec": (lambda n: "(splice (list (t %d) x))" % n, lambda n: ["t %d" % n], lambda n: [Sym(str(n)), Sym("x")]),
    "throw": (lambda n: "(throw boom)", lambda n: [], lambda n: None),
}
NAMES = ["a", "b", "c"]

def header(kind, np, rest, self_, env):
    ps = NAMES[:np] + (["(rest)"] if rest else [])
    return "%s %s(%s) %s" % (kind, "self " if self_ else "", " ".join(ps), "e " if env else "= ")

def bound(np, rest, vals):
    """What the body prints, or None if the count is wrong."""
    if len(vals) < np or len(vals) > np and not rest: return None
    ps = vals[:np] + ([lst(*vals[np:])] if rest else [])
    return "body" + "".join(" " + lit(p) for p in ps)

def bindings(q):
    maxargs = 3 if q else 4
    for kind in ("method", "syntax"):
        for np in range(0, 4):
            for rest in (False, True):
                for self_ in (False, True):
                    for env in (False, True):
                        for head in ("name", "var", "cmd", "inline", "object"):
                            full = head in ("name", "object") and not (self_ and env)
                            lo = maxargs + (1 if full and not q else 0)
                            forms = list(FORMS) if full else ["word", "cmd", "splice3"]
                            for na in range(0, lo + 1):
                                for args in itertools.product(forms if na <= 3 else forms[:3], repeat=na):
                                    if kind == "syntax" and na > 2 : continue
                                    if q and full and (self_ or env) and na > 2: continue
                                    yield case(kind, np, rest, self_, env, head, args)

def case(kind, np, rest, self_, env, head, args):
    decl = header(kind, np, rest, self_, env)
    ps = NAMES[:np] + (["rest"] if rest else [])
    body = "write body" + "".join(" $" + p for p in ps)
    if env: body += "\n    write env (e get marker)"
    if self_ and head == "object": body += "\n    write self (self who)"
    body += "\n    return done"
    pre = "define marker here\n"
    m = "%s{\n    %s\n}" % (decl, body) if not decl.endswith("= ") else "%s {\n    %s\n}" % (decl[:-3], body)
    if head == "object":
        pre += "define o: object {\n    export who: method () {\n        return me\n    }\n    export m: %s\n}\n" % m.replace("\n", "\n    ")
        call, headtrace = "o m", []
    elif head == "inline":
        pre += "define m: %s\n" % m
        call, headtrace = "(or () $m)", []
    else:
        pre += "define m: %s\n" % m
        call, headtrace = {"name": ("m", []), "var": ("$m", []), "cmd": ("(h $m)", ["head"])}[head]
    srcs = [FORMS[a][0](i) for i, a in enumerate(args)]
    out = list(headtrace)
    vals, thrown = [], False
    if kind == "method":
        for i, a in enumerate(args):
            out += FORMS[a][1](i)
            v = FORMS[a][2](i)
            if v is None:
                thrown = True
                break
            vals += v
    else:
        vals = [code(a, i) for i, a in enumerate(args)]
    if thrown:
        out.append("EX boom")
    else:
        b = bound(np, rest, vals)
        if b is None: out.append("EX <message>")
        else:
            out.append(b)
            if env: out.append("env here")
            if self_ and head == "object": out.append("self me")
            out.append("r done")
    return ("%s by %s %s" % (decl.strip(" ="), head, " ".join(args)), pre + "write r (" + call + "".join(" " + s for s in srcs) + ")", "\n".join(out) + "\n")

def code(a, n):
    """The form as a syntax routine sees it."""
    s = FORMS[a][0](n)
    def p(x):
        x = x.strip()
        if x.startswith("("):
            out, depth, cur = [], 0, ""
            for ch in x[1:-1] + " ":
                if ch == " " and depth == 0:
                    if cur: out.append(p(cur)); cur = ""
                    continue
                depth += (ch == "(") - (ch == ")")
                cur += ch
            return lst(*out)
        if x.startswith("$"): return V(x[1:])
        return Sym(x)
    return Str("s  %d" % n) if a == "str" else p(s)

def splices():
    lists = {"()": [], "(list a)": ["a"], "(list a b c)": ["a", "b", "c"], "(list (list a b) ())": None, "(cons a (cons b ()))": ["a", "b"]}
    vals = {"()": [], "(list a)": [Sym("a")], "(list a b c)": [Sym("a"), Sym("b"), Sym("c")], "(list (list a b) ())": [lst(Sym("a"), Sym("b")), NULL], "(cons a (cons b ()))": [Sym("a"), Sym("b")]}
    for n in (1, 2, 3):
        for combo in itertools.product(list(vals) + ["word"], repeat=n):
            src, v = "", []
            for c in combo:
                if c == "word": src += " w"; v.append(Sym("w"))
                else: src += " (splice %s)" % c; v += vals[c]
            yield "splice" + src, "write (list%s)\nwrite (method ((rest)) {\n    return $rest\n} %s)" .replace("write (method", "write ((method").replace("} %s)", "}) %s)") % (src, src.strip()), lit(lst(*v)) + "\n" + lit(lst(*v)) + "\n"
    for bad in ("a", "'s'", "(number 1)", "(cons a b)", "$list", "(splice (list a))", ""):
        for pos in ("%s", "x %s", "%s x"):
            yield "splice bad " + pos % bad, "write (list " + pos % ("(splice %s)" % bad) + ")", None

# -- recursion and re-entry: every activation has its own bindings -----------------------
def recursive(size):
    from trees import forests, flat, name
    leaves = ["Wx", "Wn", "Sx", "Rk", "Rl", "Rv", "keep", "run", "Wr"]
    def one(f, rest):
        g = iter(range(100))
        def op(t):
            if t == "Wx": return ["write", "x%d" % next(g), "$x"]
            if t == "Wn": return ["write", "$n"]
            if t == "Wr": return ["write", "$r"]
            if t == "Sx": return ["set", "x", "s%d" % next(g)]
            if t == "Rk": return ["if", "$n", ["m", ["sub", "$n", "1"], "$x", "$x"]]
            if t == "Rl": return ["if", "$n", ["m", ["sub", "$n", "1"], "l%d" % next(g)]]
            if t == "Rv": return ["if", "$n", ["set", "x", ["m", ["sub", "$n", "1"], "$n"]]]
            if t == "keep": return ["set", "k", ["method", [], ["write", "kept", "$x"]]]
            if t == "run": return ["k"]
        return C([["define", "k", ["method", [], ["write", "nothing"]]],
                  ["define", "m", ["method", ["n", "x", ["r"]], *[op(t) for t in f], ["return", "$x"]]],
                  ["write", ["m", ["number", "2"], "top"]], ["k"]])
    for n in range(1, size + 1):
        for f in forests(leaves, [], n):
            yield "recursive: " + name(f), (lambda f=f: render(one(f, 0))), (lambda f=f: ohref.expect(one(f, 0), steps=20000))

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    vc.enumerate_batches(ctx, lambda: bindings(q), oh, prelude=PRE, normalize=ohref.norm, name="binding")
    def sp():
        for k, b, e in splices():
            yield k, b, "EX <message>\n" if e is None else e
    vc.enumerate_batches(ctx, sp, oh, prelude=PRE, normalize=ohref.norm, name="splice")
    vc.enumerate_batches(ctx, lambda: recursive(4 if q else 5), oh, normalize=ohref.norm, name="recursion")
    ctx.cov["rule"] = "every header times every argument list of the forms; every splice combination; every recursive body up to the bound"
