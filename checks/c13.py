"""C13: string functions, predicates and conversions compute the documented function."""
import itertools, re
from functools import lru_cache
import vc
from ohval import *
PROP, LEVEL = "C13", "model_checking"
TECHNIQUE = "bounded-exhaustive evaluation of every function over argument alphabets on the real shell against reference definitions"
NOTE = "Exhaustive over the argument alphabets (strings up to length 3, thorough 4) and argument counts 0..4; the reference functions are independent definitions in Python."

class Bad(Exception): pass

def need(a, lo, hi):
    if not lo <= len(a) <= hi: raise Thrown()
def integer(v):
    n = number(v)
    if n.denominator != 1 or abs(n) >= 2**63: raise Thrown()
    return int(n)
def b(s): return s.encode("utf-8", "surrogateescape")
def u(s): return s.decode("utf-8", "surrogateescape")

def replace(s, old, new, n):
    if old: return s.replace(old, new, n)
    out, k = "", 0
    for i in range(len(s) + 1):
        if n < 0 or k < n:
            out += new; k += 1
        out += s[i:i + 1]
    return out
def mend(a):
    if len(a) < 2: raise Thrown()
    ts = [text(x) for x in a]
    return (Str if any(isinstance(x, Str) for x in a[1:]) else Sym)(ts[0].join(ts[1:]))
def rend(a):
    need(a, 2, 2)
    sep, s = text(a[0]), text(a[1])
    T = Str if isinstance(a[1], Str) else Sym
    return lst(*[T(x) for x in (s.split(sep) if sep else list(s))])
def sslice(a):
    need(a, 2, 3)
    s = b(text(a[0])); n = len(s); st = integer(a[1])
    if st < 0: raise Thrown()
    st = min(st, n); e = n
    if len(a) == 3:
        e = integer(a[2])
        e = n if e > n else n + e if e < 0 else e
    if e < st: raise Thrown()
    return Str(u(s[st:e]))
def sreplace(a):
    need(a, 3, 4)
    s, o, r = (text(x) for x in a[:3])
    return Str(replace(s, o, r, integer(a[3]) if len(a) == 4 else -1))
def fmtf(a):
    if not a: raise Thrown()
    f, rest = text(a[0]), [text(x) for x in a[1:]]
    out = re.sub(r"%%|%(-?\d*)[sv]", lambda m: "%" if m[0] == "%%" else (lambda s, w: s.ljust(-w) if w < 0 else s.rjust(w))(rest.pop(0), int(m[1] or 0)), f)
    return Str(out)
def one(f):
    def g(a):
        need(a, 1, 1)
        return f(a[0])
    return g
def two(f):
    def g(a):
        need(a, 2, 2)
        return Str(f(text(a[0]), text(a[1])))
    return g
def tonum(v):
    if isinstance(v, (Num, Stat)): return Num(Fraction(v))
    return Num(number(Sym(text(v))))
def glob(p, s):
    """Does the whole of s match the pattern?"""
    def parse(p):
        out, i = [], 0
        while i < len(p):
            c = p[i]
            if c in "*?": out.append(c); i += 1
            elif c == "[":
                j = i + 1; neg = p[j:j + 1] == "^"; j += neg
                cs = []
                while True:
                    if j >= len(p): raise Bad()
                    if p[j] == "]" and cs: break
                    if p[j] in "-]": raise Bad()
                    if p[j + 1:j + 2] == "-":
                        if p[j + 2:j + 3] in ("", "]", "-"): raise Bad()
                        cs.append((p[j], p[j + 2])); j += 3
                    else:
                        cs.append((p[j], p[j])); j += 1
                out.append((neg, cs)); i = j + 1
            elif c == "\\":
                if i + 1 >= len(p): raise Bad()
                out.append(("lit", p[i + 1])); i += 2
            else: out.append(("lit", c)); i += 1
        return out
    t = parse(p)
    @lru_cache(None)
    def m(i, j):
        if i == len(t): return j == len(s)
        x = t[i]
        dot = j < len(s) and s[j] == "." and (j == 0 or s[j - 1] == "/")
        if x == "*":
            if m(i + 1, j) and not (dot): return True
            k = j
            if dot: return False
            while k < len(s) and s[k] != "/":
                k += 1
                if m(i + 1, k): return True
            return False
        if j == len(s): return False
        if x == "?": return s[j] != "/" and not dot and m(i + 1, j + 1)
        if x[0] == "lit": return s[j] == x[1] and m(i + 1, j + 1)
        return not dot and any(lo <= s[j] <= hi for lo, hi in x[1]) != x[0] and m(i + 1, j + 1)
    return m(0, 0)

FUN = {
    "str upper": one(lambda v: Str(text(v).upper())), "str lower": one(lambda v: Str(text(v).lower())), "str length": one(lambda v: Num(len(b(text(v))))),
    "str trim-prefix": two(lambda s, p: s[len(p):] if s.startswith(p) else s), "str trim-suffix": two(lambda s, p: s[:len(s) - len(p)] if p and s.endswith(p) else s),
    "str slice": sslice, "str replace": sreplace, "mend": mend, "rend": rend, "str format": fmtf, "sprintf": fmtf,
    "string": one(lambda v: Str(text(v))), "symbol": one(lambda v: Sym(text(v))), "bool": one(lambda v: boolean(truth(v))), "not": one(lambda v: boolean(not truth(v))),
    "number": one(tonum), "status": one(lambda v: Stat(number(v))),
}
OPQ = [Opaque("c", "chan"), Opaque("p", "pipe"), Opaque("o", "object"), Opaque("m", "method"), Opaque("s", "syntax"), Opaque("k", "continuation"), Opaque("w", "task")]
PRE = ("define c: chan 1\ndefine p: pipe\ndefine o: object {\n    export a 1\n}\ndefine m: method (x) {\n    return $x\n}\ndefine s: syntax (x) {\n    return $x\n}\n"
       "define k: (method () {\n    return $return\n})\ndefine w: spawn {\n    true\n}\n")
ANY = [Sym("a"), Str("a"), Str(""), Sym("1"), Sym("-1/2"), Sym("1.5"), Str("12"), Num("3/4"), Num(0), Stat(0), Stat(3), NULL, lst(Sym("a"), Str("b c")), lst(NULL), TRUE, Str("x y"), Str("(z)"), Sym("0")] + OPQ

def kind(v):
    if v is NULL: return {"null", "cons"}
    for T, k in ((Str, "string"), (Sym, "symbol"), (Num, "number"), (Stat, "status"), (Cell, "cons")):
        if isinstance(v, T): return {k}
    return {v.kind}

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    def words(alpha, n): return ["".join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]
    def cases():
        for f in FUN:
            yield f, ()
            for v in ANY: yield f, (v,)
            if f not in ("str format", "sprintf"):
                for t in itertools.product(ANY[:14:2] + OPQ[:1], repeat=2): yield f, t
                for t in itertools.product([Str("a"), Sym("1"), NULL], repeat=3): yield f, t
                for t in itertools.product([Str("a"), Sym("1")], repeat=4): yield f, t
                for t in itertools.product([Str("a"), Sym("1")], repeat=5): yield f, t
        W = words("aBé- ", 3 if q else 4)
        for s in W:
            for f in ("str upper", "str lower", "str length", "string", "symbol", "bool"): yield f, (Str(s),)
        L = 3 if q else 4
        S = words("ab", L) + ["é", "aé", "éa", "a-b", "-", "a b"]
        P = words("ab", 2) + ["é", "-", " "]
        for s in S:
            for p in P:
                for f in ("str trim-prefix", "str trim-suffix"): yield f, (Str(s), Str(p))
                for x, y in ((Str, Str), (Sym, Str), (Str, Sym), (Sym, Sym)): yield "rend", (x(p), y(s))
                for r in ("", "a", "ab", "é"):
                    yield "str replace", (Str(s), Str(p), Str(r))
                    for n in ("-1", "0", "1", "2", "9"): yield "str replace", (Str(s), Str(p), Str(r), Sym(n))
            for i in range(-2, L + 3):
                yield "str slice", (Str(s), Sym(str(i)))
                for j in range(-L - 2, L + 3): yield "str slice", (Str(s), Sym(str(i)), Sym(str(j)))
        el = [Sym("a"), Str("b"), Str(""), Num("1/2"), lst(Sym("x"), Sym("y"))]
        for sep in (Str(""), Str("-"), Str(", "), Sym(":"), Num(3)):
            for n in range(5 if not q else 4):
                for t in itertools.product(el, repeat=n): yield "mend", (sep,) + t
        # Elements that contain the separator, and separators at their ends.
        for sep in ("-", "--", ":", "a", " ", "a-", "\n"):
            c = sep[0]
            for t in itertools.product(words(["x", c] if c != "a" else "xa", 3), repeat=2): yield "mend", (Str(sep), Str(t[0]), Sym(t[1]))
            for t in itertools.product(words(["x", c] if c != "a" else "xa", 2), repeat=3): yield "mend", (Sym(sep), Str(t[0]), Sym(t[1]), Str(t[2]))
            for t in words(["x", c, "-"], 4 if q else 5): yield "rend", (Str(sep), Str(t))
        # Awkward and long text.
        odd = ["\n", "a\n", "\na", "\\", "\\n", "$x", "${x}", "$$", "'", '"', "''", "\t", "%", "%d", "*", "~", "(", "#", ";", "x" * 300, "xy" * 3000, "é" * 2000, "A\nB\n", " a ", "\r\n", "😀", "İ", "ß"]
        for x in odd:
            for f in ("str length", "string", "symbol", "bool") + (() if x in ("İ", "ß") else ("str upper", "str lower")): yield f, (Str(x),)
            for p in (x, x[:1], x[-1:], "x", "\n", " "):
                for f in ("str trim-prefix", "str trim-suffix"): yield f, (Str(x), Str(p))
                yield "rend", (Str(p), Str(x))
                yield "rend", (Str(p), Str(x + x))
                yield "str replace", (Str(x), Str(p), Str("y"))
                yield "str replace", (Str(x + x), Str(p), Str(x), Sym("1"))
            for t in itertools.product(odd[:19], repeat=1): yield "mend", (Str(x), Str(t[0]), Str(t[0]))
            for j in (0, 1, -1, 299, 5999): yield "str slice", (Str(x), Sym("0"), Sym(str(j)))
            yield "str slice", (Str(x), Sym("1"))
        for f in ("str format", "sprintf"):
            for fm, n in (("", 0), ("x", 0), ("%%", 0), ("%s", 1), ("a%sb", 1), ("%v|%s", 2), ("%5s|", 1), ("%-4s|", 1), ("%s%s%s", 3), ("%s%%%s", 2)):
                for t in itertools.product([Sym("a"), Str("b c"), Str("%s"), Num("1/2"), Str(""), NULL], repeat=n): yield f, (Str(fm),) + t
        nums = words("12-+/.e", 3 if q else 4) + ["0x10", "1_000", " 1", "1 ", "00012", "1e-2", "-0", "inf", "nan"]
        for s in nums:
            if s and re.fullmatch(r"[+-]?(\d+/[1-9]\d*|(\d+\.?\d*|\.\d+)(e[+-]?\d{1,2})?)", s) and s != "" or re.search(r"[a-df-z ]", s) and "x" not in s or s in ("", "-", "+", "/", "1/", "e", "--1"):
                yield "number", (Str(s),)
                yield "number", (Sym(s),)
    def gen():
        for f, a in cases():
            try:
                e = lit(FUN[f](list(a)))
            except Thrown:
                e = "EX"
            shown = [x for x in range(len(a)) if isinstance(a[x], Cell) or not isinstance(a[x], Opaque)]
            body = "".join("define v%d %s\n" % (i, src(x)) for i, x in enumerate(a))
            try:
                keep = " ".join(lit(a[i]) for i in shown)
            except Thrown:
                shown, keep = [], ""
            body += "(method () {\n    catch e {\n        write EX\n        return ()\n    }\n    write (%s %s)\n})\n" % (f, " ".join("$v%d" % i for i in range(len(a))))
            if shown: body += "write %s" % " ".join("$v%d" % i for i in shown)
            yield "%s %s" % (f, " ".join(src(x) for x in a)), body, e + "\n" + (keep + "\n" if shown else "")
    vc.enumerate_batches(ctx, gen, oh, prelude=PRE, name="functions over argument tuples", size=250)
    def preds():
        names = ["string", "symbol", "number", "null", "cons", "chan", "pipe", "object", "method", "syntax", "continuation"]
        for n in names:
            for v in ANY:
                yield "%s? %s" % (n, src(v)), "write (%s? %s)" % (n, src(v)), "true\n" if n in kind(v) else "()\n"
            for a in ("", "a b"):
                yield "%s? %s" % (n, a), "catch e {\n    write EX\n    return ()\n}\nwrite (%s? %s)" % (n, a), "EX\n"
    vc.enumerate_batches(ctx, preds, oh, prelude=PRE, name="type predicates", size=400)
    def matches():
        pats = words("a?*[", 2) + words("a.?*", 3 if q else 4) + words("a*/.", 3 if q else 4) + ["[ab]", "[^a]", "[a-c]*", "*[b]", "\\*", "\\a", "a\\", "[]", "[a", "[-a]", "[a-]", "?[^.]*", "é", "?é", "*é*", "[é]"]
        subj = words("ab./", 3) + ["é", "aé", "*"]
        for p in dict.fromkeys(pats):
            for s in subj:
                try:
                    e = "true" if glob(p, s) else "()"
                except Bad:
                    e = "?"
                yield "match %r %r" % (p, s), "catch e {\n    write EX\n    return ()\n}\nwrite (match '%s' '%s')" % (p, s), e + "\n"
    def mj(key, body, exp, out):
        return out == exp or exp == "?\n" and out in ("EX\n", "()\n", "true\n")
    vc.enumerate_batches(ctx, matches, oh, judge=mj, name="match", size=500)
    def inverse():
        # rend of mend gives the parts back when no part contains the separator, and mend of rend always does.
        for sep in ("-", ", ", "ab", "é"):
            for s in words("ab-, é", 4 if q else 5):
                yield "mend(rend %r) %r" % (sep, s), "write (eq? '%s' (mend '%s' (splice (rend '%s' '%s'))))" % (s, sep, sep, s), "true\n"
    vc.enumerate_batches(ctx, inverse, oh, name="mend of rend", size=500)
    ctx.cov["rule"] = "every function and predicate over every argument tuple of the alphabets, arguments printed again afterwards"
