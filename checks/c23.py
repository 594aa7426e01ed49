"""C23: control flow runs exactly the selected commands."""
import itertools
import vc
from ohval import *
from functools import lru_cache
PROP, LEVEL = "C23", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of control-flow programs on the real shell against a reference evaluator of traces and values"
NOTE = "Exhaustive over nests of if, else if, else, while, and, or, &&, ||, block, for, ; and return up to 4 (thorough 5) nodes in two layouts, and over the truth of every value type in every construct."

PRE = """define v: method (n) {
    write-line "v$n"
    return "r$n"
}
define tt: method (n) {
    write-line "T$n"
    return yes
}
define ff: method (n) {
    write-line "F$n"
    return ()
}
define show-it: method (n x) {
    write-line "c$n"
    return $x
}
"""
# Trees: "v" a command; "ret" return; ("if", cond, B), ("ifelse", cond, B, B), ("elif", cond, B, cond, B), ("elifelse", cond, B, cond, B, B), ("while", k, B), ("block", B), ("for", k, B)
# conditions: "T", "F", ("and", c, c), ("or", c, c), ("not", c)
@lru_cache(None)
def conds(n):
    if n == 1: return ("T", "F")
    out = [("not", c) for c in conds(n - 1)] if n <= 3 else []
    for k in range(1, n - 1):
        out += [(op, a, b) for op in ("and", "or") for a in conds(k) for b in conds(n - 1 - k)]
    return tuple(out)
@lru_cache(None)
def stmts(n):
    """Statements of n nodes."""
    if n == 1: return ("v", "ret", "cT", "cF")
    out = [("block", b) for b in bodies(n - 1)]
    out += [("while", k, b) for k in (0, 1, 2) for b in bodies(n - 1) ] + [("for", k, b) for k in (0, 1, 2) for b in bodies(n - 1)]
    for c in conds(n) if n > 1 else (): out.append(("c", c))
    for k in range(1, n - 1):
        for c in conds(k):
            out += [("if", c, b) for b in bodies(n - 1 - k)]
            for j in range(1, n - 1 - k):
                out += [("ifelse", c, a, b) for a in bodies(j) for b in bodies(n - 1 - k - j)]
    # else if, with simple conditions
    for j in range(1, n - 3):
        for a in bodies(j):
            for b in bodies(n - 3 - j):
                out += [("elif", c, a, d, b) for c in ("T", "F") for d in ("T", "F")]
            for l in range(1, n - 3 - j):
                out += [("elifelse", c, a, d, b, e) for c in ("T", "F") for d in ("T", "F") for b in bodies(l) for e in bodies(n - 3 - j - l)]
    return tuple(out)
@lru_cache(None)
def bodies(n):
    """Sequences; a return ends one (what follows could never run, and is covered by one case)."""
    out = [(s,) for s in stmts(n)]
    for k in range(1, n):
        out += [(s,) + r for s in stmts(k) if s != "ret" for r in bodies(n - k)]
    return tuple(out)

class Return(Exception): pass

class Run:
    """The reference: trace and value, with command numbers in source order."""
    def __init__(self): self.out = []
    def body(self, b, val=NULL):
        for s in b: val = self.stmt(s, val)
        return val
    def stmt(self, s, prev):
        k = s[0]
        if k == "v": self.out.append("v%d" % s[1]); return Str("r%d" % s[1])
        if k == "ret": self.out.append("v%d" % s[1]); raise Return(Str("r%d" % s[1]))
        if k == "c": return self.cond(s[1])
        if k == "block": return self.body(s[1])
        if k == "while":
            for i in range(s[1]):
                self.out.append("c%d" % s[3]); self.body(s[2])
            self.out.append("c%d" % s[3])
            return NULL
        if k == "for":
            vals = []
            for i in range(s[1]):
                self.out.append("i%d" % i)
                try: vals.append(self.body(s[2], Str("i")))
                except Return as r: vals.append(r.args[0])      # the body is a method: its return ends only that call
            return lst(*vals)
        c = self.cond(s[1])
        if truth(c): return self.body(s[2], c)
        if k == "if": return c
        if k == "ifelse": return self.body(s[3], c)
        d = self.cond(s[3])
        if truth(d): return self.body(s[4], d)
        return self.body(s[5], d) if k == "elifelse" else d
    def cond(self, c):
        k = c[0]
        if k == "T": self.out.append("T%d" % c[1]); return Sym("yes")
        if k == "F": self.out.append("F%d" % c[1]); return NULL
        if k == "not": return boolean(not truth(self.cond(c[1])))
        a = self.cond(c[1])
        if truth(a) == (k == "or"): return a
        return self.cond(c[2])

class Number:
    def __init__(self): self.n = 0
    def next(self):
        self.n += 1
        return self.n
    def body(self, b): return tuple(self.stmt(s) for s in b)
    def stmt(self, s):
        if s in ("v", "ret"): return (s, self.next())
        if s in ("cT", "cF"): return ("c", (s[1], self.next()))
        if s[0] == "c": return ("c", self.cond(s[1]))
        if s[0] == "block": return ("block", self.body(s[1]))
        if s[0] in ("while", "for"):
            i = self.next()
            return (s[0], s[1], self.body(s[2]), i)
        out = [s[0]]
        for i, x in enumerate(s[1:], 1):
            out.append(self.cond(x) if i in ((1, 3) if s[0].startswith("elif") else (1,)) else self.body(x))
        return tuple(out)
    def cond(self, c):
        if isinstance(c, str): return (c, self.next())
        return (c[0],) + tuple(self.cond(x) for x in c[1:])

class Text:
    """Source: style 0 braces over lines and infix operators, style 1 one line of parenthesised commands and prefix operators."""
    def __init__(self, style): self.style, self.pre = style, []
    def cond(self, c, top=False):
        """A parenthesised expression."""
        return "(%s)" % self.bare(c)
    def bare(self, c):
        k = c[0]
        if k == "T": return "tt %d" % c[1]
        if k == "F": return "ff %d" % c[1]
        if k == "not": return "not " + self.cond(c[1])
        if self.style == 0:
            return "%s %s %s" % (self.operand(c[1], k), "&&" if k == "and" else "||", self.operand(c[2], k, True))
        # and/or flatten: and a (and b c) is and a b c
        flat = []
        def go(x):
            if x[0] == k: go(x[1]); go(x[2])
            else: flat.append(self.cond(x))
        go(c)
        return k + " " + " ".join(flat)
    def operand(self, c, op, right=False):
        # && binds tighter than ||; a chain of one operator needs no parentheses on the left.
        if c[0] in ("T", "F", "not") or (c[0] == "and" and op == "or") or (c[0] == op and not right): return self.bare(c)
        return "block " + self.cond(c)
    def block(self, b, ind):
        if self.style == 1: return " ".join("(%s)" % self.stmt(s, ind) for s in b)
        pad = "    " * (ind + 1)
        return "{\n" + "".join(pad + self.stmt(s, ind + 1) + "\n" for s in b) + "    " * ind + "}"
    def stmt(self, s, ind=0):
        k = s[0]
        if k == "v": return "v %d" % s[1]
        if k == "ret": return "return (v %d)" % s[1]
        if k == "c": return self.bare(s[1])
        if k == "block": return "block " + self.block(s[1], ind)
        if k == "while":
            n = "k%d" % s[3]
            self.pre.append("define %s: list %s" % (n, " ".join("x" for _ in range(s[1]))) if s[1] else "define %s ()" % n)
            if self.style == 1: return "while (show-it %d $%s) (set %s (%s tail)) %s" % (s[3], n, n, n, self.block(s[2], ind))
            return "while (show-it %d $%s) {\n%sset %s: %s tail\n%s" % (s[3], n, "    " * (ind + 1), n, n, self.block(s[2], ind)[2:])
        if k == "for":
            xs = "(list %s)" % " ".join(str(i) for i in range(s[1])) if s[1] else "()"
            if self.style == 1: return "for %s (method (i) = (write-line (mend '' i $i)) %s)" % (xs, self.block(s[2], ind))
            return 'for %s (method (i) {\n%swrite-line "i$i"\n%s)' % (xs, "    " * (ind + 1), self.block(s[2], ind)[2:])
        out = "if %s %s" % (self.cond(s[1]), self.block(s[2], ind))
        if k == "ifelse": out += " else " + self.block(s[3], ind)
        if k.startswith("elif"): out += " else if %s %s" % (self.cond(s[3]), self.block(s[4], ind))
        if k == "elifelse": out += " else " + self.block(s[5], ind)
        return out

def name(x):
    return x if isinstance(x, (str, int)) and not isinstance(x, bool) and isinstance(x, str) else str(x) if isinstance(x, int) else "(" + " ".join(str(name(y)) for y in x) + ")"

def reset(b):
    """A while inside something that runs more than once would find its counter used up: leave those out."""
    def go(b, inside):
        for s in b:
            if isinstance(s, str) or s[0] == "c": continue
            if s[0] == "while" and inside: return False
            if not all(go(x, inside or s[0] in ("while", "for")) for i, x in enumerate(s[1:], 1) if isinstance(x, tuple) and not (i in ((1, 3) if s[0].startswith("elif") else (1,)) and s[0] not in ("block",) and s[0][:2] in ("if", "el"))): return False
        return True
    return go(b, False)

def program(b, style):
    t = Text(style)
    lines = []
    nb = Number().body(b)
    if style == 1:
        inner = " ".join("(%s)" % t.stmt(s) for s in nb)
        src = "write r ((method () = %s))" % inner
    elif style == 2:     # commands separated by ; on one line
        t.style = 1
        src = "define m: method () {\n    %s\n}\nwrite r (m)" % "; ".join(t.stmt(s) for s in nb)
    else:
        src = "define m: method () {\n%s\n}\nwrite r (m)" % "\n".join("    " + t.stmt(s, 1) for s in nb)
    r = Run()
    try: val = r.body(nb)
    except Return as e: val = e.args[0]
    r.out.append("r " + lit(val))
    return "".join(p + "\n" for p in t.pre) + src, "\n".join(r.out) + "\n"

def programs(size):
    for n in range(1, size + 1):
        for b in bodies(n):
            if not reset(b): continue
            for style in ((0, 1, 2) if len(b) > 1 else (0, 1)):
                yield "style %d: %s" % (style, " ".join(name(s) for s in b)), (lambda b=b, s=style: program(b, s)[0]), (lambda b=b, s=style: program(b, s)[1])

VALUES = [("()", NULL), ("a", Sym("a")), ("''", Str("")), ("'()'", Str("()")), ("(number 0)", Num(0)), ("(number 1)", Num(1)), ("(number -1)", Num(-1)), ("(number 1/2)", Num("1/2")), ("(number 0.0)", Num(0)),
          ("(status 0)", Stat(0)), ("(status 1)", Stat(1)), ("(status 255)", Stat(255)), ("(list a)", lst(Sym("a"))), ("(list ())", lst(NULL)), ("(cons () ())", lst(NULL)), ("(cons a b)", Cell(Sym("a"), Sym("b"))),
          ("0", Sym("0")), ("(symbol '')", Sym("")), ("false", Sym("false")), ("$t1", Sym("x")), ("(chan)", "T"), ("(pipe)", "T"), ("(object (export x 1))", "T"), ("(method () = x)", "T"), ("$cons", "T"), ("$if", "T"), ("(sub 1 1)", Num(0)), ("(lt? 2 1)", NULL), ("(equal? a a)", TRUE)]
def truths():
    for (s, v), (s2, v2) in itertools.product(VALUES, repeat=2):
        t, u = v == "T" or truth(v), v2 == "T" or truth(v2)
        yield "truth %s %s" % (s, s2), "define t1 x\ndefine r no\nif %s {\n    write then\n} else if %s {\n    write elif\n} else {\n    write else\n}\nif (and %s %s) {\n    write and\n}\nif (or %s %s) {\n    write or\n}\nwrite (not %s)\n(method () {\n    while %s {\n        write loop\n        return ()\n    }\n})\nwrite (bool %s)" % (s, s2, s, s2, s, s2, s, s, s), \
            ("then" if t else "elif" if u else "else") + "\n" + ("and\n" if t and u else "") + ("or\n" if t or u else "") + ("()\n" if t else "true\n") + ("loop\n" if t else "") + ("true\n" if t else "()\n")
    for s, v in VALUES:
        if v == "T": continue
        for s2, v2 in VALUES:
            if v2 == "T": continue
            yield "value %s %s" % (s, s2), "define t1 x\nwrite (and %s %s) (or %s %s) (and %s) (or %s)" % (s, s2, s, s2, s, s), "%s %s %s %s\n" % (lit(v2 if truth(v) else v), lit(v if truth(v) else v2), lit(v), lit(v))

def empties(q):
    """Empty commands, (), among the others, in every construct."""
    def seq(k, n): return ["()" if x == "()" else "(v %d)" % (10 * k + i) for i, x in enumerate(n)]
    def res(k, n):
        """What runs, and the value."""
        return [str(10 * k + i) for i, x in enumerate(n) if x != "()"], ("$'r%d'" % (10 * k + len(n) - 1) if n[-1] != "()" else "()") if n else None
    bs = [t for n in range(4) for t in itertools.product(("()", "v"), repeat=n)]
    def case(key, src, ran, val):
        return "empty commands: " + key, src, "".join("v%s\n" % x for x in ran) + "r %s\n" % val
    for a in bs:
        A, (ra, va) = " ".join(seq(1, a)), res(1, a)
        if a:
            yield case("block %r" % (a,), "write r (block %s)" % A, ra, va)
            yield case("method %r" % (a,), "write r ((method () = %s))" % A, ra, va)
            yield case("and %r" % (a,), "write r (and %s)" % A, ra[:a.index("()")] if "()" in a else ra, "()" if "()" in a else va)
            yield case("or %r" % (a,), "write r (or %s)" % A, ra[:1], next(("$'r%d'" % (10 + i) for i, x in enumerate(a) if x != "()"), "()"))
        yield case("while %r" % (a,), "define k on\nwhile $k (set k ()) %s\nwrite r ()" % A, ra, "()")
        for c in ("true", "()"):
            yield case("if %s %r" % (c, a), "write r (if %s %s)" % (c, A), ra if c == "true" else [], (va or "true") if c == "true" else "()")
            for b in bs if not q or len(a) < 3 else bs[:7]:
                B, (rb, vb) = " ".join(seq(2, b)), res(2, b)
                yield case("if %s %r else %r" % (c, a, b), "write r (if %s %s else %s)" % (c, A, B), ra if c == "true" else rb, (va or "true") if c == "true" else vb or "()")
                for d in ("true", "()"):
                    yield case("if %s %r else if %s %r else" % (c, a, d, b), "write r (if %s %s else if %s %s else (v 30))" % (c, A, d, B), ra if c == "true" else rb if d == "true" else ["30"],
                               (va or "true") if c == "true" else (vb or "true") if d == "true" else "$'r30'")

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    vc.enumerate_batches(ctx, lambda: programs(4 if q else 5), oh, prelude=PRE, name="programs")
    vc.enumerate_batches(ctx, truths, oh, name="truth")
    vc.enumerate_batches(ctx, lambda: empties(q), oh, prelude=PRE, name="empty commands")
    ctx.cov["rule"] = "every program of the constructs up to the bound in every layout; every pair of values in every construct"
