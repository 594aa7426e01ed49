"""C11: comparisons follow the number line; equality is structural."""
import itertools
import vc
from ohval import *
PROP, LEVEL = "C11", "model_checking"
TECHNIQUE = "bounded-exhaustive comparison of value tuples on the real shell against the mathematical relations"
NOTE = "Exhaustive over pairs and triples (thorough: quadruples) of the value alphabets."

NUMS = [Sym("0"), Sym("1"), Num(1), Stat(1), Sym("-2"), Num("1/2"), Sym("0.5"), Num("1/3"), Sym("10"), Sym("9"), Num("123456789012345678901234567890"), Num("-1/2"), Stat(0)]
# Numbers that only exact arithmetic tells apart.
CLOSE = [Num("123456789012345678901234567890"), Num("123456789012345678901234567891"), Num("9007199254740992"), Num("9007199254740993"), Stat(9007199254740993), Num("1/3"), Num("6004799503160661/18014398509481984"),
         Sym("0.1"), Num("3602879701896397/36028797018963968"), Num("1/" + "9" * 400), Num("1/" + "9" * 399 + "8"), Num("7" + "0" * 400), Num("7" + "0" * 399 + "1"), Num(4294967296), Num(0), Num("18446744073709551616"), Num(-1), Num(1)]
BADN = [Str("1"), NULL, lst(Sym("1")), Sym("x")]
O = [Opaque(n, k) for n, k in (("c1", "chan"), ("c2", "chan"), ("p1", "pipe"), ("p2", "pipe"), ("o1", "object"), ("o2", "object"), ("m1", "method"), ("m2", "method"), ("s1", "syntax"), ("add", "builtin"), ("sub", "builtin"))]
PRE = ("define c1: chan 1\ndefine c2: chan 1\ndefine p1: pipe\ndefine p2: pipe\ndefine o1: object {\n    export a 1\n}\ndefine o2: object {\n    export a 1\n}\n"
       "define m1: method (x) {\n    return $x\n}\ndefine m2: method (x) {\n    return $x\n}\ndefine s1: syntax (x) {\n    return $x\n}\n")
DATA = [Sym("a"), Str("a"), Sym("1"), Num(1), Stat(1), Str("1"), NULL, Str(""), Sym(""), lst(NULL), Cell(NULL, NULL), lst(Sym("a")), lst(Sym("a"), Sym("b")), Cell(Sym("a"), Sym("b")), lst(lst(Sym("a")), Sym("b")),
        lst(Sym("a"), lst(Sym("b"))), lst(Num(1)), lst(Stat(1)), Cell(Sym("a"), Cell(Sym("b"), Sym("c"))), lst(Sym("a"), NULL), TRUE, Num("1/2"), Num(2), lst(Sym("a"), Str("b")), lst(O[0]), lst(O[1])]

def copy(v):
    return Cell(copy(v.car), copy(v.cdr)) if isinstance(v, Cell) else type(v)(v) if isinstance(v, (Sym, Str, Num, Stat)) else v

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    REL = {"lt?": lambda a, b: a < b, "le?": lambda a, b: a <= b, "gt?": lambda a, b: a > b, "ge?": lambda a, b: a >= b}
    def rel():
        vs = NUMS + BADN
        tuples = [()] + [(v,) for v in vs] + list(itertools.product(vs + CLOSE, repeat=2)) + list(itertools.product(CLOSE, repeat=3)) + list(itertools.product(NUMS[:10] if q else vs, repeat=3))
        if not q:
            tuples += list(itertools.product(NUMS[:9], repeat=4))
        for t in tuples:
            try:
                ns = [number(v) for v in t]
            except Thrown:
                ns = None
            body, out = "", ""
            for op, f in REL.items():
                body += "(method () {\n    catch e {\n        write EX\n        return ()\n    }\n    write (%s %s)\n})\n" % (op, " ".join(src(v) for v in t))
                if len(t) < 2:
                    out += "EX\n"
                elif ns is None:
                    # A bad operand is an error unless an earlier pair has decided already.
                    out += "?\n" 
                else:
                    out += "true\n" if all(f(a, b) for a, b in zip(ns, ns[1:])) else "()\n"
            yield "rel " + " ".join(lit(v) for v in t), body, out
    def judge(key, body, exp, out):
        if not isinstance(out, str):
            return False
        e, o = exp.split("\n"), out.split("\n")
        return len(e) == len(o) and all(a == b or a == "?" and b in ("EX", "()") for a, b in zip(e, o))
    vc.enumerate_batches(ctx, rel, oh, judge=judge, name="order relations", size=100)
    def eq():
        vs = DATA + O
        def ss(v):
            return src(v) if not isinstance(v, Cell) else src(v)
        for t in list(itertools.product(vs, repeat=2)):
            yield "equal? %s" % " ".join(ss(v) for v in t), "write (equal? %s)" % " ".join(ss(v) for v in t), "true\n" if equal(t[0], t[1]) or (copyeq(t)) else "()\n"
        for t in list(itertools.product(CLOSE, repeat=2)) + list(itertools.product(CLOSE[2:8], repeat=3)):
            yield "equal? %s" % " ".join(ss(v) for v in t), "write (equal? %s)" % " ".join(ss(v) for v in t), "true\n" if all(equal(a, b) for a, b in zip(t, t[1:])) else "()\n"
            if len(t) == 2:
                yield "equal? lists %s" % " ".join(ss(v) for v in t), "write (equal? (list x %s) (list x %s)) (equal? (cons (list %s) y) (cons (list %s) y))" % ((ss(t[0]), ss(t[1])) * 2), "true true\n" if equal(*t) else "() ()\n"
        # Lists that differ only far along, or in depth.
        for n in (4, 5, 9, 40):
            for i in range(0, n, 1 if n < 10 else 13):
                a = lst(*[Sym("x%d" % k) for k in range(n)])
                for other in (Sym("y"), Str("x%d" % i), NULL, lst(Sym("x%d" % i))):
                    b = lst(*[other if k == i else Sym("x%d" % k) for k in range(n)])
                    yield "equal? long %d %d %s" % (n, i, lit(other)), "write (equal? %s %s) (equal? %s %s) (equal? %s %s)" % (ss(a), ss(b), ss(b), ss(a), ss(b), ss(b)), "() () true\n"
            a = b = Sym("x")
            for k in range(n):
                a, b = lst(a), lst(b) if k else lst(b, NULL)
            yield "equal? deep %d" % n, "write (equal? %s %s) (equal? %s %s)" % (ss(a), ss(b), ss(b), ss(b)), "() true\n"
        small = vs[::2] if q else vs
        for t in itertools.product(small, repeat=3):
            yield "equal? %s" % " ".join(ss(v) for v in t), "write (equal? %s)" % " ".join(ss(v) for v in t), "true\n" if copyeq(t[:2]) and copyeq(t[1:]) else "()\n"
        yield "equal? one", "(method () {\n    catch e {\n        write EX\n        return ()\n    }\n    write (equal? a)\n})", "EX\n"
        # eq? compares texts.
        txt = [Sym("a"), Str("a"), Str("b"), Sym("1"), Num(1), Stat(1), Num("1/2"), Str("1/2"), NULL, Str("()"), lst(Sym("a"), Sym("b")), Str("a b")]
        for n in (2, 3):
            for t in itertools.product(txt, repeat=n):
                same = all(text(a) == text(b) for a, b in zip(t, t[1:]))
                yield "eq? %s" % " ".join(lit(v) for v in t), "write (eq? %s) (ne? %s)" % ((" ".join(src(v) for v in t),) * 2), "true ()\n" if same else "() true\n"
    def copyeq(t):
        return equal(t[0], copy(t[1])) if isinstance(t[0], Cell) else equal(t[0], t[1])
    vc.enumerate_batches(ctx, eq, oh, prelude=PRE, name="equality", size=400)
    ctx.cov["rule"] = "every tuple of operands of the alphabet up to length 3 (thorough 4) for lt? le? gt? ge? equal? eq? ne?"
