"""C10: arithmetic is exact and changes no operand."""
import itertools
from fractions import Fraction
import vc
from ohval import *
PROP, LEVEL = "C10", "model_checking"
TECHNIQUE = "bounded-exhaustive operation sequences on the real shell against exact rational arithmetic"
NOTE = "Exhaustive over the operand alphabet for up to three (thorough: four) operands and over operation sequences on shared variables up to the stated depth."

BIG = "123456789012345678901234567890"
VALS = [Sym("0"), Sym("1"), Sym("7"), Sym("-3"), Num("1/2"), Num("-3/4"), Sym("2.5"), Num(BIG), Stat(2), Num(-1), Sym("12"), Num("5/3"), Sym("1e2")]
BADV = [Str("1"), lst(Sym("1")), NULL, Sym("abc"), Sym("1/0")]

def calc(op, args):
    if op == "add":
        return Num(sum((number(a) for a in args), Fraction(0)))
    if op == "mod":
        if len(args) != 2: raise Thrown("count")
        a, b = number(args[0]), number(args[1])
        if a.denominator != 1 or b.denominator != 1 or b == 0: raise Thrown("mod")
        return Num(int(a) % abs(int(b)))
    if not args: raise Thrown("count")
    r = number(args[0])
    for x in args[1:]:
        y = number(x)
        if op == "sub": r -= y
        elif op == "mul": r *= y
        else:
            if y == 0: raise Thrown("zero")
            r /= y
    return Num(r)

def expect(op, args):
    try:
        return lit(calc(op, args))
    except Thrown:
        return "EX"

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    OPS = ["add", "sub", "mul", "div", "mod"]
    def tuples():
        for op in OPS:
            yield op, ()
            for v in VALS + BADV:
                yield op, (v,)
            for t in itertools.product(VALS + BADV, repeat=2):
                yield op, t
            for t in itertools.product(VALS if not q else VALS[:10], repeat=3):
                yield op, t
            if not q:
                for t in itertools.product(VALS[:8], repeat=4):
                    yield op, t
    def gen():
        # Each case keeps its operands in variables, and prints them afterwards: none may change.
        for op, args in tuples():
            names = ["v%d" % i for i in range(len(args))]
            body = "".join("define %s: list %s\n" % (n, src(a)) for n, a in zip(names, args))
            body += "".join("define w%d %s\n" % (i, "(v%d head)" % i) for i in range(len(args)))
            call = "write (%s %s)" % (op, " ".join("$w%d" % i for i in range(len(args))))
            show = "write %s" % " ".join("$w%d" % i for i in range(len(args))) if args else "write-line ''"
            body += "define r ()\n(method () {\n    catch e {\n        set r: list EX\n        return ()\n    }\n    set r: list (%s %s)\n})\nwrite $r\n%s" % (op, " ".join("$w%d" % i for i in range(len(args))), show)
            e = expect(op, args)
            yield "%s %s" % (op, " ".join(lit(a) for a in args)), body, "(%s)\n%s\n" % (e, " ".join(lit(a) for a in args))
    vc.enumerate_batches(ctx, gen, oh, name="operations on operand tuples", size=150)
    STEPS = [("x", "add", "xy"), ("x", "sub", "xy"), ("x", "mul", "xx"), ("x", "div", "xy"), ("y", "add", "xx"), ("y", "mul", "xyz"), ("y", "sub", "zx"), ("x", "mod", "xz"),
             ("x", "=", "y"), ("y", "=", "z"), ("x", "number", "y"), ("x", "status", "x"), ("y", "number", "x"), ("z", "add", "z1")]
    def seqs():
        depth = 3 if q else 5
        for start in ((Num("3/2"), Num(2), Num(5)), (Num(4), Num(0), Num(-3))):
            for n in range(1, depth + 1):
                for t in itertools.product(STEPS, repeat=n):
                    env = dict(zip("xyz", start))
                    body = "".join("define %s %s\n" % (k, src(v)) for k, v in env.items()) + "define xs: list $x $y $z\n"
                    keep = list(start)
                    out = ""
                    for tgt, op, ar in t:
                        if op == "=":
                            body += "set %s $%s\n" % (tgt, ar)
                            env[tgt] = env[ar]
                        else:
                            a = " ".join("$" + c if c in "xyz" else c for c in ar)
                            av = [env[c] if c in "xyz" else Sym(c) for c in ar]
                            body += "set %s: %s %s\n" % (tgt, op, a)
                            try:
                                env[tgt] = Num(number(av[0])) if op == "number" else Stat(number(av[0])) if op == "status" else calc(op, av)
                            except Thrown:
                                out = "EX\n"
                                break
                    else:
                        body += "write $x $y $z $xs"
                        out = "%s %s %s (%s)\n" % (lit(env["x"]), lit(env["y"]), lit(env["z"]), " ".join(lit(v) for v in keep))
                    yield "; ".join("%s=%s%s" % s for s in t) + " from %s" % lit(start[0]), body, out
    vc.enumerate_batches(ctx, seqs, oh, normalize=noexc, name="operation sequences on shared variables", size=250)
    ctx.cov["rule"] = "every operation over every operand tuple, operands printed again afterwards; every sequence of operations over three variables holding shared values up to the depth, against exact rationals"
