"""C42: external commands receive exactly the exported variables."""
import itertools, os
import vc, ohref
from ohref import *
from trees import forests, flat, name
from checks_common import build_probe, install
PROP, LEVEL = "C42", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of scope-nesting programs around external calls on the real shell, against a reference interpreter of the visibility rules and the environment a probe program receives"
NOTE = "Exhaustive over programs of up to 5 (thorough 6) operations and scopes on one name and 4 (thorough 5) on two, and over inherited environments of up to 3 variables with awkward values."

def environ(ctx):
    out = {}
    c = (ctx.scope, ctx.callers)
    while c is not None:
        e = c[0]
        while e is not None:
            for k, v in e.pub.items():
                if k not in out and isinstance(v, (str, Fraction, Cell, Null)): out[k] = text(v)
            e = e.up
        c = c[1]
    return out
class M(Machine):
    def __init__(self, steps, inherited=()):
        Machine.__init__(self, steps)
        self.prim("vars", "method", self.m_vars)
        self.prim("chan", "method", lambda b, a, c, k, p: k(Obj(Env(None))))
    def m_vars(self, b, args, ctx, k, prev):
        e = environ(ctx)
        self.out.append(" ".join("%s=%s" % (a, e.get(a, "-")) for a in args))
        return k(Stat(0))

class Build:
    def __init__(self, vars_): self.n, self.vars = 0, ["vars"] + vars_
    def v(self):
        self.n += 1
        return "v%d" % self.n
    def seq(self, f):
        return [x for t in f for x in self.tree(t)]
    def tree(self, t):
        if isinstance(t, str):
            op, n = t[:-1], t[-1]
            if op == "D": return [["define", n, self.v()]]
            if op == "X": return [["export", n, self.v()]]
            if op == "XL": return [["export", n, ["list", self.v(), ["number", "2"]]]]
            if op == "XC": return [["export", n, ["chan", "1"]]]
            if op == "XR": return [["export", n, ["if", "true", ["method", []]]]]
            if op == "S": return [["set", n, self.v()]]
            if op == "U": return [["unset", n]]
            if op == "V": return [self.vars]
            if op == "P": return [Prefixed([(n, self.v())], self.vars)]
            if op == "PC": return [Prefixed([(n, self.v())], ["f"])]
            if op == "P2": return [Prefixed([(n, self.v()), ("B", "$" + n)], self.vars)]
            if op == "C": return [["f"]]
            if op == "E": return [["e", "export", n, self.v()]]
            raise ValueError(t)
        c, inner = t
        if c == "block": return [["block", *self.seq(inner)]]
        if c == "if": return [["if", "true", *self.seq(inner)]]
        if c == "now": return [[["method", [], *self.seq(inner)]]]
        if c == "nowe": return [[["method", [], "e", *self.seq(inner)]]]
        if c == "f": return [["define", "f", ["method", [], *self.seq(inner)]]]
        if c == "s": return [["define", "f", ["syntax", [], "e", *self.seq(inner)]]]
        if c == "obj": return [["object", *self.seq(inner)]]
        if c == "prefixed": return [Prefixed([("A", self.v())], ["block", *self.seq(inner)])]
        if c == "catch": return [[["method", [], ["catch", "x", ["return", "done"]], *self.seq(inner), ["throw", "t"]]]]
        raise ValueError(c)

def calls(f): return any(x in ("Cf",) or x.startswith("PC") for x in flat(f))
def ok(f):
    fl = list(flat(f))
    if not any(x[0] in "V" or x.startswith("P") and x != "prefixed" for x in fl): return False
    last = fl[-1]
    if not (last in ("V.", "Cf") or last[0] == "P"): return False
    if calls(f) != any(x in ("f", "s") for x in fl): return False
    return not recursive(f) and not late(f)
def late(f, inside=False):
    """Does a routine export into its caller while the call runs, and then look? Not covered by the statement."""
    fl = list(flat(f))
    if inside and "EA" in fl and any(x[0] in "VPC" for x in fl[fl.index("EA"):]): return True
    return any(late(t[1], inside or t[0] in ("nowe", "s")) for t in f if isinstance(t, tuple))
def recursive(f, inside=False, e=False):
    for t in f:
        if isinstance(t, str):
            if (t == "Cf" or t.startswith("PC")) and inside: return True
            if t[0] == "E" and not e: return True
        elif recursive(t[1], inside or t[0] in ("f", "s"), e or t[0] in ("nowe", "s")): return True
    return False

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    setup = lambda d: install(probe, d, "bin/vars", "bin/env1")
    env = lambda d: vc.scratch_env(d, d + "/bin")
    fams = [
        (["DA", "XA", "SA", "UA", "V.", "PA", "Cf"], ["block", "now", "f"], range(1, 6 if q else 7), ["A"], "one name"),
        (["XA", "V.", "PA", "PCA", "XLA", "XCA", "DA", "Cf"], ["block", "if", "now", "f", "obj", "prefixed", "catch", "nowe", "s"], range(1, 5 if q else 6), ["A"], "constructs"),
        (["DA", "XA", "XB", "SA", "SB", "V.", "P2A", "PA", "Cf", "PCB"], ["block", "now", "f"], range(2, 5 if q else 6), ["A", "B"], "two names"),
        (["XA", "EA", "V.", "Cf", "SA", "DA"], ["nowe", "s", "block"], range(2, 6 if q else 7), ["A"], "caller's environment"),
    ]
    for leaves, conts, sizes, vs, nm in fams:
        def gen():
            for n in sizes:
                for f in forests(leaves, conts, n, ok):
                    def exp(f=f):
                        m = M(3000)
                        return m.run(C(Build(vs).seq(f)), True)
                    yield "%s: %s" % (nm, name(f)), (lambda f=f: render(C(Build(vs).seq(f)))), exp
        vc.enumerate_batches(ctx, gen, oh, setup=setup, env=env, normalize=ohref.norm, name=nm)

    # What the shell inherits is passed on unchanged, plus its own exports.
    vals = ["", "a", "a b", "a=b", "$x", "*", "~", "'", '"', "\\", "\n", "\t", "é", "(list a)", "()", "-1", "x" * 200]
    names = ["ZA", "za", "Z_1", "ZB"]
    own = {"HOME", "PATH", "USER", "LANG", "LC_ALL", "TZ", "OH_RC"}
    def inherit():
        for n in range(0, 3 if q else 4):
            for ns in itertools.combinations(names, n):
                for vs in itertools.product(vals if n < 3 else vals[:10], repeat=n):
                    for how in (("script",) if n > 1 else ("script", "-c", "called")):
                        yield "inherit %s %r" % (how, list(zip(ns, vs))), how, None, dict(zip(ns, vs))
    def runs():
        for key, how, stdin, e in inherit():
            pre = ["/usr/bin/env"] + ["%s=%s" % kv for kv in e.items()]
            yield key, pre + ([oh, "-c", "env1"] if how == "-c" else [oh, "script-" + how]), None, e
    def setup2(d):
        setup(d)
        open(d + "/script-script", "w").write("env1\n")
        open(d + "/script-called", "w").write("define f: method () {\n    block {\n        env1\n    }\n}\nf\n")
    def judge(exp, st, out, err, d):
        base = vc.scratch_env(d, d + "/bin")
        base.update(exp)
        want = "".join(sorted("%s=%s\n" % kv for kv in base.items() if "\n" not in kv[1]))
        text = out
        for k, v in base.items():
            line = "%s=%s\n" % (k, v)
            if line not in text: return "%s=%r is missing or changed" % (k, v)
            text = text.replace(line, "", 1)
        extra = sorted(l.split("=")[0] for l in text.splitlines() if l)
        unknown = [x for x in extra if x not in SHELL]
        return "unexpected variables %s" % unknown if unknown else None
    vc.enumerate_runs(ctx, runs, judge, setup=setup2, env=env, name="inherited environment")
    ctx.cov["rule"] = "every program of the listed operations and scopes up to the bound with an external call; every inherited environment of the listed values"
# What the shell itself exports.
SHELL = {"@", "PWD", "OLDPWD", "0", "ORIGIN", "$", "?", "OH_RC", "SHLVL", "_"}
