"""C46: positional parameters and options reach the script unchanged."""
import itertools, os
import vc
from ohval import *
from checks_common import build_probe, install, hexed
PROP, LEVEL = "C46", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of command lines on the real shell, against the parameters a probe program receives"
NOTE = "Exhaustive over argument vectors of up to 2 (thorough 3) words of an alphabet of awkward words and option look-alikes for every invocation form. The word -- as first operand, and options that need a terminal, are not covered."
WORDS = ["", "a", "a b", "-c", "-s", "-m", "-x", "--", "-", "--help", "-v", "--command=z", "*", "~", "$x", "${x}", "'", "\"", "\\", "\n", "é", "(x)", ";", "&", "|", ">", "x=y", "#", "{}", "`ls`", "1", "%s", "\udcff"]
SAFE = [w for w in WORDS if not w.startswith("-") or w == "-"]
NAMES = ["prog", "", "-", "a b", "*", "$x", "'", "é", "/x/y"]
SCRIPTS = {"plain": "script", "space": "s p.oh", "quote": "q'\"s.oh", "star": "s*", "dollar": "$s", "paren": "(s)", "hash": "#s", "tilde": "~s", "nl": "s\nx", "back": "s\\x", "sub": "sub/script", "utf": "sé", "semi": "a;b", "eq": "a=b", "bytes": "s\udcff"}

def program(n):
    """Prints every parameter through the probe."""
    return "probe $0 (splice $@)" + "".join(" $%d" % i for i in range(1, n + 1)) + "\nwrite (resolves? %d) (resolves? %d)\n" % (max(n, 1), n + 1)
def want(name, args):
    n = len(args)
    return hexed("probe", name, *(list(args) + list(args))) + "%s ()\n" % ("true" if n else "()")

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    env = lambda d: vc.scratch_env(d, d + "/bin:/usr/bin:/bin")
    def setup(d):
        install(probe, d, "bin/probe")
        os.makedirs(d + "/sub", exist_ok=True); os.chmod(d + "/sub", 0o755)
        for s in SCRIPTS.values():
            with open(os.path.join(d, s), "w") as f: f.write("x\n")
    def vectors(alpha, n):
        for k in range(0, n + 1):
            yield from itertools.product(alpha, repeat=k)
    def prepare(d, key, exp):
        if exp[0]:
            with open(os.path.join(d, exp[0]), "w") as f: f.write(program(len(exp[2])))
    def gen():
        n = 2 if q else 3
        for t in vectors(WORDS if n < 3 else WORDS[:24], n):
            yield "script %r" % (t,), [oh, "script", *t], None, ("script", "script", t)
        for k, s in SCRIPTS.items():
            for t in vectors(["a b", "-c", "", "*"], 2):
                yield "script %s %r" % (k, t), [oh, s, *t], None, (s, s, t)
                yield "./script %s %r" % (k, t), [oh, "./" + s, *t], None, (s, "./" + s, t)
        for m in NAMES:
            if m == "-": continue
            for t in vectors(WORDS, 2 if not q else 1):
                yield "-c name %r %r" % (m, t), [oh, "-c", program(len(t)).replace("\n", ";", 1), m, *t], None, (None, m, t)
        for form in (["-c", None], ["--command", None]):
            for t in [()] + [(m, *x) for m in SAFE if m != "-" for x in vectors(WORDS, 1)]:
                p = program(max(len(t) - 1, 0)).replace("\n", ";", 1)
                yield "%s %r" % (" ".join(str(f) for f in form), t), [oh] + [p if f is None else f for f in form] + list(t), None, (None, t[0] if t else oh, t[1:])
        for t in vectors(SAFE, 1 if q else 2):
            yield "-s %r" % (t,), [oh, "-s", *t], program(len(t)).encode(), (None, oh, t)
            for x in WORDS:
                if t and q: yield "-s %r" % (t + (x,),), [oh, "-s", *t, x], program(len(t) + 1).encode(), (None, oh, t + (x,))
        yield "stdin", [oh], program(0).encode(), (None, oh, ())
        # Many arguments: each has its number, also beyond nine.
        for n in list(range(3, 21)) + [26, 99, 100, 101, 256] + ([1000] if not q else []):
            t = tuple(WORDS[i % len(WORDS)] if i % 3 == 0 else "a%d" % i for i in range(n))
            yield "script, %d arguments" % n, [oh, "script", *t], None, ("script", "script", t)
            yield "-c, %d arguments" % n, [oh, "-c", program(n).replace("\n", ";", 1), "prog", *t], None, (None, "prog", t)
            t = tuple(w for w in t if w in SAFE)
            t = tuple("x%d" % i if not i else w for i, w in enumerate(t))
            yield "-s, %d arguments" % len(t), [oh, "-s", *t], program(len(t)).encode(), (None, oh, t)
        for c in ("", " ", "\n", "# c", "\t# c\n"):
            for t in vectors(["", "a"], 2):
                yield "-c nothing %r %r" % (c, t), [oh, "-c", c, *t], b"echo stdin\n", None
    def judge(exp, st, out, err, d):
        if exp is None:
            return None if st == 0 and out == "" and err == "" else "status %s, printed %r and %r" % (st, out, err)
        w = want(exp[1], exp[2])
        return None if st == 0 and out == w else "status %s, parameters %r instead of %r" % (st, out, w)
    def prep(d, key, exp):
        if exp is not None: prepare(d, key, exp)
    vc.enumerate_runs(ctx, gen, judge, setup=setup, prepare=prep, env=env, name="command lines")

    # What is read from stdin runs as it would from a file.
    texts = ["probe a\n", "probe a", "probe a; probe b\n", "define f: method (x) {\n    probe $x\n}\nf y\n", "probe a &\nwait\nprobe b\n", "\n\nprobe a\n# c\nprobe b", "probe 'x\ny'\n", "probe a \\\nb\n", "probe a |\ncat\n"]
    def stdin():
        for k in (1, 2):
            for t in itertools.product(texts, repeat=k):
                s = "".join(x if x.endswith("\n") or i == len(t) - 1 else x + "\n" for i, x in enumerate(t))
                yield "stdin text %r" % s, [oh, "-s"], s.encode(), s
    def judge2(exp, st, out, err, d):
        with open(d + "/same.oh", "w") as f: f.write(exp)
        os.chmod(d + "/same.oh", 0o644)
        st2, o2, e2 = vc.run([oh, "same.oh"], d, 10, env(d))
        return None if (st, out) == (st2, o2.decode()) else "status %s, printed %r; as a script status %s, printed %r" % (st, out, st2, o2)
    vc.enumerate_runs(ctx, stdin, judge2, setup=setup, env=env, name="commands from stdin")
    ctx.cov["rule"] = "every argument vector of the words up to the bound in every invocation form"
