"""C45: exit statuses are reported faithfully."""
import itertools, os, re, signal
import vc
from checks_common import build_probe, install
PROP, LEVEL = "C45", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of programs that exit, fail and run commands of every status on the real shell, against the expected status and output"
NOTE = "Exhaustive over nests of up to three constructs around exit, all codes 0..255 and all signals that end a process. The exit status of the shell after an uncaught exception is not claimed (it is 0)."

def ind(ls): return ["    " + l for l in ls]
B, A = ["write b"], ["write AFTER"]
# Each construct: lines around a statement, printing b before and AFTER behind it.
def block(s, u): return ["block {"] + ind(B + s + A) + ["}"] + A
def method(s, u): return ["define f%d: method () {" % u] + ind(B + s + A) + ["}", "f%d" % u] + A
def argument(s, u): return ["define f%d: method () {" % u] + ind(B + s + A) + ["}", "write (f%d) AFTER" % u] + A
def if_(s, u): return ["if true {"] + ind(B + s + A) + ["} else {", "    write AFTER", "}"] + A
def else_(s, u): return ["if () {", "    write AFTER", "} else {"] + ind(B + s + A) + ["}"] + A
def cond(s, u): return ["define f%d: method () {" % u] + ind(B + s + A) + ["}", "if (f%d) {" % u, "    write AFTER", "} else {", "    write AFTER", "}"] + A
def loop(s, u): return ["while true {"] + ind(B + s + A) + ["}"] + A
def each(s, u): return ["for (list 1 2) (method (x) {"] + ind(B + s + A) + ["})"] + A
def handler(s, u): return ["define f%d: method () {" % u, "    catch ex {"] + ind(ind(B + s + A)) + ["    }", "    throw x", "}", "f%d" % u] + A
def guarded(s, u): return ["define f%d: method () {" % u, "    catch ex {", "        write AFTER", "    }"] + ind(B + s + A) + ["}", "f%d" % u] + A
def obj(s, u): return ["define o%d: object {" % u] + ind(B + s + A) + ["}"] + A
def member(s, u): return ["define o%d: object {" % u, "    export go: method () {"] + ind(ind(B + s + A)) + ["    }", "}", "o%d go" % u] + A
def syntax(s, u): return ["define f%d: syntax (x) e {" % u] + ind(B + s + A) + ["}", "f%d a" % u] + A
def both(s, u): return ["define f%d: method () {" % u] + ind(B + s + A) + ["}", "true && f%d" % u] + A
def either(s, u): return ["define f%d: method () {" % u] + ind(B + s + A) + ["}", "() || f%d" % u] + A
def redir(s, u): return ["block {"] + ind(B + s + A) + ["} < /dev/null"] + A
def piped(s, u): return ["write x | block {"] + ind(B + s + A) + ["}"] + A
def evald(s, u): return ["define f%d: method () {" % u] + ind(B + s + A) + ["}", "eval (f%d)" % u] + A
def defd(s, u): return ["define f%d: method () {" % u] + ind(B + s + A) + ["}", "define x%d: f%d" % (u, u)] + A
NESTS = [block, method, argument, if_, else_, cond, loop, each, handler, guarded, obj, member, syntax, both, either, redir, piped, evald, defd]
NESTS.remove(either)

VALUES = [("", 0), ("256", 0), ("257", 1), ("-1", 255), ("true", 0), ("()", 1), ("(list)", 1), ("(list 1)", 0), ("abc", 0), ("''", 0), ("(status 0)", 0), ("(status 3)", 3), ("1e2", 100),
          ("(sub 9 4)", 5), ("(code 6)", 6), ("$x", 7), ("(gt? 1 2)", 1), ("(gt? 2 1)", 0)]
SIGNALS = [s for s in range(1, 32) if s not in (signal.SIGCHLD, signal.SIGCONT, signal.SIGSTOP, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU, signal.SIGURG, signal.SIGWINCH)]

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    env = lambda d: vc.scratch_env(d, d + "/bin:/usr/bin:/bin")
    def setup(d):
        install(probe, d, "bin/probe", "bin/code", "bin/die", "bin/dump")
        with open(d + "/plain", "w") as f: f.write("x")
        os.chmod(d + "/plain", 0o644)
    def forms(key, prog, exp, name="t.oh"):
        yield "script " + key, [oh, name], None, (prog, *exp)
        yield "-c " + key, [oh, "-c", prog], None, (None, *exp)
        yield "stdin " + key, [oh], prog.encode(), (None, *exp)
    def prep(d, key, exp):
        if exp[0] is not None:
            with open(d + "/t.oh", "w") as f: f.write(exp[0])
            os.chmod(d + "/t.oh", 0o644)
    def judge(exp, st, out, err, d):
        if st != exp[1]: return "exit status %s instead of %s" % (st, exp[1])
        if out != exp[2]: return "printed %r instead of %r" % (out, exp[2])
    def exits():
        for n in range(256):
            yield from forms("exit %d" % n, "define x 7\nwrite b\nexit %d\nwrite AFTER\n" % n, (n, "b\n"))
        for v, n in VALUES:
            yield from forms("exit %s" % v, "define x 7\nwrite b\nexit %s\nwrite AFTER\n" % v, (n, "b\n"))
        depth = 3
        for k in range(1, depth + 1):
            for i, t in enumerate(itertools.product(NESTS, repeat=k)):
                n = (i * 7 + k) % 256
                s = ["exit %d" % n]
                for u, c in enumerate(t): s = c(s, u)
                want = "b\n" * k
                fs = list(forms("exit %d in %s" % (n, " in ".join(c.__name__ for c in t)), "\n".join(s) + "\n", (n, want)))
                yield from fs if k == 1 or not q else fs[i % 3:i % 3 + 1]
        for n in (0, 3, 255):
            yield from forms("exit %d in a spawned task" % n, "define t: spawn {\n    exit %d\n    write AFTER\n}\nwait $t\nwrite b\nexit 9\n" % n, (9, "b\n"))
            yield from forms("exit with two arguments after %d" % n, "define f: method () {\n    catch ex {\n        write caught\n        return\n    }\n    exit %d 2\n    write AFTER\n}\nf\nwrite b\n" % n, (0, "caught\nb\n"))
            yield from forms("no exit %d" % n, "code %d\nwrite b\n" % n, (0, "b\n"))
    vc.enumerate_runs(ctx, exits, judge, setup=setup, prepare=prep, env=env, name="exit")

    def values():
        for cmd, args, val in [("code %d" % n, n, n) for n in range(256)] + [("die %d" % s, s, 128 + s) for s in SIGNALS] + [("dump %d" % s, s, 128 + s) for s in SIGNALS]:
            ok = val == 0
            prog = "define v: %s\nwrite $v\nif (%s) {\n    write T\n} else {\n    write F\n}\n%s && write AND\n%s || write OR\nwrite (not (%s))\n" % (cmd, cmd, cmd, cmd, cmd)
            want = "(|status %d|)\n%s\n%s\n%s\n" % (val, "T" if ok else "F", "AND" if ok else "OR", "()" if ok else "true")
            yield cmd, prog, want
    vc.enumerate_batches(ctx, values, oh, setup=setup, env=env, name="external statuses", size=40)
    def dollar():
        seqs = [("code 0", 0), ("code 1", 1), ("code 255", 255), ("die 9", 137), ("die 15", 143)]
        for k in (1, 2, 3):
            for t in itertools.product(seqs, repeat=k):
                yield "$? after %s" % ", ".join(x[0] for x in t), [oh, "-s"], "".join("%s\nwrite $?\n" % c for c, _ in t).encode(), (None, 0, "".join("(|status %d|)\n" % n for _, n in t))
    vc.enumerate_runs(ctx, dollar, judge, setup=setup, prepare=prep, env=env, name="status variable")

    # Failures.
    bad = [("nosuchcommand", "nosuchcommand: command not found"), ("./nosuch a b", None), ("./plain", None), ("/nonexistent/x", None), ("'no such'", None),
           ("add a b", "'a' is not a valid number"), ("fatal 1 2", "expected 1 argument, passed 2"), ("set nosuch 1", "'nosuch' not defined"), ("write $nosuch", "'nosuch' not defined"), ("write a < nosuch", None), ("throw boom", "boom"), ("throw 'a b'", "a b")]
    def caught():
        for c, m in bad:
            yield "caught %s" % c, "define f: method () {\n    catch ex {\n        write caught\n        return 4\n    }\n    %s\n    write AFTER\n}\nwrite (f)" % c, "caught\n4\n"
    vc.enumerate_batches(ctx, caught, oh, setup=setup, env=env, name="failures caught", catch=True)
    def uncaught():
        for (c, m), line, deep in itertools.product(bad, range(1, 5), (0, 1, 2)):
            body = [c, "write AFTER"]
            at = 0
            for u in range(deep):
                body = ["define f%d: method () {" % u] + ind(body) + ["}", "f%d" % u, "write AFTER"]
                at += 1
            col = 4 * deep + 1
            prog = "write b\n" * (line - 1) + "\n".join(body) + "\n"
            where = "t.oh:%d:%d: " % (line + at, col)
            if c.startswith(("throw", ".", "/", "'")) or "<" in c or "$" in c: where = None
            yield "uncaught %s at line %d depth %d" % (c, line, deep), [oh, "t.oh"], None, (prog, "b\n" * (line - 1), where, m)
    def judge_uncaught(exp, st, out, err, d):
        if st is None: return "hung"
        if out != exp[1]: return "printed %r instead of %r" % (out, exp[1])
        if exp[3] and not re.search("^error: " + re.escape(exp[3]) + "$", err, re.M): return "said %r, not %r" % (err, exp[3])
        if not re.search("^error: ", err, re.M): return "no error message in %r" % err
        if exp[2] and not any(l.startswith(exp[2]) for l in err.splitlines()): return "no line %s in %r" % (exp[2], err)
    vc.enumerate_runs(ctx, uncaught, judge_uncaught, setup=setup, prepare=prep, env=env, name="uncaught failures")
    ctx.cov["rule"] = "every nest of the listed constructs up to the bound around exit; every exit code and deadly signal; every failing command at every listed place"
