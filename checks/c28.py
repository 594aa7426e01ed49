"""C28: no command or argument can crash the shell."""
import os, itertools, re
import vc
PROP, LEVEL = "C28", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of every builtin, member and syntax of the shell applied to every argument tuple on the real shell"
NOTE = "Exhaustive over every command name found in a freshly started shell's source (builtins, members of conduits, lists, strings, objects, environments, maps, tasks; library routines and syntaxes) times argument tuples of length up to 2 (thorough 3) over one or more values of every type; excluded are exit and fatal, which end the shell by design, and loops without end asked for as such."

PRE = """define mk-chan: method () {
    define c: chan 5
    c write a
    c write b c
    c write-line 'd e'
    return $c
}
define mk-pipe: method () {
    define p: pipe
    p write a
    p write b c
    p write-line 'd e'
    p writer-close
    return $p
}
define mk-obj: method () {
    object {
        export a b
        export m: method (x) {
            return $x
        }
        define p q
    }
}
define canary: method () {
    define l: list a b c
    define r: (method () {
        catch ex {
            return "caught ${ex}"
        }
        define x y
        set x z
        throw $x
    })
    write canary (add 1 2) (l get 1) $r
}
define a-method: method (x) {
    return $x
}
define a-syntax: syntax (x) e {
    return $x
}
define a-task: spawn {
    add 1 1
}
wait $a-task
define mk-return: method () {
    return $return
}
define closed: chan 1
closed close
"""
# One or more values of every type.
VALUES = {
    "sym": "a", "empty": "''", "str": "'b c'", "dash": "-", "dot": ".", "slash": "/", "star": "'*'", "pct": "'%d%s'", "nl": "$'\\n'", "uni": "é",
    "num": "(number 2)", "one": "1", "neg": "(number -3)", "frac": "(number 1/2)", "big": "(number 100000000000000000000000000)", "zero": "(number 0)", "status": "(status 1)",
    "true": "true", "nil": "()", "list": "(list a b)", "nums": "(list 1 (number 2))", "improper": "(cons a b)", "nested": "(list (list a) ())",
    "object": "(mk-obj)", "map": "(map)", "env": "$here", "chan": "(mk-chan)", "pipe": "(mk-pipe)", "closed": "$closed",
    "method": "$a-method", "syntax": "$a-syntax", "builtin": "$add", "return": "(mk-return)", "task": "$a-task", "member": "((mk-obj) get m)",
    "str.": "$str", "sys": "$sys",
}
SMALL = ["sym", "empty", "num", "neg", "big", "status", "true", "nil", "list", "improper", "object", "chan", "pipe", "method", "syntax", "return", "task", "frac", "env"]
FEW = ["sym", "empty", "neg", "nil", "list", "improper", "object", "chan", "method", "frac"]
SKIP = {"exit", "fatal"}       # end the shell by design
SLOW = {"complete", "fn", "open", "pipe-output-errors-to", "process-substitution", "ls", "prompt"}
# Syntaxes receive these, unevaluated.
CODE = {"w": "a", "s": "'b c'", "n": "1", "nil": "()", "call": "(add 1 2)", "throw": "(throw t)", "var": "$here", "bad": "$no-such", "two": "(a b)", "deep": "((list a b) (c))", "imp": "(quote x)", "name": "x: add 1 2", "else": "else", "block": "{\n    add 1 2\n}", "strs": "('x' y)", "eq": "="}

BASE = """add and append append-output-errors-to append-output-to bg block bool capture catch cd chan chan? close coalesce command complete cons cons? continuation? debug define del
div eq? equal? error eval exists export extend fg fn for format ge? get glob gt? has head here if import input-from interpolate jobs le? length list lower ls lt? map match math mend method
method? mill mod module mul ne? not not: null? number number? object object? open or output-clobbers output-errors-clobbers output-errors-to output-to pipe pipe-output-errors-to pipe-output-to
pipe? process-substitution prompt quasiquote quote random read read-line read-list reader-close rend replace replace-make-prompt resolve resolves? return reverse seq set set-head set-tail set?
show slice source spawn splice sprintf status string string? sub symbol symbol? syntax syntax? tail temp-fifo throw trace trim-prefix trim-suffix umask unset upper wait while write write-line
writer-close ... str sys stdin stdout stderr""".split()

def names(oh, ctx):
    import os
    src = ""
    for base, _, files in os.walk(vc.REPO + "/internal/engine"):
        for f in files:
            if f.endswith(".go"):
                src += open(os.path.join(base, f)).read()
    go = set(re.findall(r'^\s*"([a-z][a-z?!-]*)":\s', src, re.M)) | set(re.findall(r'Define\("([^"]+)"', src)) | set(re.findall(r'Export\("([^"]+)"', src))
    lib = set(re.findall(r"(?:define|export|set) ([^\s:()$]+):? ", open(vc.REPO + "/internal/engine/boot/boot.oh").read()))
    cand = sorted(n for n in go | lib | set(BASE) if n not in SKIP)
    # Which of them mean something at top level, and what.
    body = "".join("(method () {\n    catch ex {\n        write %d () ()\n        return\n    }\n    define v: resolve %s\n    write %d (method? $v) (syntax? $v)\n})\n" % (i, n, i) for i, n in enumerate(cand))
    d = os.path.join(ctx.scratch, "names")
    os.makedirs(d, exist_ok=True); os.chmod(d, 0o777)
    open(d + "/n.oh", "w").write(body)
    st, o, e = vc.run([oh, d + "/n.oh"], d, 20, vc.scratch_env(d))
    kind = {}
    for l in o.decode().splitlines():
        i, m, x = l.split()
        kind[cand[int(i)]] = "method" if m == "true" else "syntax" if x == "true" else "value"
    return cand, kind, sorted(n for n in go | set(BASE) if n not in SKIP)

def body(head, args):
    return "define here: (method () e {\n    return $e\n})\nwrite ((method () {\n    catch ex {\n        return thrown\n    }\n    define r (%s%s)\n    return value\n}))\ncanary" % (head, "".join(" " + a for a in args))

EXPECT = "canary (|number 3|) b $'caught z'\n"
# Operands for which running for ever or blocking is what was asked for.
def endless(n, key):
    return n == "seq" and key[:1] == ("big",) or n == "while" and (not key or key[0] not in ("nil", "throw", "bad", "env"))

# A task spawned where a handler is active shares that handler, so these run without one.
def spawns(q):
    for k in range(0, 3 if q else 4):
        for t in itertools.product(CODE if k < 3 else ["w", "nil", "call", "throw", "block", "deep"], repeat=k):
            yield "spawn " + " ".join(t), "define r (spawn%s)\nwait $r\ncanary" % "".join(" " + CODE[x] for x in t), "value"

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    cand, kind, members = names(oh, ctx)
    methods = [n for n in cand if kind.get(n) == "method"]
    syntaxes = [n for n in cand if kind.get(n) == "syntax"]
    def calls():
        for n in methods:
            for k in range(0, 3 if q else 4):
                if q and k > 1 and n in SLOW: continue
                vs = list(VALUES) if k <= 1 else (SMALL if k == 2 and not q else FEW)
                for t in itertools.product(vs, repeat=k):
                    if endless(n, t): continue
                    yield "%s %s" % (n, " ".join(t)), body(n, [VALUES[x] for x in t]), None
    def member_calls():
        for r in VALUES:
            for n in members + ["no-such"]:
                for k in range(0, 2 if q else 3):
                    vs = FEW if q or k > 1 else list(VALUES)
                    for t in itertools.product(vs, repeat=k):
                        if n == "spawn": continue       # see spawns
                        if r == "return" and n in ("set", "while", "throw"): continue  # runs NAME NAME ARGS: redefines set; for ever; to the outer handler
                        if r in ("env", "sys") and (n in ("throw", "eval") or n == "seq" and t[:1] == ("big",) or n == "while" and (not t or t[0] not in ("nil", "status", "zero"))): continue     # to the outer handler; for ever
                        yield "(%s) %s %s" % (r, n, " ".join(t)), body("(or () %s) %s" % (VALUES[r], n), [VALUES[x] for x in t]), None
    def forms():
        for n in syntaxes:
            if n == "spawn": continue
            for k in range(0, (3 if n in SLOW else 4) if q else 5):
                cs = list(CODE) if k <= 2 or not q and k <= 3 else ["w", "nil", "call", "throw", "block", "deep"][:5 if q else 6]
                for t in itertools.product(cs, repeat=k):
                    if endless(n, t): continue
                    yield "%s %s" % (n, " ".join(t)), body(n, [CODE[x] for x in t]), None
    for nm, g in (("routines", calls), ("members", member_calls), ("syntaxes", forms)):
        def gen(g=g):
            for k, b, _ in g():
                yield k, b, "value or thrown"
        vc.enumerate_batches(ctx, gen, oh, prelude=PRE, judge=lambda key, b, exp, out: isinstance(out, str) and out.endswith(EXPECT), name=nm)
    vc.enumerate_batches(ctx, lambda: spawns(q), oh, prelude=PRE, catch=False, judge=lambda key, b, exp, out: isinstance(out, str) and out.endswith(EXPECT), name="spawn")

    # Things that are closed by the garbage collector.
    def dropped():
        acts = ["", "reader-close", "writer-close", "close", "reader-close writer-close", "writer-close reader-close", "read-line", "write-line x", "write-line x read-line"]
        for make in ["pipe"] + ["open %s F" % m for m in ("r", "w", "a", "rw", "wr", "ra", "-r", "-rw", "rwa", "''")]:
            for act in acts:
                for use in ("", "c < $p", "c > $p"):
                    steps = []
                    for w in [x.replace("write-line x", "write-line") for x in act.replace("write-line x", "write-line").split()]:
                        if make == "pipe" and w == "read-line" and "write-line" not in act: continue    # for ever
                        steps.append("try { p %s }" % (w + " x" if w == "write-line" else w))
                    if use: steps.append("try { %s }" % use)
                    b = "\n".join("        (method () {\n            catch ex {\n                return ()\n            }\n            %s\n        })" % t[6:-2] for t in steps)
                    src = "define c: method () {\n    return 1\n}\ndefine n 0\nwhile (lt? $n 60) {\n    set n: add $n 1\n    block {\n        define p: %s\n%s\n    }\n}\nset n 0\nwhile (lt? $n 2000) {\n    set n: add $n 1\n    list $n $n\n}\nwrite-line end\n" % (make, b)
                    yield "%s, %s, %s" % (make, act, use), [oh, "p.oh"], None, src
    def prepare(d, key, src):
        for n, t in (("p.oh", src), ("F", "l\n" * 50)):
            with open(os.path.join(d, n), "w") as f: f.write(t)
            os.chmod(os.path.join(d, n), 0o666)
    vc.enumerate_runs(ctx, dropped, lambda exp, st, out, err, d: None if st == 0 and out.endswith("end\n") and "panic" not in err else "status %s, printed %r and %r" % (st, out[-100:], err[:300]),
                      prepare=prepare, env=lambda d: dict(vc.scratch_env(d), GOGC="1"), name="closed by the garbage collector")
    ctx.cov["routines"] = {"methods": len(methods), "syntaxes": len(syntaxes), "members": len(members)}
    ctx.cov["rule"] = "every routine times every argument tuple, every member name on every value, every syntax on every operand tuple"
