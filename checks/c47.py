"""C47: process substitution connects, completes and cleans up."""
import itertools, os, re
import e2, vc
PROP, LEVEL = "C47", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter with simulated fifos and processes (every interleaving up to a bound of the command, the inner commands, the opening of either end of a fifo, and its removal), and bounded-exhaustive enumeration of commands with substitutions on the real shell"
NOTE = "On the real system: exhaustive over commands of up to two (thorough: three) substitutions of an alphabet of seventeen and ten ways for the main command to use them. On schedules: one and two substitutions of eight inputs and five outputs, and two such commands at once, up to the number of preemptions stated in the evidence. An inner command that calls exit is a known finding."
BIG = "".join("%d" % i + "x" * 200 + "\n" for i in range(1, 401))
# The source of each inner command, what it prints, what it throws, and if what it prints can be cut short by a reader that ends.
INPUTS = {
    "a": ("write-line a", "a\n", None, True), "ab": ("block {\n    write-line a\n    write-line b\n}", "a\nb\n", None, True), "big": ("cat BIG", BIG, None, False),
    "empty": ("true", "", None, False), "fail": ("sh -c 'echo f; exit 3'", "f\n", None, False), "throw": ("block {\n    write-line t\n    throw oops\n}", "t\n", "oops", True),
    "slow": ("sh -c 'trap : PIPE; echo s 2> /dev/null; sleep 0.05; echo > %(mark)s'", "s\n", None, False), "nested": ("cat |<(write-line n)", "n\n", None, False),
    "exit": ("exit 3", "", None, False), "var": ("write-line $v", "vv\n", None, True), "early": ("throw early", "", "early", False), "unknown": ("no-such-command", "", "no-such-command: command not found", False)}
# What an output's inner command does with "k\nw\n", what is in its file, what it throws.
OUTPUTS = {
    "cat": ("sh -c 'cat > %(out)s'", "k\nw\n", None), "loop": ("block {\n    while (define l: read-line) {\n        write-line $l >> %(out)s\n    }\n}", "k\nw\n", None),
    "ignore": ("true", None, None), "othrow": ("throw oops2", None, "oops2"), "one": ("block {\n    write-line (read-line) > %(out)s\n}", "k\n", None),
    "oslow": ("sh -c 'cat > %(out)s; sleep 0.05; echo > %(mark)s'", "k\nw\n", None)}
SH = """trap '' PIPE
mode=$1; shift
one() { case $1 in i) cat "$2";; o) printf 'k\\nw\\n' 2> /dev/null > "$2";; *) echo "not a file: $2";; esac; }
case $mode in
all|exit) while [ $# -gt 0 ]; do one $1 $2; shift 2; done;;
rev) a=; while [ $# -gt 0 ]; do a="$1 $2 $a"; shift 2; done; set -- $a; while [ $# -gt 0 ]; do one $1 $2; shift 2; done;;
some) one $1 $2;;
line) while [ $# -gt 0 ]; do case $1 in i) head -n 1 "$2";; o) one $1 $2;; esac; shift 2; done;;
esac
case $mode in exit) exit 4;; esac
exit 0
"""
PRE = """define v vv
define mm: method (k (args)) {
    while $args {
        define p: args get 1
        if (equal? i (args head)) {
            define h: open -r $p
            while (define l: h read-line) {
                write-line $l
            }
            h reader-close
        } else {
            define h: open -w $p
            h write-line k
            h write-line w
            h writer-close
        }
        set args: args slice 2
    }
    if (equal? $k throw) {
        throw mainex
    }
    return done
}
"""
# mode: (command, uses, value, throws)
MAINS = {"all": ("sh m.sh all", "all", "(|status 0|)", None), "rev": ("sh m.sh rev", "rev", "(|status 0|)", None), "none": ("sh m.sh none", "none", "(|status 0|)", None),
         "exit": ("sh m.sh exit", "all", "(|status 4|)", None), "some": ("sh m.sh some", "some", "(|status 0|)", None), "line": ("sh m.sh line", "line", "(|status 0|)", None),
         "method": ("mm k", "all", "done", None), "mthrow": ("mm throw", "all", None, "mainex"), "throw": ("throw2", "none", None, "mainex2"), "unknown": ("no-such-main", "none", None, "no-such-main: command not found")}
CONTEXTS = {"plain": "define r (%s)\n    write $r", "capture": "define l: list `(%s)\n    for $l (method (x) {\n        write-line $x\n    })", "pipe": "%s | sh -c 'cat; exit 0'", "file": "%s > M\n    cat M", "task": "define part: method () {\n        catch ex {\n            write-line EX $ex\n            return thrown\n        }\n        %s\n    }\n    define t: spawn {\n        part\n    }\n    wait $t", "block": "define r (block {\n        %s\n    })\n    write $r"}

# ---- Under the controlled scheduler.
MC_PRELUDE = """define count: method () {
    define n 0
    while (read-line) {
        set n: add $n 1
    }
    return $n
}
define rd: method (p) {
    define h: open r- $p
    while (define l: h read-line) {
        note got $l
    }
    h close
    return read
}
define wr: method (p) {
    define h: open w- $p
    h write-line k
    h write-line w
    h close
    return wrote
}
define mix: method (i o) {
    define h: open r- $i
    define g: open w- $o
    while (define l: h read-line) {
        g write-line $l
    }
    g close
    h close
    return mixed
}
define ignore: method ((xs)) {
    return ignored
}
define no: method ((xs)) {
    throw mainex
}
"""
# source, lines, exception, and if it writes what it writes itself.
MC_IN = {"a": ("write-line a", ["a"], None, True), "ab": ("block {\n    write-line a\n    write-line b\n}", ["a", "b"], None, True), "echo": ("p-echo e", ["e"], None, False), "empty": ("p-exit 0", [], None, False),
         "fail": ("block {\n    p-echo f\n    p-exit 3\n}", ["f"], None, False), "throw": ("block {\n    write-line t\n    throw oops\n}", ["t"], "oops", True), "early": ("throw early", [], "early", False),
         "unknown": ("p-none", [], "$'p-none: command not found'", False)}
# source, what it notes of the lines it is given, exception, how many lines it reads (None is all).
MC_OUT = {"line": ("note n%d (read-line)", lambda l: "$'%s'" % l[0] if l else "()", None, 1), "count": ("note n%d (count)", lambda l: "(|number %d|)" % len(l) if l else "0", None, None), "sink": ("note n%d (p-sink)", lambda l: "(|status %d|)" % len(l), None, None),
          "ignore": ("p-exit 0", None, None, 0), "othrow": ("throw oops2", None, "oops2", 0)}
def outcomes(main, subs):
    """Every outcome allowed of the main command with the substitutions."""
    src, val, ex, reads, writes = {"from": ("p-from", "(|status 0|)", None, True, []), "onto": ("p-onto x", "(|status 0|)", None, False, ["x"]), "exit": ("p-exit 2", "(|status 2|)", None, False, []),
                                   "rd": ("rd", "read", None, True, []), "wr": ("wr", "wrote", None, False, ["k", "w"]), "ignore": ("ignore", "ignored", None, False, []), "no": ("no", None, "mainex", False, []),
                                   "mix": ("mix", "mixed", None, True, None), "none": ("p-none", None, "$'p-none: command not found'", False, [])}[main]
    args, out, got, notes, exs, may, vals = [], "", [], [], set(), set(), {val}
    if ex: exs.add(ex)
    if writes is None:   # copies the first to the second
        writes = MC_IN[subs[0]][1]
    for i, s in enumerate(subs):
        if s in MC_IN:
            code, lines, e, builtin = MC_IN[s]
            args.append("|<(%s)" % code)
            if reads and main == "rd": got += lines
            elif reads and main == "from": out += "".join(l + "\n" for l in lines)
            if e: exs.add(e)
            if builtin and not reads:
                may.add("broken")
                if e: exs.discard(e); may.add(e); exs.add("?")
        else:
            code, f, e, n = MC_OUT[s]
            args.append("|>(%s)" % (code % i if "%" in code else code))
            if f: notes.append((i, f(writes)))
            if e: exs.add(e)
            if n is not None and len(writes) > 0 and n < 1 + len(writes):
                # The reader may have gone before everything is written: that is an error of the writer's.
                if main == "onto": vals.add("(|status 141|)")
                elif main in ("wr", "mix"): may.add("broken")
    fixed = "".join(" n%d:%s" % x for x in notes)
    g = " got:" + ",".join("$'%s'" % x for x in got) if got else ""
    def text(e, v): return out + (" ex:" + e if e else "") + g + fixed + " v:" + (v if not e else "threw")
    res = set()
    # The name of the fifo in the message depends on the order.
    for e in (exs - {"?"}) | (may - {"broken"}): res.add(text(e, None))
    if "broken" in may:
        # A method of the program's that throws leaves open what it has opened.
        open_ = "" if main not in ("wr", "mix") else "\nleft: " + "; ".join("/zzfifo/fifo-%d: still open" % k for k in range(1, len(subs) + 1))
        for k in range(1, len(subs) + 1): res.add(text("$'write /zzfifo/fifo-%d: broken pipe'" % k, None) + open_)
    if not exs:
        for v in vals: res.add(text(None, v))
    return src + " " + " ".join(args), res
def attempt(cmd, name="", at=""):
    return "block {\n    define f: method () {\n        catch ex {\n            note ex%s $ex\n            return threw\n        }\n        return (%s)\n    }\n    note v%s (f)\n}" % (name, cmd.replace("\n", "\n        "), name)
def schedules(q):
    for s in MC_IN:
        for m in ("from", "exit", "rd", "ignore", "no", "none"): yield (m, (s,))
    for s in MC_OUT:
        for m in ("onto", "wr", "exit", "ignore", "no"): yield (m, (s,))
    few, out = (("a", "echo", "throw") if q else ("a", "echo", "empty", "throw", "early")), ("line", "count", "ignore", "othrow")
    for a, b in itertools.product(few, repeat=2):
        for m in ("from", "exit", "ignore"): yield (m, (a, b))
    for a, b in itertools.product(few + ("ab",), out[:2]): yield ("mix", (a, b))
    for a, b in itertools.product(few, out):
        for m in ("exit", "ignore"): yield (m, (a, b)); yield (m, (b, a))
    for a, b in itertools.product(out, repeat=2):
        if "ignore" not in (a, b) and "othrow" not in (a, b): yield ("onto", (a, b))
        yield ("exit", (a, b))
def explore(ctx, q):
    mcrun = e2.build(ctx)
    stages = [(0, True, 1), (1, True, 3), (2, True, 2)] if q else [(None, False, 6), (0, False, 8), (1, True, 10), (2, True, 20)]
    ps = []
    for m, subs in schedules(q):
        cmd, res = outcomes(m, subs)
        ps.append(dict(Key="schedules: %s %s" % (m, " ".join(subs)), Src=[attempt(cmd)], Quiet=True, Allowed=res))
    # Two at once, nested, in a pipeline, and one after the other.
    two = "block {\n    spawn {\n        note p (rd |<(write-line a))\n    }\n    spawn {\n        note q (wr |>(note n (count)))\n    }\n    wait\n    note w done\n}"
    ps.append(dict(Key="schedules: two at once", Src=[two], Quiet=True, Allowed={" got:$'a' n:(|number 2|) p:read q:wrote w:done"}))
    ps.append(dict(Key="schedules: nested", Src=[attempt("rd |<(p-from |<(write-line n))")], Quiet=True, Allowed={" got:$'n' v:read"}))
    ps.append(dict(Key="schedules: in a pipeline", Src=[attempt("p-from |<(write-line n) | count")], Quiet=True, Allowed={" v:(|number 1|)"}))
    ps.append(dict(Key="schedules: of a pipeline", Src=[attempt("rd |<(write-line a | p-cat)")], Quiet=True, Allowed={" got:$'a' v:read"}))
    ps.append(dict(Key="schedules: in turn", Src=["block {\n    define k 0\n    while (lt? $k 2) {\n        set k: add $k 1\n        note v (rd |<(write-line a))\n    }\n}"], Quiet=True, Allowed={" got:$'a',$'a' v:read,read"}))
    e2.explore(ctx, mcrun, ps, name="schedules of substitutions", deadline=ctx.start + (330 if q else 860), prelude=MC_PRELUDE, stages=stages)

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    def env(d):
        e = vc.scratch_env(d, "/usr/bin:/bin"); e["TMPDIR"] = d + "/tmp"
        return e
    def setup(d):
        os.makedirs(d + "/tmp", exist_ok=True); os.chmod(d + "/tmp", 0o777)
        with open(d + "/m.sh", "w") as f: f.write(SH)
        with open(d + "/BIG", "w") as f: f.write(BIG)
    ALL = {**INPUTS, **OUTPUTS}
    def case(subs, main, context):
        args = []
        for i, s in enumerate(subs):
            fill = dict(mark="MARK%d" % i, out="OUT%d" % i)
            src = ALL[s][0]
            src = src % fill if "%(" in src else src
            args.append("%s %s(%s)" % ("i" if s in INPUTS else "o", "|<" if s in INPUTS else "|>", src))
        cmd = "%s %s" % (MAINS[main][0], " ".join(args))
        body = CONTEXTS[context] % cmd
        lines = "\n".join(l if l.startswith("    ") and n else "    " + l for n, l in enumerate(body.split("\n")))
        return PRE + "define throw2: method ((args)) {\n    throw mainex2\n}\ndefine go: method () {\n    catch ex {\n        write-line EX $ex\n        return thrown\n    }\n%s\n}\ngo\n" % lines + \
            "".join("write-line MARK%d (exists MARK%d)\n" % (i, i) for i in range(len(subs))) + "write-line end\n"
    def expect(subs, main, context):
        """(what may be printed by the command, the values and exceptions allowed, files, marks)"""
        uses = MAINS[main][1]
        seq = [(i, s) for i, s in enumerate(subs)]
        if uses == "rev": seq.reverse()
        if uses == "some": seq = seq[:1]
        if uses == "none": seq = []
        out = ""
        used = set()
        for i, s in seq:
            used.add(i)
            if s in INPUTS: out += INPUTS[s][1] if uses != "line" else "".join(INPUTS[s][1].splitlines(True)[:1])
        exs, may = set(), set()
        if MAINS[main][3]: exs.add(MAINS[main][3])
        for i, s in enumerate(subs):
            ex = ALL[s][2]
            # A builtin that writes to a reader that has gone, or may have, can throw that instead.
            cut = s in INPUTS and INPUTS[s][3] and (i not in used or uses == "line" and s == "ab")
            if cut: may.add("broken pipe")
            if ex and cut: may.add(ex); may.add("?")
            elif ex: exs.add(ex)
            if uses == "all" and main in ("method", "mthrow") and s in ("ignore", "othrow", "one"): may.add("broken pipe")
        return out, exs, may, {i: (OUTPUTS[s][1] if i in used else "") for i, s in enumerate(subs) if s in OUTPUTS}, {i for i, s in enumerate(subs) if s.endswith("slow")}, MAINS[main][2]
    def gen():
        yield "all: exit in plain", [oh, "p.oh"], None, (("exit",), "all", "plain")
        for n in (1, 2) if q else (1, 2, 3):
            for k, subs in enumerate(itertools.product([a for a in ALL if a != "exit"], repeat=n)):
                for j, main in enumerate(MAINS):
                    if main in ("method", "mthrow") and {"ignore", "othrow", "one"} & set(subs[:-1]): continue   # they can end before they are written to
                    if n == 2 and q and (k + j) % 2 and main not in ("all", "none"): continue
                    if n == 3 and (k + 3 * j) % 5: continue
                    for c in CONTEXTS:
                        if c != "plain" and (n > 1 and (k + j) % (9 if q else 3) or n > 2): continue
                        key = "%s: %s in %s" % (main, " ".join(subs), c)
                        yield key, [oh, "p.oh"], None, (subs, main, c)
    def prepare(d, key, exp):
        for x in os.listdir(d):
            if re.match(r"(OUT|MARK)\d$|M$", x): os.unlink(d + "/" + x)
        for x in os.listdir(d + "/tmp"): os.unlink(d + "/tmp/" + x)
        with open(d + "/p.oh", "w") as f: f.write(case(*exp))
        os.chmod(d + "/p.oh", 0o644)
    def judge(exp, st, out, err, d):
        subs, main, context = exp
        if st is None: return "HANG"
        if st != 0: return "status %s" % st
        want, exs, may, files, marks, value = expect(*exp)
        left = os.listdir(d + "/tmp")
        if left: return "left behind: %s" % left
        m = re.search(r"((?:MARK\d .*\n)*)end\n\Z", out)
        if not m: return "the next commands did not run: %r, %r" % (out[-200:], err[-200:])
        got = dict((int(l[4]), l.split(" ", 1)[1]) for l in m.group(1).splitlines())
        for i in range(len(subs)):
            if got.get(i) != ("true" if i in marks else "()") and got.get(i) not in (None, ""):
                return "inner command %d %s when the command returned" % (i, "had not finished")
            if i in marks and got.get(i) != "true": return "inner command %d had not finished when the command returned" % i
        text = out[:m.start()]
        ex = None
        e = re.search(r"^EX (.*)\n\Z", text, re.M)
        if e: ex, text = e.group(1), text[:e.start()]
        if ex is None and exs: return "nothing was thrown, and not one of %s" % sorted(exs)
        if ex is not None and not any(x in ex for x in exs | (may - {"?"})): return "%r was thrown" % ex
        if context in ("plain", "block") and ex is None:
            v = text.rstrip("\n").rsplit("\n", 1)
            if v[-1] != value: return "the value is %r and not %r" % (v[-1], value)
            text = v[0] + "\n" if len(v) > 1 else ""
        if context == "capture" and ex is not None: text = want
        if context == "file":
            if ex is None and text != want: return "the file has %.300r and not %.300r" % (text, want)
        elif text != want: return "printed %.300r and not %.300r" % (text, want)
        for i, w in files.items():
            p = "%s/OUT%d" % (d, i)
            g = open(p).read() if os.path.exists(p) else ""
            if w and subs[i] == "one" and not any(x for x in ()) and g != w or subs[i] != "one" and (w or "") != g: return "inner command %d got %r and not %r" % (i, g, w)
        return None
    vc.enumerate_runs(ctx, gen, judge, setup=setup, prepare=prepare, env=env, name="process substitutions", deadline=ctx.start + (200 if q else 500))
    explore(ctx, q)
    ctx.cov["rule"] = "every sequence of substitutions up to the bound, with every way of using them"
