"""C36: an interrupt ends the foreground command, and nothing else, at any moment."""
import itertools, re
import e2, vc
PROP, LEVEL = "C36", "model_checking"
TECHNIQUE = "stateless model checking of the real interpreter and job monitor: the interrupt key typed at every scheduling point of small foreground commands, under every interleaving up to a preemption bound, against what may be left when a command ends early"
NOTE = ("The terminal, the processes and their signals are the model in harness/mos (a process in the foreground gets the key instead of the shell, as on a real terminal). "
        "A command that is blocked in a channel or pipe operation is not ended (known findings).")

# What main does: (source lines, [values of the notes of each task, in order]); a value is a set of possible ones.
ST = lambda n: {"(|status %d|)" % n, "(|status 130|)"}
ELEMS = {
    "n": (["note a 1"], {"a": [{"1"}]}),
    "x": (["note a (p-exit 2)"], {"a": [ST(2)]}),
    "z": (["note a (p-sleep)"], {"a": [ST(130)]}),
    "s": (["spawn {\nmark x\nnote t 1\nnote t 2\n}"], {"t": [{"1"}, {"2"}]}),
    "p": (["spawn {\nnote u (p-exit 3)\nnote u 2\n}"], {"u": [ST(3), {"2"}]}),
    "S": (["spawn {\nspawn {\nnote v 1\n}\nnote w 1\n}"], {"v": [{"1"}], "w": [{"1"}]}),
    "w": (["wait"], {}),
    "c": (["method () {\ncatch e {\nnote bad caught\nreturn 1\n}\nnote a 5\nmark x\nnote a 6\n}".replace("method ()", "define f: method ()"), "f"], {"a": [{"5"}, {"6"}]}),
    "l": (["define i 0", "while (lt? $i 2) {\nset i: add $i 1\nnote a $i\n}"], {"a": [{"(|number 1|)"}, {"(|number 2|)"}]}),
    "r": (["define k: chan 1", "k write 7", "note a (k read)"], {"a": [{"(7)", "7"}]}),
    "e": (["catch2: throw oops"], {}),
}

def parse(line):
    """(rest, {task: notes}) of an outcome."""
    notes = {}
    m = re.search(r"((?: [a-z]+:[^ ]*(?:\([^)]*\)[^ ]*)*)*)$", line)
    for k, v in re.findall(r" ([a-z]+):((?:\([^)]*\)|[^ ,(]|,)*)", m.group(1)):
        notes[k] = re.findall(r"(?:\([^)]*\)|[^,(])+", v)
    return line[:m.start()], notes

def judge(expect, last="c", must=None, unless=False):
    def allowed(line):
        if line.startswith(("HANG", "CRASH", "BUDGET")):
            return "the shell does not get to the next command"
        rest, notes = parse(line)
        if "[1]" in rest or "stderr: error" in rest and "oops" not in rest:
            return "something else was said"
        for t, ns in notes.items():
            if t == last or must and t in must:
                continue
            if t not in expect:
                return "notes nobody should make: %s %s" % (t, ns)
            if len(ns) > len(expect[t]) or any(n not in e for n, e in zip(ns, expect[t])):
                return "notes of %s: %s" % (t, ns)
        for t, vs in (must or {}).items():
            if notes.get(t) not in vs and not (unless and "(|status 130|)" in rest):
                return "%s noted %s" % (t, notes.get(t))
        if last and notes.get(last) != ["3"] and not ("(|status 130|)" in rest and last not in notes):
            return "the next command was not run"
        return None
    return allowed

def program(els, keys, at):
    body, exp = [], {}
    for i, e in enumerate(els):
        src, notes = ELEMS[e]
        if i == at:
            body.append("keys " + " ".join(keys))
        body += src
        for t, vs in notes.items():
            exp.setdefault(t, []).extend(vs)
    if at == len(els):
        body.append("keys " + " ".join(keys))
    body.append("note a end")
    exp.setdefault("a", []).append({"end"})
    return ["block {\n%s\n}" % "\n".join(body), "note c 3"], judge(exp)

def family(alphabet, n, keys, ats=None):
    ps = []
    for els in itertools.product(alphabet, repeat=n):
        if len(set(els)) < len(els) and n > 1 or els[0] == "w":
            continue
        for at in ats if ats is not None else range(n + 1):
            if "z" in els and at > els.index("z"):
                continue
            src, allowed = program(els, keys, at)
            ps.append(dict(Key="%s %s at %d" % ("".join(els), "+".join(keys), at), Src=src, Keys=[], Allowed=allowed))
    return ps

def special():
    """What an interrupt leaves alone, and what must not go on after it."""
    ps = []
    def add(key, src, expect, must=None, last="c", unless=False, **o):
        ps.append(dict(dict(Key=key, Src=src, Keys=[], Allowed=judge(expect, last, must, unless)), **o))
    # The tasks of the command do nothing more, wherever they are.
    for kind, child in [("task", "spawn {\ng read\nnote t late\n}"), ("orphan", "define h: chan\nspawn {\nspawn {\ng read\nnote t late\n}\n}\nspawn {\nh read\n}"),
                        ("nested, waiting", "spawn {\nspawn {\ng read\nnote t late\n}\nwait\n}"), ("two tasks", "spawn {\ng read\nnote t late\n}\nspawn {\ng read\nnote t late\n}")]:
        def only(line):
            rest, notes = parse(line)
            if line.startswith(("HANG", "CRASH")):
                return "the shell does not get to the next command"
            return "a task went on after the interrupt" if "t" in notes or "a" in notes else None
        ps.append(dict(Key="ended: " + kind, Src=["define g: chan 2", "block {\n%s\nkeys int\nwait\nnote a 1\n}" % child, "block {\ng write 1\ng write 2\n}"], Keys=[], Allowed=only))
    # Those of other commands do.
    add("others: task", ["define g: chan 1", "spawn {\ng read\nnote t 1\n}", "block {\nkeys int\nmark x\nnote a 1\nwait2\n}".replace("\nwait2", ""), "g write 1"], {"a": [{"1"}]}, {"t": [["1"]]}, last=None, unless=True)
    add("others: process", ["spawn {\nnote t (p-steps 2 5)\nnote t 2\n}", "block {\nkeys int\nmark x\nnote a 1\n}", "note c 3"], {"a": [{"1"}]}, {"t": [["(|status 5|)", "2"], ["(|status 130|)", "2"]]})
    def stopped(line):
        rest, notes = parse(line)
        if line.startswith(("HANG", "CRASH")):
            return "the shell does not get to the next command"
        over = "(|status 130|)" in rest
        if not rest.startswith("[1]+\tblock {\nnote t (p-stop 4)\nnote t 2\n}\n") or rest.count("[1]") != 1:
            return "the stopped job is not listed once"
        t = notes.get("t", [])
        if t not in ([], ["(|status 4|)"], ["(|status 4|)", "2"], ["(|status 130|)", "2"], ["(|status 130|)"]) or not over and notes.get("c") != ["3"]:
            return "the stopped job: %s" % t
        return None
    ps.append(dict(Key="others: stopped", Src=["block {\nnote t (p-stop 4)\nnote t 2\n}", "block {\nkeys int\nmark x\nnote a 1\n}", "fg", "note c 3"], Keys=[], Allowed=stopped))
    def kept(line):
        rest, notes = parse(line)
        return None if notes.get("t") == ["(|status 4|)", "2"] else "the stopped job was not resumed: %s" % rest
    ps.append(dict(Key="others: stopped, interrupted for certain", Src=["block {\nnote t (p-stop 4)\nnote t 2\n}", "block {\ndefine g: chan 1\nkeys int\nnote a (p-sleep)\n}", "fg", "note c 3"], Keys=[], Allowed=kept))
    # What the interpreter shares between commands goes on working.
    add("prompt", ["block {\nkeys int\nprompt x\nnote a 1\n}", "block {\nprompt x\nnote c 3\n}"], {"a": [{"1"}]})
    add("import", ["define d: fresh mo", "block {\nkeys int\nimport m\nnote a 1\n}", "block {\nimport m\nnote c 3\n}"], {"a": [{"1"}]})
    add("umask", ["block {\nkeys int\numask 022\nnote a 1\n}", "block {\numask 022\nnote c 3\n}"], {"a": [{"1"}]})
    add("redirection", ["block {\nkeys int\nwrite-line x >| r-file-name\nnote a 1\n}", "block {\nwrite-line y >| r-file-name\nnote c 3\n}"], {"a": [{"1"}]})
    add("pipeline", ["block {\nkeys int\np-yes 2 | p-cat\nnote a 1\n}", "note c 3"], {"a": [{"1"}]}, Stages=[(0, True, 20)])
    add("pipeline of processes", ["block {\nkeys int\np-steps 2 | p-steps 2\nnote a 1\n}", "note c 3"], {"a": [{"1"}]}, Stages=[(0, True, 20)])
    add("no command", ["keys int", "note a 1", "note a 2", "note c 3"], {"a": [{"1", "2"}, {"2"}]})
    # Blocked where it cannot be interrupted.
    add("blocked: channel read", ["block {\ndefine g: chan\nkeys int\ng read\nnote a 1\n}", "note c 3"], {"a": [{"1"}]})
    add("blocked: channel write", ["block {\ndefine g: chan\nkeys int\ng write 1\nnote a 1\n}", "note c 3"], {"a": [{"1"}]})
    add("blocked: pipe read", ["block {\ndefine g: pipe\nkeys int\ng read-line\nnote a 1\n}", "note c 3"], {"a": [{"1"}]})
    add("blocked: capture", ["block {\nkeys int\nnote a (capture (p-echo x))\n}", "note c 3"], {"a": [{"($'x')"}]}, Stages=[(0, True, 20)])
    return ps

def run(ctx):
    q = ctx.quick
    plain = e2.build(ctx)
    end = ctx.start + (100 if q else 870)
    files = {"m": "module m\nexport x 1\n"}
    st = [(0, True, 2), (1, True, 4)] if q else [(0, True, 10), (1, True, 20), (2, True, 40)]
    e2.explore(ctx, plain, special(), name="what is left alone, and what is not", deadline=end, stages=st, monitor=True, files=files)
    fams = [("one step", "nxzspSclr", 1, ["int"]), ("two steps", "nxspSwcl" if q else "nxzspSwclr", 2, ["int"]), ("two keys", "nxzs" if q else "nxzspScl", 1, ["int", "int"])]
    if not q:
        fams += [("three steps", "nxspw", 3, ["int"])]
    for name, alphabet, n, keys in fams:
        e2.explore(ctx, plain, family(alphabet, n, keys, [0, 1] if q and n > 1 else None), name=name, deadline=end, stages=st, monitor=True)
    shared = e2.build(ctx, shared=True)
    ps = [dict(p, Key="memory: " + p["Key"], Shared=True) for p in family("nxspSw", 1, ["int"]) + special()[:6]]
    import c35
    c35.races(ctx, e2.explore(ctx, shared, ps, name="memory", deadline=end, stages=[(0, True, 2), (1, True, 2)] if q else st, monitor=True, files=files), ps)
