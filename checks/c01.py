"""C01: reading always finishes and loses no command."""
import itertools, json, os
import readv, vc
PROP, LEVEL = "C01", "model_checking"
TECHNIQUE = "explicit-state exploration of the real reader against an executable reference grammar (bounded-exhaustive)"
NOTE = "Exhaustive for every text up to the stated token lengths; trusts the reference grammar in harness/readv/ref.go."

UNITS = [  # text, output
    ("write-line A", "A\n"),
    ("write-line B; write-line C", "B\nC\n"),
    ("write-line D & wait", "D\n"),
    ("write-line E &\nwait", "E\n"),
    ("block {\n    write-line F\n}", "F\n"),
    ("write-line 'G\nH'", "G\nH\n"),
    ("", ""),
    ("# write-line X", ""),
    ("write-line I &&\n    write-line J", "I\nJ\n"),
    ("write-line )", None),
    ("write-line (", None),
    ("block {", None),
    ('write-line "k', None),
    ("} write-line A", None),
]

def run(ctx):
    q = ctx.quick
    fams = [("all token kinds, then more commands, length %d" % n, ["-mode", "grammar", "-alpha", "full", "-n", str(n), "-tail", json.dumps("x y; z\n")]) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))]
    fams += [("core tokens, length 5", ["-mode", "grammar", "-alpha", "core", "-n", "5"])]
    fams += [("nesting, then more commands, length 5", ["-mode", "grammar", "-alpha", "nest", "-n", "5", "-tail", json.dumps("x y\nz\n")])]
    fams += [("whole lines, length %d" % n, ["-mode", "grammar", "-alpha", "lines", "-n", str(n)]) for n in (2, 3, 4)]
    fams += [("whole lines read from a conduit, length %d" % n, ["-mode", "conduit", "-alpha", "lines", "-n", str(n)]) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))]
    fams += [("all token kinds read from a conduit, length %d" % n, ["-mode", "conduit", "-alpha", "full", "-n", str(n)]) for n in ((3, 4) if q else (3, 4, 5))]
    fams += [("long lines read from a conduit", ["-mode", "long", "-n", "1"])]
    if not q:
        fams += [("core tokens, length 6", ["-mode", "grammar", "-alpha", "core", "-n", "6"]), ("operator characters from a conduit, length 5", ["-mode", "conduit", "-alpha", "ops", "-n", "5"])]
    ctx.cov["rule"] = ("every sequence of the family's tokens or lines; each answer of the real reader (and of a conduit's read, on past errors to the end of the "
                       "input) compared with the reference grammar; whole programs through oh -c, oh FILE and source compared with the commands they contain")
    ctx.assumptions = ["the reference grammar (harness/readv/ref.go) states which texts are commands"]
    readv.explore(ctx, fams, 100 if q else 600)
    oh = ctx.build_oh()
    def gen():
        for n in (1, 2, 3) if not q else (1, 2):
            for us in itertools.product(UNITS, repeat=n):
                text = "\n".join(u[0] for u in us)
                want = None if any(u[1] is None for u in us) else "".join(u[1] for u in us)
                if sum(u[1] is None for u in us) > 1:
                    continue
                for form in ("-c", "file", "source"):
                    for end in ("", "\n"):
                        if form == "-c" and not (text + end):
                            continue  # -c with an empty command is no command
                        argv = [oh, "-c", text + end] if form == "-c" else [oh, "prog.oh"] if form == "file" else [oh, "-c", "source ./prog.oh"]
                        yield "%s:%s" % (form, text + end), argv, None, (form, text + end, want)
    def prepare(d, key, exp):
        with open(os.path.join(d, "prog.oh"), "w") as f:
            f.write(exp[1])
    def judge(exp, st, o, e, d):
        if st is None:
            return "does not finish"
        if exp[2] is None:
            return "malformed text accepted, or no error reported" if not e.strip() else None
        if o != exp[2]:
            return "commands lost or repeated"
        return "error reported for a well-formed text" if e.strip() else None
    vc.enumerate_runs(ctx, gen, judge, prepare=prepare, name="programs of up to %d units through -c, a script and source" % (2 if q else 3))
