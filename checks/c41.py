"""C41: external commands receive exactly the arguments given."""
import itertools, os, shutil
import vc
from ohval import *
from checks_common import build_probe, install, hexed
PROP, LEVEL = "C41", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of argument lists and PATH configurations on the real shell, against the argv a probe program receives"
NOTE = "Exhaustive over strings of a metacharacter alphabet up to length 2 (thorough 3) in every syntactic form, argument lists up to 3 (thorough 4) forms, and PATHs of three directories each without, with an executable, with a plain file of that name. A directory found along the PATH under the command's name is not covered."
ALPHA = list("a \\'\"$`{}()*?[~#;|&<>=:!\n\té,-/.") + ["--", "%s", "\x7f", "x" * 300]

PRE = """define id: method (x) {
    return $x
}
define o: object {
    export id: method (x) {
        return $x
    }
}
"""
# An argument as source, with the definitions it needs; every one is the one string s.
FORMS = {
    "single": lambda s, v: ("", "'%s'" % s) if "'" not in s else None,
    "dollar": lambda s, v: ("", quote(s)),
    "variable": lambda s, v: ("define %s %s\n" % (v, quote(s)), "$" + v),
    "braces": lambda s, v: ("define %s %s\n" % (v, quote(s)), "\"${%s}\"" % v),
    "call": lambda s, v: ("", "(id %s)" % quote(s)),
    "member": lambda s, v: ("define %s %s\n" % (v, quote(s)), "(o id $%s)" % v),
    "splice": lambda s, v: ("", "(splice (list %s))" % quote(s)),
    "exported": lambda s, v: ("export %s %s\n" % (v, quote(s)), "$" + v),
    "list": lambda s, v: ("define %s: list x %s\n" % (v, quote(s)), "(%s get 1)" % v),
    "mended": lambda s, v: ("", "(mend '' '' %s)" % quote(s)),
    "captured": lambda s, v: ("", "`(write-line %s)" % quote(s)) if "\n" not in s and "\r" not in s else None,
    "object": lambda s, v: ("define %s: object {\n    export m: method () {\n        return %s\n    }\n}\n" % (v, quote(s)), "(%s m)" % v),
}
WORDS = {   # other argument forms, and the arguments they stand for
    "word": ("w", ["w"]), "path": ("/a/b", ["/a/b"]), "opt": ("--x=y", ["--x=y"]), "num": ("7", ["7"]), "number": ("(number 7)", ["7"]), "frac": ("(number 1/2)", ["1/2"]), "status": ("(status 3)", ["3"]),
    "true": ("true", ["true"]), "splice0": ("(splice ())", []), "splice2": ("(splice (list 'p q' r))", ["p q", "r"]), "joined": ("a'b c'd", ["ab cd"]), "joinvar": ("a$v", ["av  1"]), "empty": ("''", [""]),
    "equal": ("a=b", ["a=b"]), "esc": ("a\\ b", ["a\\ b"]), "colon": ("x:y", ["x:y"]), "comma": ("a,b", ["a,b"]), "at": ("@", ["@"]), "sym": ("(symbol 'q r')", ["q r"]), "dquote": ("\"<$v>\"", ["<v  1>"]),
}
HEADS = {"word": ("probe", "probe"), "quoted": ("'probe'", "probe"), "double": ("\"probe\"", "probe"), "variable": ("$cmd", "probe"), "call": ("(id probe)", "probe"), "dot": ("./probe", "./probe"), "up": ("./sub/../probe", "./sub/../probe"),
         "command": ("command probe", "probe"), "joined": ("pro'be'", "probe")}
BAD = {"object": "$o", "map": "(map)", "chan": "(chan 1)", "pipe": "(pipe)", "method": "$id", "syntax": "$if", "builtin": "$add"}

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    def setup(d):
        install(probe, d, "probe", "bin/probe", "sub/probe")
    env = lambda d: vc.scratch_env(d, d + "/bin:/usr/bin:/bin")
    def strings():
        seen = {"": 1}
        for n in (1, 2) if q else (1, 2, 3):
            for t in itertools.product(ALPHA if n < 3 else ALPHA[:26], repeat=n): seen["".join(t)] = 1
        return list(seen)
    def texts():
        for s in strings():
            defs, args, n = "", [], 0
            for f, g in FORMS.items():
                r = g(s, "v%d" % n)
                if r is None: continue
                defs, n = defs + r[0], n + 1
                args.append(r[1])
            yield "text %r" % s, defs + "probe " + " ".join(args), hexed("probe", *[s] * n)
    vc.enumerate_batches(ctx, texts, oh, prelude=PRE, setup=setup, env=env, name="every text in every form", size=300)
    def lists():
        for n in range(0, 4 if q else 5):
            for t in itertools.product(list(WORDS) if n < 4 else list(WORDS)[8:16], repeat=n):
                yield "list " + " ".join(t), "define v 'v  1'\nprobe" + "".join(" " + WORDS[a][0] for a in t), hexed("probe", *[x for a in t for x in WORDS[a][1]])
        for h, (src, name) in HEADS.items():
            for n in (0, 1, 2):
                for t in itertools.product(WORDS, repeat=n):
                    yield "head %s %s" % (h, " ".join(t)), "define cmd probe\ndefine v 'v  1'\n%s" % src + "".join(" " + WORDS[a][0] for a in t), hexed(name, *[x for a in t for x in WORDS[a][1]])
        for b, src in BAD.items():
            for pos in ("%s", "a %s", "%s 'b c'", "a %s b"):
                yield "no text form: " + pos % b, "catch e {\n    write thrown\n    return\n}\nprobe " + pos % src + "\nwrite ran", "thrown\n"
    vc.enumerate_batches(ctx, lists, oh, prelude=PRE, setup=setup, env=env, name="argument lists", size=300)

    # The program run: the first executable along the PATH in force.
    def setup2(d):
        for i in range(3):
            for kind in ("none", "exec", "plain"):
                p = "%s/%d%s" % (d, i, kind)
                os.makedirs(p, exist_ok=True); os.chmod(p, 0o755)
                if kind == "exec":
                    with open(p + "/who", "w") as f: f.write("#!/bin/sh\necho %d \"$@\"\n" % i)
                    os.chmod(p + "/who", 0o755)
                elif kind == "plain":
                    with open(p + "/who", "w") as f: f.write("plain\n")
                    os.chmod(p + "/who", 0o644)
        os.makedirs(d + "/bin", exist_ok=True); os.chmod(d + "/bin", 0o755)
    def paths():
        kinds = ("none", "exec", "plain")
        for t in itertools.product(kinds, repeat=3):
            dirs = [(i, k) for i, k in enumerate(t)]
            for order in itertools.permutations(dirs):
                exp = next(("%d x\n" % i for i, k in order if k == "exec"), "thrown\n")
                path = "\"" + ":".join("${HOME}/%d%s" % (i, k) for i, k in order) + "\""
                for how in ("export", "prefix", "block", "caller"):
                    body = {"export": "export PATH %s\nwho x" % path,
                            "prefix": "PATH=%s who x" % path,
                            "block": "export PATH /nonexistent\nblock {\n    export PATH %s\n    who x\n}" % path,
                            "caller": "define run: method () {\n    who x\n}\nblock {\n    export PATH %s\n    run\n}" % path}[how]
                    e = exp
                    yield "path %s %s" % (how, " ".join("%d%s" % o for o in order)), "catch e {\n    write thrown\n    return\n}\n" + body, e
    vc.enumerate_batches(ctx, paths, oh, setup=setup2, env=lambda d: vc.scratch_env(d, d + "/bin"), name="PATH", size=100)
    ctx.cov["rule"] = "every text in every form; every argument list of the forms; every PATH of three directories in every order"
