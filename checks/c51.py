"""C51: a finished command gives back what it used."""
import collections, itertools, os, re
import vc
from checks_common import build_probe, install
PROP, LEVEL = "C51", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of programs on the real shell, with the descriptors, children, goroutines and temporary files of the shell process compared before and after"
NOTE = "Exhaustive over every listed command in every nest of up to two contexts and every pair of commands, run once and then three times more with garbage collection off, so that nothing is given back by accident. Memory is not measured. exit inside pipelines, captures and substitutions is a known finding of C33 and C47 and is left out, and so are commands that are still running and tasks that throw inside a construct that handles exceptions: they go on in the handler."
LEAVES = {
    "external": "true", "external fails": "sh -c 'exit 3'", "external killed": "sh -c 'kill -9 $$'", "not found": "(method () {\n    catch ex {\n        return ()\n    }\n    nosuch x\n})", "not executable": "(method () {\n    catch ex {\n        return ()\n    }\n    ./bad x\n})",
    "builtin": "write x", "throws": "(method () {\n    catch ex {\n        return ()\n    }\n    throw e\n})", "read": "read", "read-line": "read-line",
    "pipe": "define p: pipe\np write x\np read\np close", "pipe lines": "define p: pipe\np write-line 'a b'\np writer-close\np read-line\np read-line\np reader-close", "pipe read error": "define p: pipe\np write-line ')'\np writer-close\n(method () {\n    catch ex {\n        return ()\n    }\n    p read\n})\np reader-close",
    "chan": "define c: chan 1\nc write x\nc read", "open": "define f: open r- in\nf read-line\nf close", "open rw": "define f: open rw- in\nf read-line\nf close", "open fails": "(method () {\n    catch ex {\n        return ()\n    }\n    open r- nofile\n})",
    "glob": "write i*", "glob fails": "(method () {\n    catch ex {\n        return ()\n    }\n    write nomatch*\n})", "cd": "cd sub", "exists": "exists in nofile", "source": "source mod.oh", "import": "define m: import \"mod.oh\"", "import fails": "(method () {\n    catch ex {\n        return ()\n    }\n    import \"nomod.oh\"\n})",
    "missing input": "(method () {\n    catch ex {\n        return ()\n    }\n    cat < nofile\n})", "existing output": "(method () {\n    catch ex {\n        return ()\n    }\n    write x > in\n})", "no directory": "(method () {\n    catch ex {\n        return ()\n    }\n    write x >| nodir/x\n})",
    "fifo": "define n: temp-fifo\ncommand rm $n", "eval": "eval (quote (write x))", "umask": "umask",
}
CONTEXTS = {
    "block": "block {\n%s\n}", "guarded": "(method () {\n    catch ex {\n        return ()\n    }\n%s\n})", "if": "if true {\n%s\n}", "thrown out of": "(method () {\n    catch ex {\n        return ()\n    }\n    block {\n%s\n        throw e\n    }\n})",
    ">|": "block {\n%s\n} >| out", ">>": "block {\n%s\n} >> out", ">>&": "block {\n%s\n} >>& out", "<": "block {\n%s\n} < in", "< >|": "block {\n%s\n} < in >| out",
    "thrown out of >|": "(method () {\n    catch ex {\n        return ()\n    }\n    block {\n%s\n        throw e\n    } >| out\n})", "thrown out of <": "(method () {\n    catch ex {\n        return ()\n    }\n    block {\n%s\n        throw e\n    } < in\n})",
    "| cat": "block {\n%s\n} | cat", "| builtin": "block {\n%s\n} | slurp", "|& cat": "block {\n%s\n} |& cat", "write |": "quote x | block {\n%s\n}", "echo |": "echo x | block {\n%s\n}", "| |": "echo x | block {\n%s\n} | cat",
    "thrown out of |": "(method () {\n    catch ex {\n        return ()\n    }\n    block {\n%s\n        throw e\n    } | cat\n})", "thrown out of last": "(method () {\n    catch ex {\n        return ()\n    }\n    echo x | block {\n%s\n        throw e\n    }\n})", "| not found": "(method () {\n    catch ex {\n        return ()\n    }\n    block {\n%s\n    } | nosuch\n})",
    "capture": "define v `(block {\n%s\n})", "thrown out of capture": "(method () {\n    catch ex {\n        return ()\n    }\n    define v `(block {\n%s\n        throw e\n    })\n})",
    "spawn": "spawn {\n%s\n}\nwait", "&": "block {\n%s\n} &\nwait", "thrown in a task": "spawn {\n%s\n    throw e\n}\nwait", "exit in a task": "spawn {\n%s\n    exit 3\n}\nwait",
    "|<": "cat |<(block {\n%s\n})", "|>": "tee |>(block {\n%s\n    slurp\n})", "thrown out of |<": "(method () {\n    catch ex {\n        return ()\n    }\n    cat |<(block {\n%s\n        throw e\n    })\n})", "unread |<": "true |<(block {\n%s\n})", "unread |>": "true |>(block {\n%s\n})",
    "main of |<": "block {\n%s\n    cat |<(quote x)\n}",
}
PRELUDE = '''define slurp: method () {
    while (define l: read-line) {
        write $l
    }
}
'''
def nest(cs, leaf):
    b = leaf
    for c in reversed(cs):
        b = CONTEXTS[c] % "\n".join("    " + l for l in b.split("\n"))
    return b
def program(body, wait=20, reps=3):
    return PRELUDE + "define rep: method () {\n%s\n}\nrep\naudit base base\n%saudit check base\naudit quit %d\n" % ("\n".join("    " + l for l in body.split("\n")), "rep\n" * reps, wait)

def tasks(err):
    """The goroutines of the shell, by what created them."""
    return collections.Counter(x for x in re.findall(r"^created by (\S+)", err, re.M) if not x.startswith("runtime"))

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx, "audit")
    audit = os.path.join(ctx.scratch, "audit")
    def env(d): return dict(vc.scratch_env(d, d + "/bin:/usr/bin:/bin"), TMPDIR=d + "/tmp", GOGC="off", GOTRACEBACK="all")
    def setup(d):
        install(probe, d, "bin/audit")
        for n in ("tmp", "sub"):
            os.makedirs(d + "/" + n, exist_ok=True); os.chmod(d + "/" + n, 0o777)
        for n, s in (("in", "one\ntwo\nthree\nfour\nfive\n"), ("mod.oh", "export x 1\n"), ("bad", "")):
            with open(d + "/" + n, "w") as f: f.write(s)
            os.chmod(d + "/" + n, 0o644)
    def prepare(d, key, exp):
        for n in os.listdir(d + "/tmp"): os.unlink(d + "/tmp/" + n)
        for n in ("out", "base"):
            if os.path.exists(d + "/" + n): os.unlink(d + "/" + n)
    argv = [audit, "exec", oh, "-s"]
    d0 = os.path.join(ctx.scratch, "first"); os.makedirs(d0); os.chmod(d0, 0o777); setup(d0)
    st, o, er = vc.run(argv, d0, 20, env(d0), program("write x", 300).encode())
    base = tasks(er.decode("utf-8", "replace"))
    if not base or "nothing" not in o.decode(): raise RuntimeError("no goroutines seen: %r %r" % (o, er[-500:]))
    def judge(exp, st, out, err, d):
        if st is None: return "the shell did not finish"
        lines = out.split("\n")
        held = [l for l in lines if l.startswith("held: ")]
        if held: return "; ".join(held)
        if "nothing" not in lines: return "the shell stopped before the end"
        left = sorted(os.listdir(d + "/tmp"))
        if left: return "left in the temporary directory: %s" % left
        more = tasks(err) - base
        if more:
            # They may be on their way out, or of the shell's own input, once used: look later, and at what three more runs add.
            count = []
            for reps in (0, 3):
                prepare(d, "", exp)
                st, o, er = vc.run(argv, d, 30, env(d), program(exp, 1500, reps).encode())
                count.append(tasks(er.decode("utf-8", "replace")))
            more = count[1] - count[0]
            if more: return "goroutines left: %s" % dict(more)
        return None
    def stages(cs):
        """An exception that leaves a task goes on in the handler around the spawn, in that task: only where that is the top level does it end the task."""
        return any(c == "thrown in a task" and any(x not in ("block", "if") for x in cs[:i]) for i, c in enumerate(cs))
    def case(cs, ls):
        body = nest(cs, "\n".join(LEAVES[l] for l in ls))
        return "%s: %s" % (" ".join(cs) or "plain", ", ".join(ls)), argv, program(body).encode(), body
    some = ["external", "throws", "pipe lines", "read-line", "import", "not found"]
    def gen():
        for l in LEAVES: yield case((), (l,))
        for c in CONTEXTS:
            for l in LEAVES: yield case((c,), (l,))
        for a, b in itertools.product(CONTEXTS, repeat=2):
            if stages((a, b)): continue
            for l in some[:2] if q else some: yield case((a, b), (l,))
        for a, b in itertools.product(LEAVES, repeat=2):
            if not q or a in some and b in some: yield case((), (a, b))
        if q: return
        for a, b, c in itertools.product(CONTEXTS, repeat=3):
            if not stages((a, b, c)): yield case((a, b, c), ("external",))
    vc.enumerate_runs(ctx, gen, judge, setup=setup, prepare=prepare, env=env, name="commands and contexts", timeout=20)
    ctx.cov["rule"] = "every listed command in every nest of the listed contexts up to the bound, three runs after a first one"
