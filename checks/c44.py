"""C44: the current directory is one consistent fact, scoped like a variable."""
import itertools, os, posixpath
import vc
from ohval import *
from checks_common import build_probe, install
PROP, LEVEL = "C44", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of histories of directory changes and scopes on the real shell, against a reference model of PWD and OLDPWD"
NOTE = "Exhaustive over histories of up to 4 (thorough 5) steps: 16 ways to change directory, entering and leaving blocks, methods, branches and loops. A method defined in one directory and called from another, which sees PWD as it sees any variable, is covered one level deep."
DIRS = ["", "d1", "d1/s", "d2", "d 3", "home"]
LINKS = {"l": "d1/s"}
CD = {"cd d1": "d1", "cd s": "s", "cd ..": "..", "cd .": ".", "cd ../d2": "../d2", "cd 'd 3'": "d 3", "cd l": "l", "cd nosuch": "nosuch", "cd f": "f", "cd \"${base}/d2\"": "@/d2", "cd -": "-", "cd": "~", "cd ~": "~", "./d1": "d1", "../d2": "../d2", "\"${base}/d1\"": "@/d1", "cd l/..": "l/.."}

def physical(p, base):
    """Where the logical path p leads, or None."""
    out = []
    rel = p[len(base):] if p == base or p.startswith(base + "/") else None
    if rel is None: return p if p == "/" or base.startswith(p + "/") else None
    for x in [x for x in rel.split("/") if x]:
        out.append(x)
        if "/".join(out) in LINKS: out = LINKS["/".join(out)].split("/")
    r = "/".join(out)
    return base + ("/" + r if r else "") if r in DIRS else None
class Model:
    def __init__(self, base): self.base, self.scopes = base, [(base, base)]
    def cd(self, to):
        pwd, old = self.scopes[-1]
        t = old if to == "-" else self.base + "/home" if to == "~" else self.base + to[1:] if to.startswith("@") else to
        n = t if t.startswith("/") else posixpath.normpath(pwd + "/" + t)
        if physical(n, self.base) is None: return False
        self.scopes[-1] = (n, pwd)
        return True

SCOPES = {"block": ("block {", "}"), "method": ("(method () {", "})"), "if": ("if true {", "}"), "else": ("if () {\n    write no\n} else {", "}"), "while": ("while true {", "    return ()\n}")}
OBS = "write $PWD $OLDPWD (exists f) (exists d1/f)\nwrite-line (read-line) < f\nfor (glob f*) (method (x) {\n    write $x\n})"
def observe(m, out, deep):
    pwd, old = m.scopes[-1]
    p = physical(pwd, m.base)
    sub = physical(p + "/d1", m.base) if p else None
    show = lambda s: lit(Sym(s))
    ok = p is not None and p.startswith(m.base)
    out.append("%s %s %s %s" % (show(pwd), show(old), "true" if ok else "()", "true" if sub else "()"))
    if not ok: return False
    rel = p[len(m.base):]
    out.append("in %s" % (rel or "top"))
    out.append("$'f'")
    if deep:
        out.append(p)
        out.append("PWD=%s OLDPWD=%s" % (pwd, old))
        out.append("./here " + (rel or "top"))
    return True
DEEP = "where\nvars PWD OLDPWD\n./here"

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    B = "/@@BASE"
    def setup(d):
        install(probe, d, "bin/where", "bin/vars")
        for x in DIRS:
            p = d + "/S/" + x if x else d + "/S"
            os.makedirs(p, exist_ok=True); os.chmod(p, 0o755)
            with open(p + "/f", "w") as h: h.write("in %s\n" % ("/" + x if x else "top"))
            with open(p + "/here", "w") as h: h.write("#!/bin/sh\necho \"$0 %s\"\n" % ("/" + x if x else "top"))
            os.chmod(p + "/f", 0o644); os.chmod(p + "/here", 0o755)
        for l, t in LINKS.items():
            if not os.path.islink(d + "/S/" + l): os.symlink(t, d + "/S/" + l)
    env = lambda d: vc.scratch_env(d + "/S/home", d + "/bin:/usr/bin:/bin")
    inspect = lambda d, key, out: out.replace(d + "/S", B) if isinstance(out, str) else out
    PRE = "define base \"${PWD}/S\"\n"
    def program(seq, scope):
        """None if the history leaves the tree or closes what is not open."""
        m, out, src, depth = Model(B), [], ["cd $base", "cd $base"], 0
        kinds = []
        n = len(seq)
        last_deep = lambda k: k == n - 1
        def emit(s): src.extend(["    " * depth + l for l in s.split("\n")])
        seq = list(seq)
        for k, s in enumerate(seq):
            if s == "(":
                emit(scope[0]); depth += 1; m.scopes.append(m.scopes[-1]); kinds.append("s")
                if k == n - 1: return None   # the same as without
                continue
            if s == ")":
                if depth == 0 or seq[k - 1] == "(": return None
                if scope[1].startswith("    "): return None if k < n - 1 else None
                depth -= 1; emit(scope[1]); m.scopes.pop()
            else:
                # A command's name is resolved by the system, physically, like any relative path.
                if s.startswith("..") and physical(m.scopes[-1][0], B) != m.scopes[-1][0]: return None
                r = m.cd(CD[s])
                emit("define ok: " + s if s.startswith("cd") else s)
                if s.startswith("cd"):
                    emit("write $ok"); out.append("true" if r else "()")
                elif not r: return None      # not a directory: another command altogether
            emit(OBS)
            if not observe(m, out, k == n - 1): return None
            if k == n - 1: emit(DEEP)
        while depth:
            depth -= 1
            if scope[1].startswith("    "): return None
            emit(scope[1]); m.scopes.pop()
            emit(OBS + "\n" + DEEP)
            if not observe(m, out, True): return None
        return "\n".join(src), "\n".join(out) + "\n"
    def gen():
        full = list(CD) + ["(", ")"]
        few = ["cd d1", "cd ..", "cd ../d2", "cd -", "cd nosuch", "cd l", "./d1", "(", ")"]
        for n in range(1, 5 if q else 6):
            alpha = full if n < 4 else few if n == 4 and q else full if n == 4 else few
            if n == 4 and not q: alpha = [x for x in full if x not in ("cd .", "cd ~", "cd f")]
            for t in itertools.product(alpha, repeat=n):
                for kind in ("block", "method", "if", "else"):
                    if kind != "block" and "(" not in t: continue
                    if kind != "block" and q and n > 2 + (kind == "method"): continue
                    if kind not in ("block", "method") and n > 3: continue
                    r = []
                    def expect(t=t, kind=kind, r=r):
                        p = program(t, SCOPES[kind])
                        if p is None: return None
                        r.append(p[0])
                        return p[1]
                    yield "%s: %s" % (kind, "; ".join(t)), lambda r=r: r[0], expect
    vc.enumerate_batches(ctx, gen, oh, prelude=PRE, setup=setup, env=env, inspect=inspect, name="histories", size=100)

    # Who sees which PWD: a method, the place it was defined in and the place it is called from.
    def methods():
        steps = ["cd d1", "cd ../d2", "cd 'd 3'", "cd d1/s", ""]
        for a, b, c, d in itertools.product(steps, ["", "cd d1", "cd d2"], ["", "cd s", "cd .."], (0, 1)):
            # a: in the defining scope; b: in the calling scope; c: in the method.
            src = ["cd $base", "block {"] if d else ["cd $base", "block {"]
            base = B
            st = (base, base)
            def go(st, s):
                if not s: return st
                to = CD.get(s, s[3:].strip("'"))
                n = posixpath.normpath(st[0] + "/" + to)
                return (n, st[0]) if physical(n, B) else st
            src.append("    " + (a or "write n"))
            outer = go(st, a)
            inmeth = ["write-line (read-line) < f", "where"]
            meth = ["define m: method () {"] + ["    " + l for l in ([c] if c else []) + inmeth] + ["}"]
            src += ["    " + l for l in meth]
            if d: src += ["    block {"] + ["        " + l for l in ([b] if b else []) + ["m"] + inmeth] + ["    }"]
            else: src += ["    (method () {"] + ["        " + l for l in ([b] if b else []) + ["m"] + inmeth] + ["    })"]
            src += ["    " + l for l in inmeth] + ["}"]
            caller = go(outer, b)
            # PWD is defined in the defining scope if a changed it; else the caller's is seen.
            lexical = outer if a and outer != st else None
            # The enclosing scopes of the defining scope had cd $base.
            inside = go(lexical or (B, B), c)
            if not all(x[0].startswith(B) for x in (inside, caller, outer)): continue
            out = [] if a else ["n"]
            for s in (inside, caller, outer):
                p = physical(s[0], B)
                rel = p[len(B):]
                out += ["in %s" % (rel or "top"), p]
            yield "method: defined after %r called after %r doing %r %d" % (a, b, c, d), "\n".join(src), "\n".join(out) + "\n"
    vc.enumerate_batches(ctx, methods, oh, prelude=PRE, setup=setup, env=env, inspect=inspect, name="methods", size=100)

    # Methods defined where no directory was ever changed: everything is seen through the callers.
    lib = [k for k in CD if k.startswith("cd")]
    indent = lambda t: "".join("    %s\n" % l for l in t.split("\n"))
    LIB = PRE + "define see: method () {\n%s}\n" % indent(OBS + "\n" + DEEP)
    for k, c in enumerate(lib):
        LIB += "define lib%d: method () {\n    define ok: %s\n    write $ok\n%s}\n" % (k, c.replace("${base}", "$base") if 0 else c, indent(OBS + "\n" + DEEP))
        LIB += "define twice%d: method () {\n    define ok: %s\n    see\n    block {\n        cd -\n        see\n    }\n    see\n}\n" % (k, c)
    def library():
        before = ["cd d1", "cd ..", "cd ../d2", "cd -", "cd l"]
        for n in range(1, 3 if q else 4):
            for t in itertools.product(before, repeat=n):
                m = Model(B)
                src, out = ["cd $base", "cd $base"], []
                if not all(m.cd(CD[c]) and (physical(m.scopes[-1][0], B) or "").startswith(B) for c in t): continue
                src += list(t)
                for wrap, (k, c), call in itertools.product(SCOPES, enumerate(lib), ("see", "lib", "twice")):
                    if call == "see" and k: continue
                    if SCOPES[wrap][1].startswith("    "): continue   # it returns
                    m2, o = Model(B), []
                    m2.scopes = [m.scopes[-1]] * 2
                    ok = True
                    if call == "see": ok = observe(m2, o, True)
                    elif call == "lib":
                        r = m2.cd(CD[c]); o.append("true" if r else "()")
                        ok = observe(m2, o, True)
                    else:
                        m2.cd(CD[c]); ok = observe(m2, o, True)
                        m2.scopes.append(m2.scopes[-1]); ok = ok and m2.cd("-") and observe(m2, o, True)
                        m2.scopes.pop(); ok = ok and observe(m2, o, True)
                    m2.scopes.pop()
                    if not (ok and observe(m2, o, True)): continue
                    a, b = SCOPES[wrap]
                    yield "library: %s; %s%d in %s" % ("; ".join(t), call, k, wrap), "\n".join(src + [a, "    " + (call if call == "see" else call + str(k)), b, OBS, DEEP]), "\n".join(o) + "\n"
    vc.enumerate_batches(ctx, library, oh, prelude=LIB, setup=setup, env=env, inspect=inspect, name="library routines", size=100)
    ctx.cov["rule"] = "every history of directory changes and scopes up to the bound, every fact observed after every step"
