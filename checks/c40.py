"""C40: redirection touches exactly the named file and never clobbers by accident."""
import itertools, os, shutil
import vc
from checks_common import build_probe, install
PROP, LEVEL = "C40", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of histories of redirected commands on the real shell, against a reference file system with offsets and append mode"
NOTE = "Exhaustive over sequences of up to two (thorough three) redirected commands and nests of two (thorough three) redirections, over files that exist or not. Files another process changes between the test for existence and the opening are not covered."
OUT = {">": ("w", True, False), ">|": ("w", False, False), ">>": ("a", False, False), ">&": ("w", True, True), ">&|": ("w", False, True), ">>&": ("a", False, True)}

# ---- The reference: files hold text, a handle has a file, an offset and a mode.
class Thrown(Exception): pass
class Handle:
    def __init__(self, fs, name, mode): self.fs, self.name, self.mode, self.at = fs, name, mode, 0
    def write(self, s):
        t = self.fs[self.name]
        if self.mode == "a": self.at = len(t)
        t = t.ljust(self.at, "\0")
        self.fs[self.name] = t[:self.at] + s + t[self.at + len(s):]
        self.at += len(s)
    def rest(self):
        s = self.fs[self.name][self.at:]; self.at += len(s); return s
    def line(self):
        t = self.rest()
        if not t: return None
        t = t.split("\n", 1)
        if len(t) == 2: self.at -= len(t[1])   # only correct for one reader, which is all that is generated
        return t[0]
class Screen:
    def __init__(self): self.text = ""
    def write(self, s): self.text += s
def run_model(c, fs, io):
    k = c[0]
    if k == "write": io["out"].write(c[1] + "\n")
    elif k == "both":
        io["out"].write("out %s\n" % c[1]); io["err"].write("err %s\n" % c[1])
    elif k == "error": io["err"].write(c[1] + "\n")
    elif k == "cat": io["out"].write(io["in"].rest() if io["in"] else "")
    elif k == "line":
        l = io["in"].line() if io["in"] else None
        io["out"].write("<" + ("()" if l is None else l) + ">\n")
    elif k == "throw": raise Thrown()
    elif k == "block":
        for x in c[1]: run_model(x, fs, io)
    elif k == "redir":
        _, op, name, inner = c
        io = dict(io)
        if name.startswith("nodir/"): raise Thrown()
        if op == "<":
            if fs.get(name) is None: raise Thrown()
            io["in"] = Handle(fs, name, "r")
        else:
            mode, check, errors = OUT[op]
            if check and fs.get(name) is not None: raise Thrown()
            if mode == "w" or fs.get(name) is None: fs[name] = ""
            h = Handle(fs, name, mode)
            io["out"] = h
            if errors: io["err"] = h
        run_model(inner, fs, io)
    elif k == "guard":
        try: run_model(c[1], fs, io)
        except Thrown: io["out"].write("caught\n")

# ---- The program.
def word(d, name, form):
    if form == "cd": return "'%s'" % name
    n = "%s/%s" % (d, name)
    if form == "sym" and " " not in n: return n
    if form == "glob": return n.replace(" ", "?") if " " in n else n[:-1] + "[" + n[-1] + "]"
    if form == "var": return "$V"
    return "'%s'" % n
def text(c, d, form="str"):
    """Lines of the command."""
    k = c[0]
    if k == "write": return ["write %s" % c[1]]
    if k == "both": return ["both %s" % c[1]]
    if k == "error": return ["error %s" % c[1]]
    if k == "cat": return ["cat"]
    if k == "line": return ["mine"]
    if k == "throw": return ["throw e"]
    if k == "block":
        return ["block {"] + ["    " + l for x in c[1] for l in text(x, d, form)] + ["}"]
    if k == "redir":
        ls = text(c[3], d, form)
        return ls[:-1] + [ls[-1] + " %s %s" % (c[1], word(d, c[2], form))]
    if k == "guard":
        return ["(method () {", "    catch ex {", "        write caught", "        return ()", "    }"] + ["    " + l for l in text(c[1], d, form)] + ["})"]
PRELUDE = "define mine: method () {\n    define l: read-line\n    write-line \"<${l}>\"\n}\n"

INITIAL = {"": {}, "a": {"a": "A1\nA2\n"}, "b": {"b c": "B1"}, "ab": {"a": "A1\nA2\n", "b c": "B1"}}
NAMES = ["a", "b c"]
OPS = list(OUT)

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    env = lambda d: vc.scratch_env(d, d + "/bin:/usr/bin:/bin")
    def setup(d):
        install(probe, d, "bin/both")
        # In the directory the shell was started in: one name of each kind exists only there.
        with open(d + "/a", "w") as f: f.write("decoy\n")
        os.chmod(d + "/a", 0o666)
    w, e, t = lambda x: ("write", x), ("error", "E"), ("throw",)
    plain = [w("x"), ("both", "y"), ("block", [w("p"), ("both", "q"), w("r")]), ("block", [w("p"), t, w("r")])]
    cheap = [w("x"), ("block", [w("p"), e, w("r")]), ("block", [w("p"), t, w("r")])]
    def singles(cmds, names=NAMES + ["nodir/z"]):
        for op, n, c in itertools.product(OPS, names, cmds): yield ("redir", op, n, c)
        for n in names:
            for c in (("cat",), ("line",), ("block", [w("s"), ("line",), ("line",), ("line",)]), ("block", [w("s"), ("line",), t])): yield ("redir", "<", n, c)
    def nested(names=NAMES):
        for o1, o2, n1, n2 in itertools.product(OPS, OPS, names, names):
            for kind in range(4):
                inner = [w("i"), ("block", [w("i"), e]), ("block", [w("i"), t]), ("both", "i")][kind]
                yield ("redir", o1, n1, ("block", [w("o"), ("redir", o2, n2, inner), w("u"), ("error", "V")]))
                yield ("redir", o1, n1, ("block", [w("o"), ("guard", ("redir", o2, n2, inner)), w("u"), ("error", "V")]))
            yield ("redir", o1, n1, ("redir", o2, n2, w("m")))
        for o, n1, n2 in itertools.product(OPS, names, names):
            yield ("redir", o, n1, ("redir", "<", n2, ("cat",) if n1 != n2 else ("line",)))
            yield ("redir", "<", n1, ("redir", o, n2, ("line",)))
            yield ("redir", "<", n1, ("block", [("line",), ("guard", ("redir", "<", n2, ("line",))), ("line",)]))
    def deeper():
        for o1, o2, o3, n1, n2, n3 in itertools.product(OPS, OPS, OPS, NAMES, NAMES, NAMES):
            for inner in (w("i"), ("block", [w("i"), t])):
                yield ("redir", o1, n1, ("block", [w("o"), ("guard", ("redir", o2, n2, ("block", [w("c"), ("redir", o3, n3, inner), w("d")]))), w("u"), e]))
    count = [0]
    cases = {}
    def case(init, seq, form="str"):
        # In a block of its own whose output and errors go to one file, so that anything that escapes is seen.
        count[0] += 1
        d = "k%d" % count[0]
        key = "%s %s %d" % (init or "nothing", form, count[0])
        def expect():
            fs = dict(INITIAL[init])
            screen = Screen()
            for c in seq: run_model(("guard", c), fs, {"in": None, "out": screen, "err": screen})
            fs["log"] = screen.text
            cases[key] = (d, INITIAL[init])
            return "\n".join("%s=%r" % x for x in sorted(fs.items()))
        def body():
            ls = text(("block", [("guard", c) for c in seq]), d, form)
            if form == "cd": ls = ["block {", "cd %s" % d] + ls + ["}"]
            if form == "var": ls = ["define V '%s/%s'" % (d, seq[0][2])] + ls
            ls[-1] += " >>& %s/log" % d
            return "\n".join(ls)
        return key, body, expect
    def fresh(d, key):
        sub, files = cases[key]
        os.mkdir("%s/%s" % (d, sub)); os.chmod("%s/%s" % (d, sub), 0o777)
        for n, s in files.items():
            f = "%s/%s/%s" % (d, sub, n)
            with open(f, "w") as h: h.write(s)
            os.chmod(f, 0o666)
    def inspect(d, key, out):
        sub, _ = cases[key]
        res = []
        for n in sorted(os.listdir("%s/%s" % (d, sub))):
            with open("%s/%s/%s" % (d, sub, n), encoding="utf-8", errors="surrogateescape") as h: res.append("%s=%r" % (n, h.read()))
        shutil.rmtree("%s/%s" % (d, sub))
        if out != "": res.append("shell=%s" % (out,))
        return "\n".join(res)
    def gen():
        one, small = list(singles(plain)), list(singles(cheap, NAMES))
        nest = list(nested())
        for i in INITIAL:
            for c in one:
                yield case(i, [c])
                yield case(i, [c], "var")
                yield case(i, [c], "cd")
                if " " not in c[2]: yield case(i, [c], "sym")
                if i and c[2] in INITIAL[i]: yield case(i, [c], "glob")
            for k, c in enumerate(nest):
                yield case(i, [c])
                if k % 8 == 2 or not q: yield case(i, [c], "cd")
        for i in INITIAL:
            for c in itertools.product(small, repeat=2): yield case(i, c)
        if q: return
        for i in INITIAL:
            for c in deeper(): yield case(i, [c])
            for c in nest:
                for x in small[::3]: yield case(i, [c, x])
        mini = [c for c in small if c[2] in NAMES and c[3][0] != "block"]
        for i in INITIAL:
            for c in itertools.product(mini, repeat=3): yield case(i, c)
    vc.enumerate_batches(ctx, gen, oh, prelude=PRELUDE, setup=setup, env=env, fresh=fresh, inspect=inspect, name="histories of redirections", size=200)

    # The file is closed once the command has ended, however it ended: the shell has no descriptor of it left.
    def closed():
        bodies = {"builtin": ["write x"], "external": ["both y"], "block": ["block {", "    write x", "    both y", "}"], "throws": ["block {", "    write x", "    throw e", "}"],
                  "not found": ["nosuch"], "fails": ["sh -c 'exit 3'"], "reads": ["mine"], "read error": ["block {", "    read", "}"], "task": ["block {", "    spawn {", "        write x", "    }", "    wait", "}"],
                  "pipeline": ["block {", "    write x | cat", "}"], "capture": ["block {", "    write `(write x)", "}"]}
        ops = list(OUT) + ["<"]
        def guarded(ls): return ["(method () {", "    catch ex {", "        return ()", "    }"] + ["    " + l for l in ls] + ["})"]
        n = 0
        for names in itertools.chain(((o,) for o in ops), itertools.product(ops, repeat=2)):
            for b, ls in bodies.items():
                for guard in (False, True):
                    if guard and len(names) == 1: continue
                    n += 1
                    out = list(ls)
                    out[-1] += " %s q%d/f0" % (names[0], n)
                    if len(names) > 1:
                        out = ["block {"] + ["    " + l for l in (guarded(out) if guard else out)] + ["} %s q%d/f1" % (names[1], n)]
                    yield "closed: %s %s%s" % (" ".join(names), b, " guarded" if guard else ""), \
                        "command mkdir q%d\ncommand cp two q%d/f0\ncommand cp two q%d/f1\n" % (n, n, n) * ("<" in names) + "command mkdir -p q%d\n" % n + "\n".join(guarded(out)) + "\nsh -c 'ls -l /proc/$PPID/fd | grep -c /q%d/'" % n, "0\n"
    def quiet(key, body, exp, out): return isinstance(out, str) and out.split("\n")[-2:] == ["0", ""]
    def setup2(d):
        setup(d)
        with open(d + "/two", "w") as f: f.write("one\ntwo\n")
    vc.enumerate_batches(ctx, closed, oh, judge=quiet, prelude=PRELUDE, setup=setup2, env=lambda d: dict(env(d), GOGC="off"), name="files closed after redirections", size=50)

    # What open does with each mode, and what is then written and read.
    def opened():
        start = {"missing": None, "empty": "", "two": "A\nB\n", "open end": "A\nB"}
        modes = ["".join(m) for k in range(5) for m in itertools.permutations("rwa-", k)]
        acts = [a for k in range(0, 4) for a in itertools.product("WLR", repeat=k)]
        n = 0
        for m, (sn, text), a in itertools.product(modes, start.items(), acts):
            if len(m) > 1 and m != "".join(sorted(m, key="rwa-".index)) and len(a) != 2: continue
            n += 1
            f = "o%d" % n
            yield "open '%s' %s %s" % (m, sn, "".join(a)), \
                "define f: open '%s' %s\n" % (m, f) + "".join({"W": "f write-line w%d\n" % i, "L": "write (f read-line)\n", "R": "write (f read)\n"}[x] for i, x in enumerate(a)) + "f close\nwrite END", (f, m, text, a)
    def meaning(m, text, a):
        """What is printed, and what the file holds."""
        r, w = "r" in m, "w" in m or "a" in m
        if r == w: r = w = True
        if text is None and "-" in m: return "EX", None
        t = "" if text is None or ("w" in m and "a" not in m) else text
        at, buf, out = 0, None, ""
        for i, x in enumerate(a):
            if x == "W":
                if not w: return out + "EX", t
                s = "w%d\n" % i
                if "a" in m: at = len(t)
                t = t[:at] + s + t[at + len(s):]
                at += len(s)
            elif not r: out += "()\n"
            else:
                # What is read comes by way of a buffer, filled as far as it goes when it is empty.
                if not buf: buf, at = t[at:], max(at, len(t))
                while True:
                    l, nl, buf = buf.partition("\n")
                    if x == "L" or l or not nl: break
                out += "()\n" if not l and not nl else "$'%s'\n" % l if x == "L" else "%s\n" % l
        return out + "END", t
    def judge3(key, body, exp, out):
        f, m, text, a = exp
        o, t = meaning(m, text, a)
        got, _, contents = out.rpartition("file: ")
        return (got.rstrip("\n") == o or o.endswith("EX") and got.startswith(o)) and contents == repr(t)
    def look(d, key, out):
        f = names3[key][0]
        p = "%s/%s" % (d, f)
        t = None
        if os.path.exists(p):
            with open(p) as h: t = h.read()
            os.unlink(p)
        return "%sfile: %r" % (out if isinstance(out, str) else repr(out), t)
    def make(d, key):
        f, _, text, _ = names3[key]
        if text is not None:
            with open(d + "/" + f, "w") as h: h.write(text)
            os.chmod(d + "/" + f, 0o666)
    names3 = {k: e for k, _, e in opened()}
    vc.enumerate_batches(ctx, opened, oh, judge=judge3, setup=setup, env=env, fresh=make, inspect=look, name="modes of open", size=200)

    # Devices and conduits are not files to be protected.
    def others():
        for op in OPS:
            yield "device %s" % op, "write x %s /dev/null\nwrite y" % op, "y\n"
            yield "conduit %s" % op, "define c: chan 2\nwrite x %s $c\nwrite (c read)" % op, "x\n"
            yield "pipe %s" % op, "define c: pipe\nwrite x %s $c\nwrite (c read)\nwrite-line a %s $c\nwrite (c read-line)" % (op, op), "x\n$'a'\n"
        yield "device <", "write (read) < /dev/null\nwrite y", "()\ny\n"
        yield "channel <", "define c: chan 2\nc write x\nwrite (read) < $c", "x\n"
        yield "several files", "write x > /etc/host*\nwrite y", "EX $'can\\'t redirect to/from multiple files'\n"
    vc.enumerate_batches(ctx, others, oh, name="devices and conduits")
    ctx.cov["rule"] = "every history of redirected commands up to the bounds over every initial file system"
