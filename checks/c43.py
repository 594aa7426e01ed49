"""C43: wildcards expand to exactly the matching names."""
import itertools, os, posixpath
import vc
from ohval import *
from checks_common import build_probe, install, hexed
PROP, LEVEL = "C43", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of patterns and current directories on the real shell, against a reference matcher over the same directory tree"
NOTE = "Exhaustive over patterns of up to 4 (thorough 5) tokens of a 16 token alphabet in 7 current directories and 6 prefixes. Not covered: patterns ending in a separator, .. after a wildcard, an escape in an element before the first wildcard."
# The tree. None is a file, a string a symbolic link.
TREE = {"a": None, "b": None, ".a": None, "a b": None, "ab": None, "a.b": None, "*": None, "[": None, "é": None, "-": None, "d": {"a": None, ".h": None, "b": {"a": None}, "[a]": None}, ".e": {"a": None}, "d d": {"a": None},
        "n": {}, "[w]*": {"a": None, "b": None, "?": {"a": None}}, "w": {"a": None, "x": None}, "l": "d", "broken": "nowhere", "u~": None, "back\\slash?": {"a": None, "b": None}}
TOKENS = ["a", "b", ".", "*", "?", "[a]", "[^a]", "[a-c]", "/", "d", "\\*", "\\[", "é", "[*?]", "**", " "]
CWDS = ["", "d", "[w]*", "n", "l", "back\\slash?", "[w]*/?"]
PREFIX = ["", "./", "../", "@", "~/", "../../T/"]

def build(d, tree):
    os.makedirs(d, exist_ok=True); os.chmod(d, 0o755)
    for n, v in tree.items():
        p = d + "/" + n
        if v is None:
            with open(p, "w"): pass
        elif isinstance(v, str): os.path.islink(p) or os.symlink(v, p)
        else: build(p, v)

# ---- The reference.
def node(path):
    """The node an absolute path below /T leads to, links followed; False if there is none."""
    cur, stack = TREE, []
    parts = [p for p in path.split("/") if p]
    if not parts or parts[0] != "T": return {"T": TREE} if not parts else False
    stack = [{"T": TREE}, TREE]
    for p in parts[1:]:
        c = stack[-1]
        if not isinstance(c, dict): return False
        if p == ".": continue
        if p == "..":
            if len(stack) > 1: stack.pop()
            continue
        if p not in c: return False
        v = c[p]
        if isinstance(v, str):
            if v not in c: return False
            v = c[v]
        stack.append(v)
    return stack[-1]
def exists(path):
    h, t = posixpath.split(path)
    if t in (".", ".."): return node(path) is not False
    n = node(h)
    return isinstance(n, dict) and t in n
def tokens(p):
    i, out = 0, []
    while i < len(p):
        c = p[i]
        if c == "\\":
            if i + 1 >= len(p): return None
            out.append(("lit", p[i + 1])); i += 2
        elif c == "*": out.append(("star",)); i += 1
        elif c == "?": out.append(("any",)); i += 1
        elif c == "[":
            i += 1
            neg = i < len(p) and p[i] == "^"
            i += neg
            ranges = []
            while True:
                if i < len(p) and p[i] == "]" and ranges: i += 1; break
                if i >= len(p) or p[i] in "-]": return None
                if p[i] == "\\": i += 1
                if i >= len(p): return None
                lo = hi = p[i]; i += 1
                if i < len(p) and p[i] == "-":
                    i += 1
                    if i >= len(p) or p[i] in "-]": return None
                    if p[i] == "\\": i += 1
                    if i >= len(p): return None
                    hi = p[i]; i += 1
                if i >= len(p): return None
                ranges.append((lo, hi))
            out.append(("class", neg, ranges))
        else: out.append(("lit", c)); i += 1
    return out
def match(ts, name):
    if ts and ts[0][0] != "lit" and name.startswith("."): return False
    def at(i, j):
        if i == len(ts): return j == len(name)
        t = ts[i]
        if t[0] == "star": return any(at(i + 1, k) for k in range(j, len(name) + 1))
        if j == len(name): return False
        c = name[j]
        ok = t[1] == c if t[0] == "lit" else True if t[0] == "any" else any(lo <= c <= hi for lo, hi in t[2]) != t[1]
        return ok and at(i + 1, j + 1)
    return at(0, 0)
META = set("*?[")
def expand(word, cwd):
    """None: no match. cwd and the result as in the tree (/T/...), relative to cwd if the word was."""
    if word == "~" or word.startswith("~/"):
        base, rest, rel = "/T/w", word[2:], None
    elif word.startswith("@"): base, rest, rel = "", word[1:], None
    elif word.startswith("/"): return "skip"
    else: base, rest, rel = cwd, word, cwd
    parts = rest.split("/")
    if "" in parts: return "skip"
    seen = False
    found = [""]   # with a leading separator
    for i, p in enumerate(parts):
        if not META & set(p):
            if "\\" in p: return "skip"
            if p in (".", "..") and seen: return "skip"
            found = [f + "/" + p for f in found if i < len(parts) - 1 and not seen or exists(base + f + "/" + p)]
            continue
        seen = True
        ts = tokens(p)
        if ts is None: return "skip"   # a malformed pattern: no match or an error, both throw
        nxt = []
        for f in found:
            n = node(base + f)
            if isinstance(n, dict): nxt += [f + "/" + x for x in sorted(n, key=lambda s: s.encode()) if match(ts, x)]
        found = nxt
    res = []
    for f in found:
        full = posixpath.normpath(base + f)
        res.append(posixpath.relpath(full, rel) if rel else "@D" + full)
    return res or None

def above(cwd, word):
    """Does the word leave the directory that holds the tree?"""
    depth = 1 + len([x for x in cwd.split("/") if x])
    for p in word.split("/"):
        depth += -1 if p == ".." else 0 if p in ("", ".") else 1
        if depth < 0: return True
    return False

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    def setup(d):
        install(probe, d, "bin/probe")
        build(d + "/S/T", TREE)
    env = lambda d: vc.scratch_env(d + "/S/T/w", d + "/bin:/usr/bin:/bin")
    inspect = lambda d, key, out: out.replace(d + "/S", "@D") if isinstance(out, str) else out
    PRE = "define base: sys get OLDPWD\ndefine show: method (l) {\n    for $l (method (x) {\n        write $x\n    })\n    return ()\n}\n"
    def pat(word):
        w = word
        if w.startswith("@"): return '(symbol (mend "" $base /%s))' % quote(w[1:])
        return "(symbol %s)" % quote(w)
    def patterns():
        seen = set()
        for n in range(1, 5 if q else 6):
            toks = TOKENS if n < 4 else TOKENS[:12] if n == 4 else TOKENS[:9]
            for t in itertools.product(toks, repeat=n):
                w = "".join(t)
                if w not in seen and META & set(w):
                    seen.add(w); yield w
    def words():
        for k, w in enumerate(patterns()):
            places = list(itertools.product(CWDS, PREFIX))
            if len(w) > 2: places = [p for i, p in enumerate(places) if (i + k) % (14 if q else 5) == 0]
            yield w, places
    def gen():
        for w, places in words():
            for cwd, pre in places:
                if pre == "../../T/" and cwd in ("", "[w]*/?"): continue
                word = ("@T/" if pre == "@" else pre) + w
                if pre[0:1] not in ("@", "~") and above(cwd, word): continue
                def exp(word=word, cwd=cwd):
                    r = expand(word, posixpath.normpath("/T/" + cwd))
                    if r == "skip": return None
                    if r is None: return "EX %s\n" % lit(Str("no matches found: " + word.replace("@", "@D/", 1)))
                    return "".join(lit(Str(x)) + "\n" for x in r)
                yield "%r in %r" % (word, cwd), "cd \"${base}/\"%s\nshow (glob %s)" % (quote("T/" + cwd), pat(word)), exp
    def judge(key, body, exp, out):
        if isinstance(out, str) and out.startswith("EX ") and exp.startswith("EX "): return True
        return exp == out
    # $base is where the shell started.
    PRE = PRE.replace("define base: sys get OLDPWD", "define base \"${PWD}/S\"")
    vc.enumerate_batches(ctx, gen, oh, prelude=PRE, setup=setup, env=env, inspect=inspect, judge=judge, name="patterns in every directory", size=400)

    # As words of a command, next to what must never be expanded.
    def commands():
        simple = [w for w in patterns() if not set(w) & set("\\ ") and len(w) < 4]
        for w in simple:
            r = expand(w, "/T")
            if r == "skip": continue
            body = "cd \"${base}/T\"\ndefine v '%s'\ndefine s (symbol '%s')\ndefine o: object {\n    export m '%s'\n}\n" % (w, w, w)
            body = "define v '%s'\n" % w + "cd \"${base}/T\"\nprobe %s '%s' \"%s\" $v \"${v}\" (mend '' $v) (splice (list $v)) x\n" % (w, w, w)
            fixed = [w] * 6 + ["x"]
            yield "word %s" % w, body, "EX\n" if r is None else hexed("probe", *(r + fixed))
            if r is None: yield "unmatched %s" % w, "cd \"${base}/T\"\nprobe a %s\nwrite ran" % w, "EX\n"
            else: yield "head %s" % w, "cd \"${base}/T\"\nprobe %s a %s" % (w, w), hexed("probe", *(r + ["a"] + r))
        for t, x in (("~", "@D/T/w"), ("~/", "@D/T/w"), ("~/x", "@D/T/w/x"), ("~/nosuch/y", "@D/T/w/nosuch/y"), ("'~'", "~"), ("\"~\"", "~"), ("$t", "~"), ("a~", "a~"), ("./~", "./~"), ("x=~", "x=~"), ("a/~/b", "a/~/b")):
            yield "tilde %s" % t, "define t '~'\ndefine f: method ((a)) {\n    return $a\n}\nwrite-line (probe %s) (splice ())" % t, hexed("probe", x) + "0\n"
        for t in ("a", "a.b", ".a", "d/a", "nosuch", "./a", "../x", "d//a", "d/./a", "a]", "^a", "-", "--", "{a,b}", "x{a}"):
            if "{" in t: continue
            yield "plain %s" % t, "cd \"${base}/T\"\nprobe %s" % t, hexed("probe", t)
    def decode(d, key, out):
        if not isinstance(out, str): return out
        if out.startswith("EX "): return "EX\n"
        import re
        return re.sub(r"<([0-9a-f]*)>", lambda m: "<%s>" % bytes.fromhex(m.group(1)).decode("utf-8", "surrogateescape").replace(d + "/S", "@D").encode("utf-8", "surrogateescape").hex(), out)
    vc.enumerate_batches(ctx, commands, oh, prelude=PRE, setup=setup, env=env, inspect=decode, name="words of commands", size=200)
    ctx.cov["rule"] = "every pattern of up to the bound of tokens; all current directories and prefixes for short patterns, a fixed rotation of them for longer ones"
