"""C52: completion adds what continues the word and does nothing else."""
import itertools, json, os
import vc
from pty_session import RC, Session
PROP, LEVEL = "C52", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of texts, cursor positions, earlier lines and directories through the shell's own completer, compared with a reference and with a reader that was never asked; keys typed on a pseudo terminal"
NOTE = "Exhaustive over every text of up to three tokens at every cursor position after every kind of unfinished line, over every word form in every subset of a directory's entries and several current directories, and over every command of up to three words in every context. The shell's main package gets one extra file, through an overlay, that asks the completer the shell gives to its line editor; programmable completions (the routine complete) are replaced by one that shows what it was asked."

TOKENS = ["a", " ", "(", ")", "{", "}", "'", '"', "\\", "$", "`", "|", "&", ";", "<", ">", "#", "=", "~", "/", "*", ":", "(mark)", "é"]
PRIOR = [[], ["a {"], ["a 'b"], ["a \"b"], ["a (b"], ["a \\"], ["a &&"], ["a |"], ["a {", "b c"], ["a {", "b '", "c"], ["a; b {"], ["#"], ["a {", "}"]]

def texts(q):
    """Every text, at every position, after every unfinished line."""
    for n in range(0, 4 if q else 5):
        for ts in itertools.product(TOKENS, repeat=n):
            s = "".join(ts)
            size = len(s.encode())
            at = [len(s[:i].encode()) for i in range(len(s) + 1)]
            for k, p in enumerate(PRIOR):
                if n >= 3 and q and k not in (0, 1, 2, 8): continue
                if n >= 4 and k not in (0, 1): continue
                yield "text %r after %r" % (s, p), dict(Lines=p, Line=s, At=at, Repeat=2 if n < 3 else 1), None

ENTRIES = ["a", "ab", "b", ".h", "d/", "da/", "d/a", "d/.k", "d/e/", "c d"]
WORDS = ["", "a", "ab", "abc", "b", "d", "d/", "d/a", "d/.", "d/.k", "d/e", "d/e/", "./", "./a", "./d/", "./.", "../", "../x", "../x/", "../x/a", "..", ".", ".h", ".x", "~", "~/", "~/d", "~/.", "~a", "d//a", "d/../a", "d/./a", "d/e/../a", "./d/../a", "d/../../x/a", "X", "X/", "X/a", "X/d/", "X/d/../a", "no/", "no/a", "a/", "x=a", "-a", "a*"]

def expect(word, cwd, home, tree):
    """The completions of a word: tree maps a directory to its names."""
    if word == "~": return {"~/"}
    part, base = word[:word.rfind("/") + 1], word[word.rfind("/") + 1:]
    if part.startswith("~/"): d = home + part[1:]
    elif part.startswith("/"): d = part
    else: d = cwd + "/" + part
    d = os.path.normpath(d)
    if d.startswith("//"): d = d[1:]
    return {part + n for n in tree.get(d, ()) if n.startswith(base) and (base or not n.startswith("."))}

def scan(root):
    t = {}
    for d, ds, fs in os.walk(root):
        t[d] = [x + "/" for x in ds if not os.path.islink(d + "/" + x)] + [x for x in ds if os.path.islink(d + "/" + x)] + fs
    return t

def commands(q):
    """Every command of plain and other words, in every context, and the words its completion must be told."""
    plain = ["a", "d/a", "'c d'", "-x", "a*"]
    odd = ["$v", "(mark)", "`(mark)", "\"${v}\"", "x=(mark)", "{mark}", "$$", "$no", "(nosuch b)", "(throw x)", "(exit 3)"]
    text = {"'c d'": "c d"}
    ctx = ["%s", "x; %s", "x && %s", "x || %s", "x | %s", "x & %s", "(%s", "w (%s", "x: %s", "`(%s"]
    for n in range(1, 4 if q else 5):
        for ws in itertools.product(plain + odd, repeat=n):
            if sum(w in odd for w in ws) > 1 and n > 2 or n > 1 and ws[0] not in ("a", "$v", "(mark)"): continue
            for c in ctx:
                if n > 2 and c not in ctx[:3]: continue
                for partial in ("", "a", "d/", "zz"):
                    l = c % (" ".join(ws) + " " + partial)
                    yield "command %r" % l, dict(Line=l, At=[len(l)], Repeat=1), ([text.get(w, w) for w in ws] if not any(w in odd for w in ws) and ":" not in c else None, partial, c == "%s")

def judge(req, rep, kind, exp, ctxd):
    """What is wrong with a reply, or None."""
    if rep.get("Hang"): return "completion does not return"
    if rep.get("Panic"): return rep["Panic"]
    if rep["Before"] != rep["After"]: return "the lines are read as %r, and as %r when completion was asked for" % (rep["Before"], rep["After"])
    line = req["Line"].encode()
    at = [i for i in req["At"] for _ in range(req["Repeat"])]
    if len(at) != len(rep["Answers"]): return "the answers do not match the requests: %r" % rep
    for i, a in zip(at, rep["Answers"]):
        if a["Tail"].encode() != line[i:] and a["Tail"].encode().decode("utf-8") != line[i:].decode("utf-8", "replace"): return "what follows the cursor at %d becomes %r" % (i, a["Tail"])
        for w in (a["Words"] or []):
            if w.startswith("@"):
                if w != "@0": return "a command in the line was run when completion was asked for"
                continue
            if exp is None and kind == "text": continue
    if kind == "text":
        for i, a in zip(at, rep["Answers"]):
            if not line[:i].startswith(a["Head"].encode()): return "the text before the cursor at %d becomes %r" % (i, a["Head"])
    if kind == "file":
        a = rep["Answers"][0]
        word, names = exp
        got = set(a["Words"] or [])
        got -= {"@0", "f"}
        got.discard(word) if word not in names else None
        if a["Head"] != "f ": return "the text before the word becomes %r" % a["Head"]
        if got != names: return "completions of %r: %r, must be %r" % (word, sorted(got), sorted(names))
    if kind == "command":
        words, partial, alone = exp
        a = rep["Answers"][0]
        got = set(a["Words"] or [])
        if got or words is not None:
            if a["Head"] != req["Line"][:len(req["Line"]) - len(partial)]: return "the text before the word becomes %r" % a["Head"]
        names = ctxd[partial]
        if words is not None:
            want = names | set(words) | {partial, "@0"}
            if got != want: return "offered: %r, must be: %r" % (sorted(got), sorted(want))
        elif alone and not names <= got: return "offered: %r, must include: %r" % (sorted(got), sorted(names))
    return None

def ask(ctx, oh, d, reqs, cwd, home, timeout):
    env = dict(vc.scratch_env(home), VERIF_COMPLETE="1", PWD=cwd)
    first = [dict(Eval=c, Lines=[], Line="", At=[], Repeat=0) for c in COMPLETE_CMDS + ["cd '%s'" % cwd]]
    st, out, err = vc.run([oh], d, timeout, env, "".join(json.dumps(r) + "\n" for r in first + reqs).encode())
    ls = out.decode("utf-8", "replace").split("\n")[len(first):]
    return [json.loads(l) for l in ls if l.endswith("}")], st, err.decode("utf-8", "replace")[-500:]

COMPLETE_CMDS = ["define hits 0", "define mark: method () {\n    set hits: add $hits 1\n    return x\n}", "define v V", "define complete: method ((args)) {\n    return (cons _c (cons (mend '' '@' $hits) $args))\n}"]

def make(root, names):
    os.makedirs(root)
    for n in names:
        p = root + "/" + n
        if n.endswith("/"): os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
    for d, ds, fs in os.walk(root):
        os.chmod(d, 0o755)

SESSIONS = {   # the lines of a session: what is typed, and what must be seen before the next key
    "word": [[(b"cat onl", b""), (b"\t", b"onlyfile"), (b"\n", b"CONTENT")]],
    "path": [[(b"cat ./sub/o", b""), (b"\t", b"other"), (b"\n", b"OTHER")]],
    "two": [[(b"cat onl", b""), (b"\t", b"onlyfile"), (b" sub/o", b""), (b"\t", b"other"), (b"\n", b"CONTENT\r\nOTHER")]],
    "middle": [[(b"cat onl sub/other", b""), (b"\x1b[D" * 10, b""), (b"\t", b"onlyfile"), (b"\n", b"CONTENT\r\nOTHER")]],
    "block": [[(b"block {\n", None)], [(b"    cat onl", b""), (b"\t", b"onlyfile"), (b"\n", None)], [(b"write x\n", None)], [(b"}\n", b"CONTENT")]],
    "quote": [[(b"write 'a\n", None)], [(b"onl", b""), (b"\t", b""), (b"b'\n", b"$'a\\nonlb'")]],
    "nothing runs": [[(b"write (define hit: open w hit) onl", b""), (b"\t", b"onlyfile"), (b"\x03", None)]],
    "again": [[(b"cat onl", b""), (b"\t", b"onlyfile"), (b"\n", b"CONTENT")], [(b"sh -c 'exit 3'\n", None)], [(b"write $? on", b""), (b"\t", b"onlyfile"), (b"\n", b"(|status 3|) onlyfile")]],
}
def session(oh, d, lines):
    """What is wrong with a session in which keys are typed, or None."""
    os.makedirs(d + "/sub")
    for n, t in (("rc", RC), ("onlyfile", "CONTENT\n"), ("sub/other", "OTHER\n")):
        with open(d + "/" + n, "w") as f: f.write(t)
    for n in (d, d + "/sub"): os.chmod(n, 0o777)
    env = dict(vc.scratch_env(d), OH_RC=d + "/rc", OH_HISTORY=d + "/hist", TERM="xterm")
    s = Session([oh], env, d)
    try:
        for l in lines:
            if not s.prompt(20): return "no prompt before %r: %r" % (l, s.out[-300:])
            for keys, see in l:
                s.type(keys)
                if see and not s.read(see, 20): return "%r is not seen after %r: %r" % (see, keys, s.out[-300:])
        if not s.prompt(20): return "no prompt at the end: %r" % s.out[-300:]
        s.type(b"exit 5\n")
        st = s.end()
        if st != 5: return "the session ends with %r: %r" % (st, s.out[-300:])
        if os.path.exists(d + "/hit"): return "a command in the line was run when completion was asked for"
    finally:
        s.close()

def run(ctx):
    q = ctx.quick
    src = os.path.join(vc.VERIF, "harness", "compmain", "zz_verif_comp.go")
    ov = os.path.join(ctx.scratch, "ov.json")
    with open(ov, "w") as f: json.dump({"Replace": {os.path.join(vc.REPO, "zz_verif_comp.go"): src}}, f)
    oh = ctx.build_oh("ohc", extra=("-overlay", ov))
    deadline = ctx.start + (220 if q else 780)
    top = os.path.join(ctx.scratch, "t"); os.makedirs(top); os.chmod(top, 0o755)
    # Directories: every subset of the entries (those in d only with d).
    groups = []     # (kind, cwd, home, generator)
    subsets = [s for n in range(len(ENTRIES) + 1) for s in itertools.combinations(ENTRIES, n)
               if all("d/" in s for e in s if e.startswith("d/") and e != "d/") and (n in (0, 1, 2, 9, 10) or not q or n == 5 and "d/" in s)]
    for k, s in enumerate(subsets):
        make("%s/%d/x" % (top, k), s)
        make("%s/%d/h" % (top, k), ["da", ".k", "d/"])
        os.chmod("%s/%d" % (top, k), 0o755)
        groups.append(("file", "%s/%d/x" % (top, k), "%s/%d/h" % (top, k)))
    for n in ("a:b", "a b", "é", "-x"):
        make("%s/o/%s" % (top, n), ENTRIES)
        groups.append(("file", "%s/o/%s" % (top, n), top + "/o"))
    os.chmod(top + "/o", 0o755)
    groups += [("file", "/", "/")]
    make(top + "/c", ENTRIES)
    cdir = top + "/c"
    ctree = scan(cdir)
    ctxd = {p: expect(p, cdir, cdir, ctree) for p in ("", "a", "d/", "zz")}
    def file_cases(cwd, home):
        if cwd == "/":
            tree = {"/": [n + "/" if os.path.isdir("/" + n) and not os.path.islink("/" + n) else n for n in os.listdir("/")]}
            words = ["", "t", "tm", "./", "./t", "/", "/t", "/tmp/../t", "usr/../t", "../t", ".", "~", "~/t", "no"]
        else:
            tree = scan(os.path.dirname(cwd)); words = [w.replace("X", cwd) for w in WORDS if "X" not in w or " " not in cwd]
        for w in words:
            l = "f " + w
            yield "word %r in %r" % (w.replace(top, "TOP"), cwd.replace(top, "TOP")), dict(Line=l, At=[len(l.encode())], Repeat=1, Lines=[]), (w, expect(w, cwd, home, tree))
    def cases():
        for kind, cwd, home in groups:
            yield kind, cwd, home, list(file_cases(cwd, home))
        b = []
        for c in commands(q):
            c[1].setdefault("Lines", [])
            b.append(c)
            if len(b) == 200: yield "command", cdir, cdir, b; b = []
        yield "command", cdir, cdir, b; b = []
        for c in texts(q):
            b.append(c)
            if len(b) == 300: yield "text", cdir, cdir, b; b = []
        yield "text", cdir, cdir, b
    def work(w):
        import time
        d = os.path.join(ctx.scratch, "w%d" % w); os.makedirs(d); os.chmod(d, 0o777)
        bad, un, n, steps, complete, samples = [], [], 0, 0, True, []
        for k, (kind, cwd, home, b) in enumerate(cases()):
            if k % vc.NCPU != w: continue
            if time.time() > deadline: complete = False; break
            reps, st, err = ask(ctx, oh, d, [c[1] for c in b], cwd, home, 120)
            for i, (key, req, exp) in enumerate(b):
                n += 1; steps += len(req["At"]) * req["Repeat"]
                why = judge(req, reps[i], kind, exp, ctxd) if i < len(reps) else "no answer: %r %s" % (st, err)
                if why is None:
                    if len(samples) < 2 and n % 97 == 1: samples.append({"request": req, "reply": reps[i]})
                    continue
                again = []
                for _ in range(3):
                    r1, st1, err1 = ask(ctx, oh, d, [req], cwd, home, 30)
                    again.append(judge(req, r1[0], kind, exp, ctxd) if r1 else "no answer: %r %s" % (st1, err1))
                if all(again): bad.append((key, again[-1], json.dumps(req)))
                else: un.append(key)
                if len(bad) >= 4 or i >= len(reps): break
            if len(bad) >= 4: complete = False; break
        return dict(bad=bad, un=un, n=n, steps=steps, complete=complete, samples=samples)
    rs = vc.pool(work, range(vc.NCPU))
    for r in rs:
        for key, why, req in r["bad"]:
            ctx.violation(key, "%s: %s" % (key, why), "request to the completer (harness/compmain):\n%s\n\n%s\n" % (req, why))
    if not all(r["complete"] for r in rs): ctx.exhaustive = False
    real = ctx.build_oh()
    todo = list(SESSIONS.items()) if os.path.exists("/bin/bash") else []
    def work2(w):
        res = []
        for k, (key, lines) in enumerate(todo):
            if k % vc.NCPU != w: continue
            why = None
            for t in range(4):
                d = os.path.join(ctx.scratch, "s%d-%d" % (k, t)); os.makedirs(d)
                why = session(real, d, lines)
                if why is None: break
            res.append((key, why, t))
        return res
    ss = [x for r in vc.pool(work2, range(vc.NCPU)) for x in r]
    for key, why, t in ss:
        if why: ctx.violation("session: " + key, "session %r: %s" % (key, why), "keys typed and what must be seen: %r\n%s\n" % (SESSIONS[key], why))
        elif t: rs[0]["un"].append("session: " + key)
    n = sum(r["n"] for r in rs) + len(ss)
    ctx.count(states=n, transitions=sum(r["steps"] for r in rs), traces=n)
    un = [k for r in rs for k in r["un"]]
    if un: ctx.cov["unconfirmed_disagreements"] = un[:10]
    ctx.cov["samples"] = rs[0]["samples"]
    ctx.cov["rule"] = "every text up to 3 tokens of %d at every position after %d earlier inputs; %d words in %d directories; every command up to 3 words" % (len(TOKENS), len(PRIOR), len(WORDS), len(groups))
