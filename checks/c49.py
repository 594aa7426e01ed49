"""C49: history survives restarts intact."""
import errno, itertools, os, time
import sysfault, vc
from pty_session import RC, Session
PROP, LEVEL = "C49", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of sequences of interactive sessions of the real shell on a pseudo terminal against a reference history, and an error injected at every operation on the history file"
NOTE = "Sessions of up to two entries (thorough: three) followed by a session of one, ending by exit or end of input; files of up to 1003 lines of up to 100000 bytes. A session that is killed is not covered. The operations are those of Go's package syscall, which is built with a hook for this."
LONG = "write-line " + "x" * 5000
ENTRIES = {  # what is typed and what is entered; a number is a line recalled from that far back
    "a": (["write-line a"], None), "b": (["write-line b"], None), "empty": ([""], None), "spaces": (["  write-line  c  "], None), "utf": (["write-line 'é 漢 \U0001f600'"], None),
    "cd": (["cd /"], None), "block": (["block {", "    write-line d", "}"], None), "bad": (["write-line )"], None), "throw": (["throw oops"], None), "long": ([LONG], None), "comment": (["# e"], None),
    "abort": (["write-line f\x03"], []), "up": (["\x1b[A"], [1]), "up2": (["\x1b[A\x1b[A"], [2]), "half": (["block {", "write-line g\x03"], ["block {"]),
    "blank": (["   "], None), "quoted": (["write-line 'h", "", "  ", "i'"], None)}
ENDS = {"end": ("\x04", []), "exit": ("exit\r", ["exit"]), "exit 3": ("exit 3\r", ["exit 3"])}

def enter(h, line):
    if isinstance(line, int):
        line = h[-line] if len(h) >= line else h[0] if h else ""
    put(h, line)
    return line

def put(h, line):
    if line and (not h or h[-1] != line):
        h.append(line)
    del h[:-1000]

def session(oh, d, h, names, end, extra=None):
    """Runs a session; returns its history as it should be, what went wrong, and what was printed."""
    env = dict(vc.scratch_env(d, "/nonexistent"), OH_RC=d + "/rc", OH_HISTORY=d + "/h/history", TERM="xterm")
    env.update(extra or {})
    h = list(h)
    s = Session([oh], env, d)
    try:
        for name in names:
            typed, entered = ENTRIES[name]
            for line in typed:
                if not s.prompt():
                    return h, "no prompt for %s" % name, s.out
                if line.endswith("\x03"):   # an interrupt that comes before the shell reads keys is not one of the line
                    s.type(line[:-1].encode())
                    s.read(line[:-1].encode(), 10)
                    s.type(b"\x03")
                else:
                    s.type(line.encode() + b"\r")
            for line in typed if entered is None else entered:
                line = enter(h, line)
                if line.startswith("exit") and name.startswith("up"):
                    st = s.end()
                    return h, None if st == (3 if line == "exit 3" else 0) else "the session ended with status %s" % st, s.out
                if (line.startswith("block") or line.count("'") % 2) and name.startswith("up"):
                    if not s.prompt():
                        return h, "no prompt after %s" % line, s.out
                    s.type(b"xyz")
                    s.read(b"xyz", 10)
                    s.type(b"\x03")
        if not s.prompt():
            return h, "no prompt at the end", s.out
        s.type(ENDS[end][0].encode())
        for line in ENDS[end][1]:
            enter(h, line)
        st = s.end()
        if st != (3 if end == "exit 3" else 0):
            return h, "the session ended with status %s" % st, s.out
        return h, None, s.out
    finally:
        s.close()

def saved(d):
    try:
        with open(d + "/h/history", "rb") as f:
            t = f.read().decode(errors="replace")
    except FileNotFoundError:
        return None
    return t.split("\n")[:-1] if t.endswith("\n") or not t else t.split("\n") + ["(no newline)"]

def differ(got, want):
    if got == want:
        return None
    if got is None:
        return "no history was saved"
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return "the saved history has %d lines and not %d; the first that differs is %d: %.80r and not %.80r" % (len(got), len(want), k, got[k:k + 1], want[k:k + 1])

def fresh(d, lines=None, newline=True):
    h = d + "/h"
    if os.path.isdir(h):
        os.chmod(h, 0o777)
    p = h + "/history"
    if os.path.isdir(p):
        os.rmdir(p)
    elif os.path.lexists(p):
        os.unlink(p)
    if lines is not None:
        with open(p, "wb") as f:
            f.write(("\n".join(lines) + ("\n" if newline and lines else "")).encode())
        os.chmod(p, 0o666)

def run(ctx):
    q = ctx.quick
    oh = sysfault.build(ctx, ["histmain/zz_verif_hist.go"])
    limit = ctx.start + (200 if q else 840)
    def place(w):
        d = os.path.join(ctx.scratch, "s%d" % w)
        if not os.path.isdir(d):
            os.makedirs(d + "/h"); os.chmod(d, 0o777); os.chmod(d + "/h", 0o777)
            with open(d + "/rc", "w") as f:
                f.write(RC)
        return d
    def sweep(fam, cases, judge):
        """judge(d, case) -> violation or None, for every case."""
        cases = list(cases)
        def work(w):
            d, bad, n = place(w), [], 0
            for key, case in cases[w::vc.NCPU]:
                if time.time() > limit:
                    return n, bad, False
                n += 1
                what, out = judge(d, case)
                if what:
                    what, out = judge(d, case)   # again, before saying so
                if what:
                    bad.append((key, what, out))
                    if len(bad) > 3:
                        break
            return n, bad, True
        total = 0
        for n, bad, done in vc.pool(work, list(range(vc.NCPU))):
            total += n
            ctx.exhaustive &= done
            for key, what, out in bad:
                ctx.violation("%s: %s: %s" % (fam, key, what), "%s: %s: %s" % (fam, key, what), "sessions: %s\n%s\n\nterminal:\n%s\n" % (key, what, out.decode(errors="replace")[-3000:]))
        ctx.count(states=len(cases), transitions=total * 2, traces=total)
        ctx.cov.setdefault("families", []).append({"family": fam, "cases": len(cases), "done": total})

    # Sequences of sessions.
    def sequences():
        k, ends = 0, list(ENDS)
        for n in range(0, 3 if q else 4):
            for s in itertools.product(ENTRIES, repeat=n):
                for i, t in enumerate(ENTRIES):
                    k += 1
                    if n == 3 and (k + i) % 3:
                        continue
                    yield "%s; %s" % (" ".join(s), t), (s, ends[(k + i) % 3], t, ends[(k + i // 3) % 3])
    def judge(d, case):
        s, e1, t, e2 = case
        fresh(d)
        h, bad, out = session(oh, d, [], s, e1)
        bad = bad or differ(saved(d), h)
        if bad:
            return "first session: " + bad, out
        h, bad, out = session(oh, d, h, [t], e2)
        bad = bad or differ(saved(d), h)
        return bad and "second session: " + bad, out
    sweep("two sessions", sequences(), judge)

    # Histories that were saved before.
    def files():
        for n in (0, 1, 2, 998, 999, 1000):
            for s in [(), ("a",), ("a", "b"), ("up",), ("up2",), ("a", "a"), ("empty",)] + ([("a", "b", "a")] if not q else []):
                yield "%d lines; %s" % (n, " ".join(s)), (["old %d" % i for i in range(n)], s, True)
        for size in (1, 63, 64, 4094, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, 100000):
            for at in (0, 1, 2):
                for nl in (True, False):
                    l = ["# 0", "# 1", "# 2"]
                    l[at] = "é" * (size // 4) + "y" * (size - size // 4 * 2)
                    yield "line %d has %d bytes%s" % (at, size, "" if nl else ", no newline at the end"), (l, ("a",), nl)
        for n in (2, 10, 100, 1000):
            yield "%d lines of 3000 bytes" % n, (["%d " % i + "z" * 3000 for i in range(n)], ("a", "up2"), True)
    def judge_file(d, case):
        lines, s, nl = case
        fresh(d, lines, nl)
        h, bad, out = session(oh, d, lines, s, "exit")
        return bad or differ(saved(d), h), out
    sweep("saved before", files(), judge_file)

    # What cannot be read or written.
    def states():
        for what in ("unreadable", "unwritable", "directory", "no directory", "unreadable directory"):
            for e in ENDS:
                yield "%s; %s" % (what, e), (what, e)
    def judge_state(d, case):
        what, end = case
        old = ["old 1", "old 2"]
        fresh(d, old)
        extra = {}
        p = d + "/h/history"
        if what == "unreadable": os.chmod(p, 0o222)
        elif what == "unwritable": os.chmod(p, 0o444); os.chown(p, 0, 0)
        elif what == "directory": fresh(d); os.mkdir(p)
        elif what == "no directory": extra = {"OH_HISTORY": d + "/none/history"}
        elif what == "unreadable directory": os.chmod(d + "/h", 0)
        h, bad, out = session(oh, d, [], ("a",), end, extra)
        if not bad and b"\r\na\r\n" not in out:
            bad = "the command did not run"
        if not bad and b"denied" not in out and b"directory" not in out:
            bad = "nothing was said"
        os.chmod(d + "/h", 0o777)
        if not bad and what == "unwritable" and saved(d) != old:
            bad = "the history changed"
        if what == "unwritable": os.unlink(p)
        return bad, out
    sweep("cannot be read or written", states(), judge_state)

    # Every operation on the history file fails.
    def faults():
        d = place(0)
        for name, old in (("none", None), ("short", ["old 1", "old 2"]), ("long", ["%d " % i + "z" * 3000 for i in range(20)])):
            fresh(d, old)
            log = d + "/log"
            session(oh, d, old or [], ("a",), "end", {"VERIF_HIST_DIR": d + "/h", "VERIF_HIST_LOG": log})
            ops = [l.split()[1] for l in open(log)]
            os.unlink(log)
            for i, op in enumerate(ops):
                for e in (errno.EIO, errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.ENOENT):
                    for end in ENDS:
                        yield "%s history, operation %d (%s) fails with %s; %s" % (name, i, op, errno.errorcode[e], end), (old, i, op, e, end)
    def judge_fault(d, case):
        old, i, op, e, end = case
        fresh(d, old)
        h, bad, out = session(oh, d, old or [], ("a",), end, {"VERIF_HIST_DIR": d + "/h", "VERIF_HIST_LOG": d + "/log", "VERIF_HIST_FAULT": "%d %d" % (i, e)})
        ops = [l.split()[1] for l in open(d + "/log")]
        os.unlink(d + "/log")
        if bad or len(ops) <= i:
            return bad, out
        said = os.strerror(e).lower().encode() in out.lower()
        got = saved(d)
        if b"\r\na\r\n" not in out:
            return "the command did not run", out
        if got == h:
            return None, out
        if e == errno.ENOENT and i == 0:    # a missing file is an empty history
            return differ(got, h[len(old or []):]), out
        if not said:
            return "nothing was said, and " + differ(got, h), out
        return None, out
    sweep("operations that fail", faults(), judge_fault)
    ctx.cov["rule"] = "every sequence of entries up to the bound, every saved history of the listed sizes, every operation on the history file failing with each of five errors"
