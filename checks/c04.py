"""C04: quoting and escapes denote exactly the intended characters."""
import itertools, re
import vc
from ohval import *
PROP, LEVEL = "C04", "model_checking"
TECHNIQUE = "bounded-exhaustive strings in every quoting form on the real shell against an independent decoder"
NOTE = "Exhaustive over strings of the alphabet up to length 2 (thorough 3; length 3, thorough 4, over the most significant characters) in each quoting form and as variable values."
ALPHA = list("a \\'\"$`{}()*?~#;|&<>=:\n\té@[],-1")
CORE = list("x$\\\"'{} n")

def decode(s):
    out, i = b"", 0
    simple = dict(a=7, b=8, f=12, n=10, r=13, t=9, v=11); simple.update({"\\": 92, "'": 39, '"': 34})
    while i < len(s):
        if s[i] != "\\":
            out += s[i].encode(); i += 1
            continue
        if i + 1 == len(s): raise Thrown()
        c = s[i + 1]; i += 2
        if c in simple: out += bytes([simple[c]])
        elif c in "xuU":
            n = {"x": 2, "u": 4, "U": 8}[c]; h = s[i:i + n]
            if not re.fullmatch("[0-9a-fA-F]{%d}" % n, h): raise Thrown()
            out += bytes([int(h, 16)]) if c == "x" else chr(int(h, 16)).encode(); i += n
        elif re.fullmatch("[0-7]{3}", c + s[i:i + 2]):
            v = int(c + s[i:i + 2], 8)
            if v > 255: raise Thrown()
            out += bytes([v]); i += 2
        else: raise Thrown()
    return out.decode("utf-8", "surrogateescape")
def closed(s, q):
    """Is s the inside of a quoted text, that is, does no unescaped quote end it early, and no escape hide the last one?"""
    i = 0
    while i < len(s):
        if s[i] == "\\": i += 2
        elif s[i] == q: return False
        else: i += 1
    return i == len(s)
REF = re.compile(r"\$\$|\$\{[^\n]+?\}|\$[!%*+\-0-9?@A-Z\[\]^_a-z]+")
def interpolate(s, env):
    def sub(m):
        t = m[0]
        if t == "$$": return "$"
        n = t[1:]
        if n[0] == "{": n = n[1:-1]
        if n not in env: raise Thrown()
        return text(env[n])
    return REF.sub(sub, s)

def run(ctx):
    q = ctx.quick
    oh = ctx.build_oh()
    def strings(extra=0):
        seen = {}
        for n in range((3 if q else 4)):
            for t in itertools.product(ALPHA, repeat=n): seen["".join(t)] = 1
        for n in range(3, 4 if q else 5):
            for t in itertools.product(CORE, repeat=n): seen["".join(t)] = 1
        return list(seen)
    S = strings()
    ESC = ["\\" + c for c in "abfnrtv\\'\"x01789$ehuU{}*"] + ["\\x41", "\\x4", "\\xg1", "\\x00", "\\xff", "\\101", "\\377", "\\400", "\\18", "\\u00e9", "\\u20ac", "\\ue", "\\U0001f600", "\\U1", "a", "$", "é", "'", '"']
    def quoted():
        def case(kind, src, mk):
            try:
                e = " ".join(lit(Str(x)) for x in mk())
            except Thrown:
                e = None
            return "%s %r" % (kind, src), src, e
        for s in S:
            if "'" not in s:
                yield case("single", "'%s'" % s, lambda: [s])
            if closed(s, "'"):
                yield case("dollar-single", "$'%s'" % s, lambda: [decode(s)])
            yield case("dollar-single canonical", quote(s), lambda: [s])
            if closed(s, '"'):
                yield case("double", '"%s"' % s, lambda: [interpolate(decode(s), ENV)])
        for t in itertools.chain(*(itertools.product(ESC, repeat=n) for n in ((1, 2) if q else (1, 2, 3)))):
            s = "".join(t)
            if closed(s, "'"): yield case("dollar-single", "$'%s'" % s, lambda: [decode(s)])
            if closed(s, '"'): yield case("double", '"%s"' % s, lambda: [interpolate(decode(s), ENV)])
    ENV = {"@": NULL, "x": Str("$x ${n} '\\"), "n": Sym("v")}
    PRE = "define x $'$x ${n} \\'\\\\'\ndefine n v\n"
    def gen():
        for key, src, e in quoted():
            if e is not None:
                yield key, "write %s a" % src, e + " a\n"
    vc.enumerate_batches(ctx, gen, oh, prelude=PRE, name="quoted texts that denote something", size=400)
    def runtime():
        # A reference to nothing is thrown when the text is evaluated.
        for key, src, e in quoted():
            if e is None and src[0] == '"':
                try:
                    decode(src[1:-1])
                except Thrown:
                    continue
                yield key, "catch e {\n    write EX\n    return ()\n}\nwrite %s a" % src, "EX\n"
    vc.enumerate_batches(ctx, runtime, oh, prelude=PRE, name="references to undefined names", size=400)
    def bad():
        for key, src, e in quoted():
            if e is None:
                try:
                    decode(src[1 + (src[0] == "$"):-1])
                except Thrown:
                    if len(src) <= (6 if q else 8): yield key, [oh, "-c", "write %s a" % src], None, None
    def judge(exp, st, out, err, d):
        return None if out == "" and st != 0 else "an escape that denotes nothing was accepted: status %s, printed %r" % (st, out)
    vc.enumerate_runs(ctx, bad, judge, name="escapes that denote nothing", timeout=10)
    def values():
        forms = [("\"$v\"", lambda s: Str(s)), ("\"<${v}>\"", lambda s: Str("<" + s + ">")), ("\"${v}${v}\"", lambda s: Str(s + s)), ("$v", lambda s: Str(s)), ("a$v", lambda s: Str("a" + s)), ("$v'b'", lambda s: Str(s + "b")),
                 ("(list $v $v)", lambda s: lst(Str(s), Str(s))), ("\"\\${v}\"", None), ("\"$$v\"", lambda s: Str("$v")), ("'$v'", lambda s: Str("$v")), ("$'$v'", lambda s: Str("$v")), ("\"$${v}\"", lambda s: Str("${v}")), ("\"$$$v\"", lambda s: Str("$" + s)), ("(splice (list $v))", lambda s: Str(s)), ("(interpolate '${v}')", lambda s: Str(s))]
        for s in S:
            fs = [(f, g) for f, g in forms if g]
            yield "value %r" % s, "define v %s\nwrite %s" % (quote(s), " ".join(f for f, g in fs)), " ".join(lit(g(s)) for f, g in fs) + "\n"
        for s in S:
            yield "symbol %r" % s, "define v: symbol %s\nwrite \"$v\" $v a$v" % quote(s), "%s %s %s\n" % (lit(Str(s)), lit(Sym(s)), lit(Sym("a" + s)))
        for v in (Num("1/2"), Stat(3), lst(Sym("a"), Str("b c")), NULL, lst(Str("$v"), lst(Sym("x")))):
            yield "value " + lit(v), "define v %s\nwrite \"$v\" \"<${v}>\"" % src(v), "%s %s\n" % (lit(Str(text(v))), lit(Str("<%s>" % text(v))))
    vc.enumerate_batches(ctx, values, oh, name="variables holding every string", size=400)
    def names():
        # Which characters after $ belong to the name.
        for c in [chr(i) for i in range(33, 127)] + ["é", " "]:
            if c in "\"\\": continue
            for d in ("", "2", "{"):
                t = "<$x%s%s>" % (c, d)
                env = {"x": Str("X"), "x%s%s" % (c, d): Str("L")}
                if c in "!%*+-0123456789?@[]^_" or c.isalnum() and c < "\x7f":
                    full = REF.search(t)[0][1:]
                    yield "name " + t, "define x X\n(method () {\n    catch e {\n        write EX\n        return ()\n    }\n    write \"%s\"\n})" % t, lit(Str(interpolate(t, {"x": Str("X")}))) + "\n" if full == "x" else "EX\n"
                else:
                    try:
                        e = lit(Str(interpolate(t, {"x": Str("X")}))) + "\n"
                    except Thrown:
                        e = "EX\n"
                    yield "name " + t, "define x X\n(method () {\n    catch e {\n        write EX\n        return ()\n    }\n    write \"%s\"\n})" % t, e
    vc.enumerate_batches(ctx, names, oh, name="ends of names", size=100)
    def bare():
        # Outside quotes a backslash keeps the next character in the word (and stays itself).
        for n in (1, 2):
            for t in itertools.product([c for c in ALPHA if c != "\n"], repeat=n):
                s = "".join("\\" + c for c in t)
                for w in (s, "a" + s, s + "b"):
                    yield "bare " + w, "write %s x" % w, lit(Sym(w)) + " x\n"
    vc.enumerate_batches(ctx, bare, oh, name="backslash outside quotes", size=400)
    ctx.cov["rule"] = "every string of the alphabets, in every quoting form and as the value of interpolated, joined and spliced variables"
