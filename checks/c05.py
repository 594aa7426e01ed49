"""C05: what write prints, read reads back."""
import itertools
import readv, vc
PROP, LEVEL = "C05", "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of value trees through the real write and read"
NOTE = "Exhaustive for every tree up to the stated size over awkward leaves and every string and symbol up to the stated length; every shape of larger trees over two leaves, and chains of up to 1000 pairs with something nested at each place; symbols containing shell metacharacters are outside the property."

def run(ctx):
    q = ctx.quick
    fams = [("%s, size %d" % (f, n), ["-fam", f, "-n", str(n)]) for f, ns in (
        ("strings", (0, 1, 2) if q else (0, 1, 2, 3)), ("symbols", (0, 1, 2, 3)), ("numbers", (1,)), ("long", (1,)),
        ("trees", (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5)), ("shapes", (4, 5, 6) if q else (4, 5, 6, 7, 8)), ("spines", (1,)), ("args", (1, 2, 3) if q else (1, 2, 3, 4))) for n in ns]
    ctx.cov["rule"] = "every tree of pairs of the given size over the leaf alphabet, every string/symbol of the given length over an alphabet of awkward characters, written to a pipe (checked to be one line) and read back; compared structurally, with types"
    readv.explore(ctx, fams, 60 if q else 700, harness="valrt", confirms=False)
    # The same through the shell's own write and read.
    oh = ctx.build_oh()
    leaf = ["a", "''", "'x y'", "1", "(|number 1/2|)", "(|number -7|)", "(|status 3|)", "()", "true", "(symbol 'p q')", "$'\\n\\t'", "'$('", "(bool 1)"]
    lists = ["(list)", "(list a)", "(list 'a b' (list (list) c))", "(cons a b)", "(cons a (cons 'b' c))", "(list (cons () d) e)", "(cons (list a) (list b))"]
    def val(x):
        return x if x.startswith(("(", "'", "$")) else "(quote %s)" % x
    def gen():
        vs = leaf + lists
        for n in (1, 2) if q else (1, 2, 3):
            for t in itertools.product(vs, repeat=n):
                body = ("define p: pipe\ndefine l: list %s\np write (splice $l)\np write-line end\ndefine m: p read-list\nwrite-line (equal? $l $m)\n"
                        "write-line (p read-line)\np write (splice $l)\nwrite-line (equal? (l head) (p read))\np close") % " ".join(val(x) for x in t)
                yield " ".join(t), body, "true\nend\ntrue\n"
    vc.enumerate_batches(ctx, gen, oh, name="lists of values written and read by the shell")
