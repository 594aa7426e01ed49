"""C03: every text up to the bound is read as the reference grammar says."""
import readv
PROP, LEVEL = "C03", "model_checking"
TECHNIQUE = "explicit-state exploration of the real reader against an executable reference grammar (bounded-exhaustive)"
NOTE = "Exhaustive for every text up to the stated token lengths; trusts the reference grammar in harness/readv/ref.go."

def run(ctx):
    q = ctx.quick
    fams = [("all token kinds, length %d" % n, ["-mode", "grammar", "-alpha", "full", "-n", str(n)]) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))]
    fams += [("core tokens, length %d" % n, ["-mode", "grammar", "-alpha", "core", "-n", str(n)]) for n in ((5,) if q else (5, 6))]
    fams += [("operator characters, length %d" % n, ["-mode", "grammar", "-alpha", "ops", "-n", str(n)]) for n in ((3, 4, 5) if q else (3, 4, 5, 6))]
    fams += [("blocks and nesting, length %d" % n, ["-mode", "grammar", "-alpha", "nest", "-n", str(n)]) for n in ((4, 5, 6) if q else (4, 5, 6, 7))]
    fams += [("literals, length %d" % n, ["-mode", "grammar", "-alpha", "meta", "-n", str(n)]) for n in ((3, 4) if q else (3, 4, 5, 6))]
    fams += [("assignment prefixes, length %d" % n, ["-mode", "grammar", "-alpha", "eq", "-n", str(n)]) for n in ((4, 5) if q else (4, 5, 6, 7))]
    fams += [("command chains, length %d" % n, ["-mode", "grammar", "-alpha", "chain", "-n", str(n), "-tail", '"z\\n"']) for n in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6))]
    fams += [("words, length %d" % n, ["-mode", "grammar", "-alpha", "word", "-n", str(n)]) for n in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6))]
    ctx.cov["rule"] = "every sequence of the family's tokens of the given length, ended by a newline, scanned line by line by the real reader; each answer compared with the reference tokenizer and grammar"
    ctx.assumptions = ["the reference grammar (harness/readv/ref.go) states the language's intended structure", "texts longer than the bound and tokens outside the alphabets are not explored"]
    readv.explore(ctx, fams, 120 if q else 780)
