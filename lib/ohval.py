"""Values of the reference models and how write prints them."""
from fractions import Fraction
import re

class Sym(str):
    pass
class Str(str):
    pass
class Num(Fraction):
    pass
class Stat(Fraction):
    pass
class Null:
    def __bool__(self): return False
    def __repr__(self): return "NULL"
NULL = Null()
class Cell:
    __slots__ = ("car", "cdr")
    def __init__(self, a, d):
        self.car, self.cdr = a, d
class Opaque:
    """A value equal only to itself: conduit, object, command."""
    def __init__(self, name, kind): self.name, self.kind = name, kind
class Thrown(Exception):
    pass
TRUE = Sym("true")

def lst(*xs, tail=NULL):
    r = tail
    for x in reversed(xs):
        r = Cell(x, r)
    return r
def items(c):
    out = []
    while isinstance(c, Cell):
        out.append(c.car); c = c.cdr
    if c is not NULL:
        raise Thrown("improper")
    return out
def proper(c):
    n = 0
    while isinstance(c, Cell):
        c = c.cdr
        n += 1
        if n > 10000:
            return False
    return c is NULL
def cyclic(*roots):
    """Does any structure reachable from the roots contain itself?"""
    state = {}
    def go(c):
        if not isinstance(c, Cell):
            return False
        s = state.get(id(c))
        if s is not None:
            return s == 1
        state[id(c)] = 1
        r = go(c.car) or go(c.cdr)
        state[id(c)] = 2
        return r
    return any(go(r) for r in roots)
def rat(f):
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)
def quote(s):
    esc = {"\a": "\\a", "\b": "\\b", "\f": "\\f", "\v": "\\v", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\\": "\\\\", "'": "\\'"}
    return "$'" + "".join(esc.get(c, c if " " <= c < "\x7f" else "\\x%02x" % (ord(c) & 255) if c < "\x80" or "\udc80" <= c <= "\udcff" else "\\u%04x" % ord(c) if c < "\U00010000" else "\\U%08x" % ord(c)) for c in s) + "'"
def lit(v):
    if v is NULL: return "()"
    if isinstance(v, Sym): return str(v) if v and not re.search(r"[^\x21-\x7e]|\\|'", v) else "(|symbol %s|)" % quote(v)
    if isinstance(v, Str): return quote(v)
    if isinstance(v, Num): return "(|number %s|)" % rat(v)
    if isinstance(v, Stat): return "(|status %s|)" % rat(v)
    if isinstance(v, Cell):
        if proper(v):
            return "(" + " ".join(lit(x) for x in items(v)) + ")"
        return "(|cons %s %s|)" % (lit(v.car), lit(v.cdr))
    raise Thrown("no literal")
def text(v):
    """The value in a string context."""
    if v is NULL: return "()"
    if isinstance(v, (Sym, Str)): return str(v)
    if isinstance(v, (Num, Stat)): return rat(v)
    if isinstance(v, Cell):
        if not proper(v): raise Thrown("unspecified")
        return " ".join(("(%s)" % text(x) if isinstance(x, Cell) else text(x)) for x in items(v))
    raise Thrown("no text")
def truth(v):
    if v is NULL: return False
    if isinstance(v, Num): return v != 0
    if isinstance(v, Stat): return v == 0
    return True
def boolean(b):
    return TRUE if b else NULL
def number(v):
    if isinstance(v, (Num, Stat)): return Fraction(v)
    if isinstance(v, Sym):
        if re.fullmatch(r"[+-]?\d+(/\d+)?", v) or re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", v):
            try:
                return Fraction(str(v))
            except ZeroDivisionError:
                raise Thrown("bad number")
    raise Thrown("not a number")
def equal(a, b):
    if a is b: return True
    if isinstance(a, Cell) and isinstance(b, Cell):
        return equal(a.car, b.car) and equal(a.cdr, b.cdr)
    if type(a) is not type(b): return False
    if isinstance(a, (Sym, Str)): return str(a) == str(b)
    if isinstance(a, (Num, Stat)): return Fraction(a) == Fraction(b)
    return False
def src(v):
    """A source expression for the value."""
    if v is NULL: return "()"
    if isinstance(v, Sym):
        if re.fullmatch(r"[A-Za-z0-9_+-]+", v): return "(quote %s)" % v
        return "(symbol '%s')" % v
    if isinstance(v, Str): return "'%s'" % v if "'" not in v else "$'%s'" % v.replace("\\", "\\\\").replace("'", "\\'")
    if isinstance(v, Num): return "(number '%s')" % rat(v)
    if isinstance(v, Stat): return "(status %s)" % rat(v) if v.denominator == 1 else "(status (number '%s'))" % rat(v)
    if isinstance(v, Cell):
        if proper(v): return "(list %s)" % " ".join(src(x) for x in items(v))
        return "(cons %s %s)" % (src(v.car), src(v.cdr))
    if isinstance(v, Opaque): return "$" + v.name
    raise ValueError(v)
def noexc(s):
    """Only that an exception was thrown matters, not its wording."""
    return re.sub(r"^EX .*$", "EX", s, flags=re.M)
