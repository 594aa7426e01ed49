"""A reference interpreter for oh's core language, in continuation-passing style: names, methods, syntax,
objects, conditionals, loops, exceptions and saved continuations. Code is data: lists of Cells."""
from ohval import *
import ohval

class Env:
    n = 0
    def __init__(self, up):
        self.up, self.priv, self.pub = up, {}, {}
    def find(self, k):
        e = self
        while e is not None:
            if k in e.priv: return e.priv, e
            if k in e.pub: return e.pub, e
            e = e.up
        return None, None
class Obj:
    def __init__(self, env): self.env = env
class Routine:
    def __init__(self, kind, scope, params, body, envl=None, selfl=None, prim=None, name=None):
        self.kind, self.scope, self.params, self.body, self.envl, self.selfl, self.prim, self.name = kind, scope, params, body, envl, selfl, prim, name
class Bound:
    def __init__(self, r, self_): self.r, self.self = r, self_
class Cont:
    def __init__(self, k): self.k = k
class Stop(Exception): pass

class Ctx:
    """Where code runs: the scope, and the calling contexts (scopes, nearest first) whose public names are visible."""
    __slots__ = ("scope", "callers")
    def __init__(self, scope, callers): self.scope, self.callers = scope, callers

def isscope(v): return isinstance(v, (Env, Obj))
def lookup(v, k):
    """The table holding k as seen through the scope value v, or None."""
    if isinstance(v, Obj): return v.env.pub if k in v.env.pub else None
    return v.find(k)[0]
def resolve(ctx, k):
    t, e = ctx.scope.find(k)
    if t is not None: return t, ctx.scope
    c = ctx.callers
    while c is not None:
        e = c[0]
        while e is not None:
            if k in e.pub: return e.pub, e
            e = e.up
        c = c[1]
    return None, None
def rebind(v, s):
    return Bound(v.r, s) if isinstance(v, Bound) else v

class Machine:
    def __init__(self, steps=20000):
        self.out, self.left = [], steps
        root = Env(None)
        self.root = root
        for n in ("block", "define", "export", "if", "while", "set", "method", "syntax", "quote", "object", "catch", "and", "or"):
            self.prim(n, "syntax", getattr(self, "s_" + n))
        for n in ("get", "eval", "set?", "unset", "resolve", "resolves?", "splice", "method?", "syntax?", "continuation?", "map", "for"):
            self.prim(n, "method", getattr(self, "m_" + n.replace("?", "_p")))
        for n, f in FUNCS.items():
            self.prim(n, "method", self.fun(f))
        self.prim("write", "method", self.m_write)
        root.priv["true"] = TRUE if False else None
        del root.priv["true"]
    def prim(self, n, kind, f):
        self.root.priv[n] = Bound(Routine(kind, self.root, None, None, prim=f, name=n), self.root)
    def fun(self, f):
        def g(b, args, ctx, k, prev):
            return k(f(args))
        return g
    # -- running ---------------------------------------------------------------
    def run(self, code, catch=True):
        """Runs the commands as the body of a method; returns the printed lines (None if it does not finish)."""
        env = Env(Env(self.root))
        ctx = Ctx(env, None)
        def end(v): return None
        env.priv["return"] = Cont(end)
        if catch:
            def handler(b, args, c, k, prev):
                if len(args) == 0: raise Thrown(Str("?"))
                self.out.append("EX " + show(args[0]))
                return end(NULL)
            env.pub["throw"] = Bound(Routine("method", env, None, None, prim=handler, name="throw"), env)
        t = lambda: self.seq(code, ctx, end, NULL)
        while t is not None:
            self.left -= 1
            if self.left <= 0: return None
            try:
                t = t()
            except Internal as ex:
                t = ex.thunk
        return "".join(l + "\n" for l in self.out)
    def guard(self, f, ctx, k):
        """Internal errors become (throw message) run in ctx."""
        try:
            return f()
        except Thrown as ex:
            return lambda: self.command(lst(Sym("throw"), ANYSTR), ctx, k, NULL)
    def seq(self, code, ctx, k, prev):
        """A block of commands; ends at a word that is not a command (else)."""
        if code is NULL or not isinstance(code.car, (Cell, Null)): return lambda: k(prev)
        if code.cdr is NULL: return lambda: self.command(code.car, ctx, k, prev)
        return lambda: self.command(code.car, ctx, lambda v: self.seq(code.cdr, ctx, k, v), prev)
    def element(self, c, ctx, k):
        if isinstance(c, (Cell, Null)): return lambda: self.command(c, ctx, k, NULL)
        return lambda: k(c)
    def value(self, ctx, name):
        t, s = resolve(ctx, name)
        return None if t is None else rebind(t[name], s)
    def command(self, code, ctx, k, prev):
        if code is NULL: return lambda: k(NULL)
        def headed(h):
            if isinstance(h, Sym):
                v = self.value(ctx, h)
                if v is not None: h = v
            return self.guard(lambda: self.execute(h, code.cdr, ctx, k), ctx, k)
        return self.element(code.car, ctx, headed)
    def execute(self, h, rest, ctx, k):
        if isinstance(h, Bound): return self.call(h, rest, ctx, k)
        if isinstance(h, Cont):
            return self.element(rest.car if rest is not NULL else NULL, ctx, h.k)
        if isscope(h):
            def member(m):
                def go():
                    if not isinstance(m, Sym): raise Thrown("member")
                    t = lookup(h, m)
                    if t is None: raise Thrown("undefined")
                    v = t[m]
                    if not isinstance(v, Bound): raise Thrown("not executable")
                    return self.call(Bound(v.r, h), rest.cdr if rest is not NULL else NULL, ctx, k)
                return self.guard(go, ctx, k)
            return self.element(rest.car if rest is not NULL else NULL, ctx, member)
        if isinstance(h, (Sym, Str)):
            def go(args): return self.guard(lambda: thrown(), ctx, k)
            return self.args(rest, ctx, go)
        if isinstance(h, (Cell, Null)):
            def member(m):
                def go():
                    if not isinstance(m, Sym): raise Thrown("member")
                    if m not in ("head", "tail", "length"): raise Unmodelled(m)
                    def done(args): return k(LISTF[m](h))
                    return self.args(rest.cdr if rest is not NULL else NULL, ctx, done)
                return self.guard(go, ctx, k)
            return self.element(rest.car if rest is not NULL else NULL, ctx, member)
        raise Thrown("not a command")
    def args(self, rest, ctx, k, done=()):
        if rest is NULL: return lambda: k(list(done))
        c = rest.car
        def got(v):
            if isinstance(v, Splice): return self.args(rest.cdr, ctx, k, done + tuple(v.items))
            return self.args(rest.cdr, ctx, k, done + (v,))
        return self.element(c, ctx, got)
    def call(self, b, rest, ctx, k):
        r = b.r
        if r.kind == "syntax":
            return self.apply(b, rest, ctx, k)
        return self.args(rest, ctx, lambda a: self.apply(b, a, ctx, k))
    def apply(self, b, args, ctx, k):
        r = b.r
        if r.prim:
            return self.guard(lambda: r.prim(b, args, ctx, k, NULL), ctx, k)
        env = Env(r.scope)
        inner = Ctx(env, (ctx.scope, ctx.callers))
        a = items(args) if isinstance(args, (Cell, Null)) else args
        def go():
            if r.envl is not None: env.priv[r.envl] = ctx.scope
            if r.selfl is not None:
                if not isscope(b.self): raise Thrown("self")
                env.priv[r.selfl] = b.self
            ps = items(r.params)
            rest = None
            if ps and isinstance(ps[-1], Cell):
                rest, ps = str(ps[-1].car), ps[:-1]
            if len(a) < len(ps) or (len(a) > len(ps) and rest is None):
                # Parameters are bound as far as they go before the count is checked.
                for p, v in zip(ps, a): env.priv[str(p)] = v
                raise Thrown("count")
            for p, v in zip(ps, a): env.priv[str(p)] = v
            if rest: env.priv[rest] = lst(*a[len(ps):])
            env.priv["return"] = Cont(k)
            return self.seq(r.body, inner, k, b)
        return self.guard(go, inner, k)
    # -- syntax -----------------------------------------------------------------
    def s_block(self, b, code, ctx, k, prev):
        return self.seq(code, Ctx(Env(ctx.scope), ctx.callers), k, NULL)
    def binder(self, code, ctx, k, store):
        def keyed(key):
            def go():
                n = lit(key)
                def val(v): return self.guard(lambda: store(n.rstrip(":") if False else (n[:-1] if n.endswith(":") else n), v), ctx, k)
                rest = code.cdr if code is not NULL else NULL
                if n.endswith(":"): return self.element(rest, ctx, val)
                return self.element(rest.car if rest is not NULL else NULL, ctx, val)
            return self.guard(go, ctx, k)
        return self.element(code.car if code is not NULL else NULL, ctx, keyed)
    def s_define(self, b, code, ctx, k, prev):
        def store(n, v):
            if isinstance(b.self, Obj): raise Thrown("private")
            b.self.priv[n] = v
            return k(v)
        return self.binder(code, ctx, k, store)
    def s_export(self, b, code, ctx, k, prev):
        def store(n, v):
            (b.self.env if isinstance(b.self, Obj) else b.self).pub[n] = v
            return k(v)
        return self.binder(code, ctx, k, store)
    def s_set(self, b, code, ctx, k, prev):
        def store(n, v):
            t = lookup(b.self, n)
            if t is None: raise Thrown("undefined")
            t[n] = v
            return k(v)
        return self.binder(code, ctx, k, store)
    def s_if(self, b, code, ctx, k, prev):
        inner = Ctx(Env(ctx.scope), ctx.callers)
        def test(v):
            rest = code.cdr
            if not truth(v):
                while rest is not NULL and isinstance(rest.car, Cell): rest = rest.cdr
                if rest is NULL: return k(v)
                rest = rest.cdr
                if rest is NULL: return k(v)
                if not isinstance(rest.car, (Cell, Null)):
                    return self.command(rest, inner, k, v)
            return self.seq(rest, inner, k, v)
        return self.element(code.car, inner, test)
    def s_while(self, b, code, ctx, k, prev):
        inner = Ctx(Env(ctx.scope), ctx.callers)
        def loop(_=None):
            def test(v):
                if not truth(v): return k(v)
                return self.seq(code.cdr, inner, loop, v)
            return self.element(code.car, inner, test)
        return loop()
    def closure(self, kind, code, ctx, k):
        s, selfl, envl = code.car, None, None
        code = code.cdr
        if isinstance(s, Sym):
            selfl, s, code = str(s), code.car, code.cdr
        if code is not NULL and not isinstance(code.car, (Cell, Null)):
            envl, code = str(code.car), code.cdr
        return k(Bound(Routine(kind, ctx.scope, s, code, envl, selfl), Obj(ctx.scope)))
    def s_method(self, b, code, ctx, k, prev): return self.closure("method", code, ctx, k)
    def s_syntax(self, b, code, ctx, k, prev): return self.closure("syntax", code, ctx, k)
    def s_quote(self, b, code, ctx, k, prev):
        if len(items(code)) != 1: raise Unmodelled("quote")
        return k(code.car)
    def s_object(self, b, code, ctx, k, prev):
        env = Env(ctx.scope)
        return self.seq(code, Ctx(env, ctx.callers), lambda v: k(Obj(env)), NULL)
    def s_and(self, b, code, ctx, k, prev):
        if code is NULL: return k(NULL)
        def step(c):
            return self.element(c.car, ctx, lambda v: k(v) if not truth(v) or c.cdr is NULL else step(c.cdr))
        return step(code)
    def s_or(self, b, code, ctx, k, prev):
        if code is NULL: return k(NULL)
        def step(c):
            return self.element(c.car, ctx, lambda v: k(v) if truth(v) or c.cdr is NULL else step(c.cdr))
        return step(code)
    def s_catch(self, b, code, ctx, k, prev):
        """catch name clause...: in the rest of this scope throw runs the clause, then returns from the routine the scope is in."""
        name, clause = str(code.car), code.cdr
        ret, _ = resolve(ctx, "return")
        out, _ = resolve(ctx, "throw")
        ret, outer = ret["return"], rebind(out["throw"], ctx.scope)
        def handler(hb, args, c, hk, prev2):
            if len(args) != 1: raise Thrown("count")
            env = Env(ctx.scope)
            env.priv[name], env.priv["throw"] = args[0], outer
            def fin(v): return ret.k(v)
            env.priv["return"] = Cont(fin)
            body = lst(*items(clause), lst(Sym("throw"), lst(Sym("resolve"), Sym(name))))
            return self.seq(body, Ctx(env, (c.scope, c.callers)), fin, NULL)
        m = Bound(Routine("method", ctx.scope, None, None, prim=handler, name="throw"), ctx.scope)
        ctx.scope.pub["throw"] = m
        return k(m)
    # -- methods ------------------------------------------------------------------
    def m_write(self, b, args, ctx, k, prev):
        self.out.append(" ".join(show(a) for a in args))
        return k(lst(*args))
    def m_get(self, b, args, ctx, k, prev):
        n = lit(args[0] if args else NULL); t = lookup(b.self, n)
        if t is None: raise Thrown("undefined")
        return k(rebind(t[n], b.self))
    def m_resolve(self, b, args, ctx, k, prev):
        v = self.look(b, args, ctx)
        if v is None: raise Thrown("undefined")
        return k(v)
    def look(self, b, args, ctx):
        n = lit(args[0] if args else NULL)
        e = b.self.env if isinstance(b.self, Obj) else b.self
        if e is ctx.scope: return self.value(ctx, n)
        t = lookup(b.self, n)
        return None if t is None else rebind(t[n], b.self)
    def m_resolves_p(self, b, args, ctx, k, prev): return k(boolean(self.look(b, args, ctx) is not None))
    def m_set_p(self, b, args, ctx, k, prev): return k(boolean(lookup(b.self, lit(args[0] if args else NULL)) is not None))
    def m_unset(self, b, args, ctx, k, prev):
        n = lit(args[0] if args else NULL); t = lookup(b.self, n)
        if t is None: return k(NULL)
        del t[n]
        return k(TRUE)
    def m_eval(self, b, args, ctx, k, prev):
        if len(args) != 1: raise Thrown("count")
        e = b.self.env if isinstance(b.self, Obj) else b.self
        if isinstance(b.self, Obj): raise Unmodelled("eval in object")
        return self.element(args[0], Ctx(e, (ctx.scope, ctx.callers)), k)
    def m_splice(self, b, args, ctx, k, prev):
        if len(args) != 1: raise Thrown("count")
        return k(Splice(items(args[0])))
    def m_method_p(self, b, args, ctx, k, prev): return k(boolean(isinstance(args[0], Bound) and args[0].r.kind == "method"))
    def m_syntax_p(self, b, args, ctx, k, prev): return k(boolean(isinstance(args[0], Bound) and args[0].r.kind == "syntax"))
    def m_continuation_p(self, b, args, ctx, k, prev): return k(boolean(isinstance(args[0], Cont)))
    def m_map(self, b, args, ctx, k, prev):
        if args: raise Thrown("count")
        env = Env(self.root)
        for n, p in (("del", "unset"), ("get", "get"), ("has", "set?"), ("set", "export")):
            env.pub[n] = self.root.priv[p]
        return k(Obj(env))
    def m_for(self, b, args, ctx, k, prev):
        if len(args) != 2: raise Thrown("count")
        xs, m = items(args[0]), args[1]
        def step(i, acc):
            if i == len(xs): return k(lst(*acc))
            return self.apply(m, [xs[i]], ctx, lambda v: step(i + 1, acc + (v,)))
        return step(0, ())

class Unmodelled(Exception): pass
class Internal(Exception): pass
class Splice:
    def __init__(self, items): self.items = items
ANYSTR = Str("?")
def thrown(): raise Thrown()
def show(v):
    if v is ANYSTR: return "<message>"
    if isinstance(v, Cell):
        if proper(v): return "(" + " ".join(show(x) for x in items(v)) + ")"
        return "(|cons %s %s|)" % (show(v.car), show(v.cdr))
    if isinstance(v, (Bound, Cont, Env, Obj)): raise Unmodelled("no text")
    return lit(v)
def arity(n, f):
    def g(a):
        if len(a) != n: raise Thrown("count")
        return f(*a)
    return g
def arith(op):
    def g(a):
        if not a and op != "add": raise Thrown()
        r = [number(x) for x in a]
        if op == "add": return Num(sum(r, Fraction(0)))
        x = r[0]
        for y in r[1:]: x = x - y if op == "sub" else x * y
        return Num(x)
    return g
def lt(a):
    if len(a) < 2: raise Thrown()
    n = [number(x) for x in a]
    return boolean(all(x < y for x, y in zip(n, n[1:])))
def eqp(a):
    if len(a) < 2: raise Thrown()
    return boolean(all(equal(x, y) for x, y in zip(a, a[1:])))
FUNCS = {"add": arith("add"), "sub": arith("sub"), "mul": arith("mul"), "lt?": lt, "equal?": eqp, "list": lambda a: lst(*a), "cons": arity(2, lambda x, y: Cell(x, y)),
         "not": arity(1, lambda x: boolean(not truth(x))), "null?": arity(1, lambda x: boolean(x is NULL)), "number": arity(1, lambda x: Num(number(x))), "status": arity(1, lambda x: Stat(number(x)))}
LISTF = {"head": lambda h: h.car if h is not NULL else NULL, "tail": lambda h: h.cdr if h is not NULL else NULL, "length": lambda h: Num(len(items(h)))}

# -- writing code -------------------------------------------------------------------
def V(n): return lst(Sym("resolve"), Sym(n))
def C(x):
    """Python nested lists/strings to code: 'x' a word, '$x' a variable, lists commands."""
    if isinstance(x, (list, tuple)): return lst(*[C(y) for y in x])
    if isinstance(x, str) and type(x) is str:
        return V(x[1:]) if x.startswith("$") else Sym(x)
    return x
class Prefixed(Cell):
    """NAME=VALUE command: a block that exports, then runs the command."""
    __slots__ = ("pairs", "cmd")
    def __init__(self, pairs, cmd):
        c = C(["block"] + [["export", n, v] for n, v in pairs] + [cmd])
        Cell.__init__(self, c.car, c.cdr)
        self.pairs, self.cmd = pairs, C(cmd)
    def text(self):
        return "".join("%s=%s " % (n, text_of(C(v))) for n, v in self.pairs) + " ".join(text_of(x) for x in items(self.cmd))
def text_of(c):
    if c is NULL: return "()"
    if isinstance(c, Prefixed): return "(" + c.text() + ")"
    if isinstance(c, Cell):
        xs = items(c)
        if len(xs) == 2 and xs[0] == "resolve" and isinstance(xs[1], Sym): return "$" + xs[1]
        return "(" + " ".join(text_of(x) for x in xs) + ")"
    return lit(c)
def render(cmds):
    """The commands, one a line, as source text."""
    out = []
    for c in (items(cmds) if isinstance(cmds, Cell) else cmds):
        if isinstance(c, Prefixed):
            out.append(c.text())
            continue
        xs = items(C(c)) if not isinstance(c, Cell) else items(c)
        out.append(" ".join(text_of(x) for x in xs))
    return "\n".join(out)
def expect(cmds, catch=True, steps=20000):
    m = Machine(steps)
    return m.run(C(cmds), catch)
def norm(s):
    """Messages of internal errors are not compared: any long string stands for one (the programs use short ones)."""
    return re.sub(r"\$'(?:[^'\\]|\\.)*'", lambda m: "<message>" if len(m[0]) > 10 else m[0], s)
