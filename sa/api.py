"""Helpers shared by the checks."""
import ast

from .interp import *  # noqa: F401,F403
from .interp import Interp
from .program import AnalysisError, ClassInfo


class Outcome:
    def __init__(self, it, st, kind, raw):
        self.it, self.st, self.kind, self.raw = it, st, kind, raw
        self.value = it.fz(raw, st) if isinstance(raw, V) else raw
        self.facts = tuple((c, b) for c, b in st.log)
        self.events = st.events

    def __repr__(self):
        return "%s %r if %s" % (self.kind, self.value, fmt_guard(self.facts))


def short(x, n=220):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def outcomes(ctx, f, args=(), self_=None, opaque=(), kwargs=None, st=None, max_states=20000, no_inline=None, max_depth=40, attr_types=None):
    it = Interp(ctx.prog, opaque=set(opaque), max_states=max_states, max_depth=max_depth, no_inline=no_inline)
    it.attr_types = dict(attr_types or {})
    res = it.run(f, list(args), kwargs, self_, st)
    ctx.analysed.add(f.qualname)
    for q in getattr(it, "visited", ()):
        ctx.analysed.add(q)
    return [Outcome(it, s, k, v) for s, k, v in res]


def inst(cls, exact=False):
    return ("inst", cls, exact)


def selfsym(cls, exact=True, name="self"):
    return Sym(name, ("inst", cls, exact))


def own_method(cls, name):
    """The method a class has by this name in the analysed package (None if it comes from outside)."""
    r = cls.find(name)
    if r is None or r[1] != "method":
        return None
    return r[2]


def construct(ctx, cls, args, kwargs=None, opaque=(), st=None, no_inline=None):
    """Outcomes of calling the class."""
    it = Interp(ctx.prog, opaque=set(opaque), no_inline=no_inline)
    st = st or State()
    it.nstates = 0
    res = it.instantiate(cls, [One(a) for a in args], dict(kwargs or {}), st, None)
    out = []
    for s, r in res:
        out.append(Outcome(it, s, "exc" if isinstance(r, Exc) else "ret", r))
    ctx.analysed.add(cls.qualname + ".__init__")
    return out


def init_params(cls):
    """(positional parameter names, vararg name or None) of the constructor."""
    f = own_method(cls, "__init__")
    if f is None:
        return [], None
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs], (a.vararg.arg if a.vararg else None)


def mentions(v, target):
    return any(x == target for x in walk(v))


def swap(v, a, b):
    """Exchange the symbols a and b in v."""
    return subst(v, lambda x: (b if x == a else a if x == b else None) if isinstance(x, Sym) else None)


def rename(v, a, b):
    return subst(v, lambda x: b if x == a else None)


def split_bool(o):
    """Outcomes of a boolean function split by the truth of the result: (facts, bool, state)."""
    if o.kind != "ret":
        return []
    out = []
    for s, b in o.it.truth(o.raw, o.st):
        out.append((tuple(s.log), b, s))
    return out


def concrete_classes(ctx):
    """Classes of the package that can be instantiated: constructed somewhere, or leaves."""
    prog = ctx.prog
    made = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                c = prog.resolve_expr_class(m, n.func)
                if isinstance(c, ClassInfo):
                    made.add(c)
    out = []
    for c in sorted(set(prog.classes.values()), key=lambda c: c.qualname):
        if c in made or not prog.subclasses(c, strict=True):
            out.append(c)
    return out
