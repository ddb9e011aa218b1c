"""Components of a class, what its equality compares, what its hash reads, how its order decides."""
from .api import *

SELF, OTHER = "self", "other"


def value_classes(ctx):
    """Concrete classes of the package with an equality of their own (exceptions, enums, transformers left out)."""
    out = []
    for c in concrete_classes(ctx):
        if c.is_enum or c.module.name.startswith(("pddl.parser", "pddl.exceptions")):
            continue
        if own_method(c, "__eq__") is not None:
            out.append(c)
    return out


def args_for(cls):
    ps, var = init_params(cls)
    it = []
    f = own_method(cls, "__init__")
    return ps, var, f


def component_fields(ctx, cls):
    """{constructor parameter: fields of the instance that depend on it} by interpreting the constructor."""
    ps, var, f = args_for(cls)
    it0 = Interp(ctx.prog)
    syms = {}
    for n in ps:
        ann = next((a.annotation for a in f.node.args.args + f.node.args.kwonlyargs if a.arg == n), None)
        syms[n] = Sym("arg_" + n, it0.ann_type(f.module, ann) if ann is not None else None)
    args = [One(syms[n]) for n in ps]
    if var:
        it = Sym("arg_" + var, ("coll", "seq", it0.ann_type(f.module, f.node.args.vararg.annotation) if f.node.args.vararg.annotation is not None else None))
        syms[var] = it
        args.append(Spread(it))
    own = {id(m) for k in cls.mro() if isinstance(k, ClassInfo) for m in k.methods.values()}
    it = Interp(ctx.prog, max_states=60000, no_inline=lambda g: g.name != "__init__" and id(g) not in own)
    st = State()
    it.nstates = 0
    fields = {}
    nret = 0
    for s, r in it.instantiate(cls, args, {}, st, None, skip_meta=True):
        if isinstance(r, Exc):
            continue
        v = it.fz(r, s)
        if not isinstance(v, New):
            continue
        nret += 1
        for n, x in v.fields:
            fields.setdefault(n, []).append(x)
    out = {}
    for p, sy in syms.items():
        out[p] = sorted(n for n, xs in fields.items() if any(mentions(x, sy) for x in xs))
    if not nret:
        raise Undecided("no normal outcome of the constructor of %s" % cls.name)
    ctx.analysed.add(cls.qualname + ".__init__")
    return out


class EqFacts:
    """The equalities known in one true outcome of a == b."""

    def __init__(self, facts):
        self.facts = facts
        self.pairs = {}
        for c, b in facts:
            if isinstance(c, App) and c.op == "eq" and b:
                x, y = c.args
                self.pairs.setdefault(x, set()).add(y)
                self.pairs.setdefault(y, set()).add(x)

    def same(self, a, b, depth=0):
        """Does the outcome imply a == b ?"""
        if a == b:
            return True
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for y in self.pairs.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if b in seen:
            return True
        if depth > 8:
            return False
        for x in seen:
            if isinstance(x, V) and type(x) is type(b) and not isinstance(x, (Sym, Const, Cls, Enum_, Ext, Mod, Fn)):
                if isinstance(x, Attr) and x.name != b.name:
                    continue
                if isinstance(x, App) and (x.op != b.op or len(x.args) != len(b.args)):
                    continue
                ks, kb = x.key(), b.key()
                if len(ks) == len(kb) and all(self._samek(p, q, depth + 1) for p, q in zip(ks, kb)):
                    return True
        return False

    def _samek(self, p, q, depth):
        if isinstance(p, V) and isinstance(q, V):
            return self.same(p, q, depth)
        if isinstance(p, tuple) and isinstance(q, tuple):
            return len(p) == len(q) and all(self._samek(x, y, depth) for x, y in zip(p, q))
        return p == q


def eq_true_outcomes(ctx, cls, it_out=None):
    """[(facts, outcome, state)] of the true outcomes, and those of the false ones, of cls.__eq__(self, other)."""
    f = own_method(cls, "__eq__")
    a, b = selfsym(cls), Sym(OTHER, None)
    true, false, raised = [], [], []
    for o in outcomes(ctx, f, [b], self_=a):
        if o.kind == "exc":
            raised.append(o)
            continue
        if isinstance(o.value, Ext) and o.value.name.endswith("NotImplemented"):
            false.append((o.facts, o, o.st))
            continue
        for facts, val, s in split_bool(o):
            (true if val else false).append((facts, o, s))
    return f, true, false, raised


def kind_fact(facts, other=None):
    """The class other is known to be an instance of: (ClassInfo, exact)."""
    best = None
    for c, b in facts:
        if not b or not isinstance(c, App):
            continue
        if c.op in ("isinst", "typeis") and isinstance(c.args[0], Sym) and c.args[0].name == OTHER and isinstance(c.args[1], Cls):
            k = (c.args[1].c, c.op == "typeis")
            if best is None or k[1] or k[0].is_subclass(best[0]):
                best = k
    return best


def attr_value(ctx, o, st, base, name):
    """The value of base.name in the state of an outcome."""
    res = o.it.getattr(base, name, st, None)
    vals = {o.it.fz(v, s) for s, v in res if not isinstance(v, Exc)}
    if len(vals) == 1:
        return vals.pop()
    return None
