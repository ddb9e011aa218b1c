"""Ordering: strict, total within a kind, and in agreement with equality.

Every path of every less-than is interpreted.  A comparison of two objects of one kind must reduce to
key(self) < key(other) for one key read from either side in the same way (hence irreflexive, asymmetric and
transitive), and the key must determine everything equality compares (hence exactly one of <, ==, > holds).
"""
from ..eqcommon import *

MINIMUM = 20


def run(ctx):
    prog = ctx.prog
    for c in concrete_classes(ctx):
        f = own_method(c, "__lt__")
        if f is None:
            continue
        ctx.guard("order", f, one, ctx, c, f)
    derived(ctx)


def derived(ctx):
    """A class that defines one order method and is compared through the others gets them from total_ordering."""
    for c in sorted(set(ctx.prog.classes.values()), key=lambda c: c.qualname):
        for n in ("__gt__", "__le__", "__ge__"):
            f = c.methods.get(n)
            if f is not None:
                ctx.guard("derived", f, derived_one, ctx, c, n, f)


def derived_one(ctx, c, n, f):
    lt = own_method(c, "__lt__")
    if lt is None:
        ctx.undecided("derived", f, "no __lt__ beside %s" % n)
        return
    a, b = selfsym(c), Sym(OTHER, inst(c, True))
    want = set()
    for o in outcomes(ctx, lt, [b], self_=a):
        for facts, val, s in split_bool(o):
            want.add((frozenset(facts), val))
    ctx.undecided("derived", f, "explicit %s is not analysed" % n)


class NotOrder(Exception):
    """The result is not a combination of comparisons of mirrored components."""


class Sign:
    """Evaluation of a result under an assignment of <, =, > to each compared component."""

    def __init__(self, sa, so):
        self.sa, self.so = sa, so
        self.keys = []

    def key(self, l, r):
        """(component of self, orientation) of a comparison of l with r."""
        if mentions(l, self.sa) and not mentions(l, self.so):
            k, o, other = l, 1, r
        elif mentions(r, self.sa) and not mentions(r, self.so):
            k, o, other = r, -1, l
        else:
            raise NotOrder("compares %s with %s" % (short(l), short(r)))
        if swap(k, self.sa, self.so) != other:
            raise NotOrder("the two sides are not the same key: %s and %s" % (short(l), short(r)))
        if k not in self.keys:
            self.keys.append(k)
        return k, o

    def lex(self, l, r):
        """Pairs of components compared in turn."""
        if isinstance(l, Seq) and isinstance(r, Seq) and l.kind == r.kind and len(l.parts) == len(r.parts) \
                and all(isinstance(p, One) for p in l.parts + r.parts):
            return [x for p, q in zip(l.parts, r.parts) for x in self.lex(p.v, q.v)]
        if isinstance(l, (Const, Cls)) and l == r:
            return []
        return [self.key(l, r)]

    def collect(self, v):
        if isinstance(v, App) and v.op in ("lt", "eq") and len(v.args) == 2:
            self.lex(*v.args)
        elif isinstance(v, App) and v.op in ("and", "or", "not"):
            for x in v.args:
                self.collect(x)
        elif isinstance(v, App) and v.op in ("isinst", "typeis"):
            pass
        elif not isinstance(v, Const):
            raise NotOrder("result %s" % short(v))

    def ev(self, v, sg):
        if isinstance(v, Const):
            return bool(v.v)
        if v.op == "not":
            return not self.ev(v.args[0], sg)
        if v.op == "and":
            return all(self.ev(x, sg) for x in v.args)
        if v.op == "or":
            return any(self.ev(x, sg) for x in v.args)
        if v.op in ("isinst", "typeis"):
            return True
        prs = self.lex(*v.args)
        for k, o in prs:
            d = sg[k] * o
            if d:
                return d < 0 if v.op == "lt" else False
        return v.op == "eq"


def one(ctx, c, f):
    import itertools

    a, b = selfsym(c), Sym(OTHER, inst(c, True))
    sa, so = Sym(SELF, None), Sym(OTHER, None)
    outs = outcomes(ctx, f, [b], self_=a)
    sg = Sign(sa, so)
    try:
        for o in outs:
            if o.kind == "exc":
                ctx.violation("order", f, "%s: comparing two of them can raise %r" % (c.name, o.value))
                return
            if isinstance(o.value, Ext) and o.value.name.endswith("NotImplemented"):
                ctx.violation("order", f, "%s does not order its own kind" % c.name)
                return
            for x, v in o.facts:
                sg.collect(x)
            sg.collect(o.value)
    except NotOrder as e:
        if "not the same key" in str(e):
            ctx.violation("strict", f, "%s: %s" % (c.name, e), c.name)
        else:
            ctx.undecided("order", f, "%s: %s" % (c.name, e))
        return
    keys = sg.keys
    if len(keys) > 4:
        ctx.undecided("order", f, "%s: more than four components" % c.name)
        return
    for k in keys:
        t = outs[0].it.type_of(k, outs[0].st)
        if t and t[0] == "coll" and t[1] == "set":
            ctx.violation("strict", f, "%s: sets are ordered by inclusion only, so %s does not order every pair" % (c.name, short(k)), c.name)
            return
    less = set()
    for vec in itertools.product((-1, 0, 1), repeat=len(keys)):
        asg = dict(zip(keys, vec))
        vals = {sg.ev(o.value, asg) for o in outs if all(sg.ev(x, asg) == v for x, v in o.facts)}
        if len(vals) != 1:
            ctx.undecided("order", f, "%s: %d results for one case" % (c.name, len(vals)))
            return
        if vals.pop():
            less.add(vec)
    zero = (0,) * len(keys)
    show = lambda v: ", ".join("%s %s" % (short(k, 60), {-1: "smaller", 0: "equal", 1: "larger"}[x]) for k, x in zip(keys, v))
    problem = None
    if zero in less:
        problem = "an object is less than an equal one"
    neg = lambda v: tuple(-x for x in v)
    for v in itertools.product((-1, 0, 1), repeat=len(keys)):
        if problem:
            break
        if v in less and neg(v) in less:
            problem = "two objects are each less than the other (%s)" % show(v)
        elif v != zero and v not in less and neg(v) not in less:
            problem = "neither of two different objects is less than the other (%s)" % show(v)
    if not problem:
        comp = {(-1, -1): (-1,), (-1, 0): (-1,), (0, -1): (-1,), (0, 0): (0,), (0, 1): (1,), (1, 0): (1,), (1, 1): (1,)}
        for u in less:
            for v in less:
                for w in itertools.product(*[comp.get((x, y), (-1, 0, 1)) for x, y in zip(u, v)]):
                    if w not in less:
                        problem = "the order is not transitive (%s)" % show(w)
    if not ctx.require(problem is None, "strict", f, "%s: strict total order over %s" % (c.name, short(repr(keys), 100)), "%s: %s" % (c.name, problem), c.name):
        return
    if own_method(c, "__eq__") is None:
        return
    ef, true, false, raised = eq_true_outcomes(ctx, c)
    typ = lambda v: outs[0].it.type_of(v, outs[0].st)
    for facts, o, s in true:
        for x, v in facts:
            if isinstance(x, App) and x.op == "eq" and v:
                l = x.args[0] if mentions(x.args[0], sa) else x.args[1]
                if not mentions(l, sa):
                    continue
                ctx.require(any(determines(k, l, typ) for k in keys), "agrees", f, "%s: the order reads %s" % (c.name, short(l, 60)),
                            "two %s objects that differ only in %s are different, but neither is less than the other" % (c.name, short(l)), "%s.%s" % (c.name, short(l, 60)))
        # equal objects have equal keys
        facts_ = EqFacts(facts)
        for k in keys:
            ctx.require(facts_.same(k, swap(k, sa, so)), "agrees", f, "%s: equal objects have the same %s" % (c.name, short(k, 60)),
                        "equal %s objects can be ordered by %s" % (c.name, short(k)), "%s.key.%s" % (c.name, short(k, 60)))


def determines(k, l, typ):
    """Does the key component k fix the value l ?  Sorting forgets the order, so it fixes a set and not a sequence."""
    if k == l:
        return True
    if isinstance(k, Seq) and k.kind in ("list", "tuple") and len(k.parts) == 1 and isinstance(k.parts[0], Spread):
        return determines(k.parts[0].src, l, typ)
    if isinstance(k, App) and len(k.args) == 1 and k.op in ("sorted", "tuple", "list", "frozenset", "set"):
        t = typ(k.args[0])
        if k.op in ("tuple", "list") or bool(t and t[0] == "coll" and t[1] == "set"):
            return determines(k.args[0], l, typ)
    if isinstance(l, App) and l.op in ("tuple", "list") and len(l.args) == 1:
        return determines(k, l.args[0], typ)
    return False
