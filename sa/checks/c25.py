"""C25: the printed text does not depend on the order in which unordered things are stored.

The text every class prints is computed as a term over the fields of the object.  Wherever the elements of a collection follow each other in
that text, the collection is a sequence, or it is sorted by something that tells its elements apart, or it is known to have at most one element.
The same is asked of a single element taken from a collection.

Besides, objects with several members that are alike in part are built from descriptions (`sa/built.py`) with all unordered components in one order and in the other;
the two must print the same text.
"""
from ..api import Undecided
from ..built import Maker, O
from ..conds import WRAP, strip
from ..eqcommon import eq_true_outcomes, own_method
from ..sections import kinds_of_params, printed
from ..values import App, Attr, Const, Each, Elem, Fmt, Grp, Join, One, Pair, Seq, Spread, Sym, V

MINIMUM = 60
UNSTABLE = ("id", "hash", "ext:id", "ext:hash", "ext:random", "ext:time", "ext:uuid", "ext:os.", "ext:datetime", "ext:secrets", "ext:builtins.id", "ext:builtins.hash", "ext:object.__repr__")
LOSSY = {"len", "card", "exists", "in", "eq", "lt", "isinst", "typeis", "isnone", "truthy", "not", "and", "or", "sum", "any", "all", "min", "max", "is", "lenp", "strp", "first", "reach"}


class Order:
    memo = {}

    def __init__(self, ctx, it, st):
        self.ctx, self.it, self.st = ctx, it, st
        self.bad = []       # (collection, what)
        self.good = 0
        self.unknown = []

    def small(self, coll, guards):
        """At most one element?"""
        left = {0, 1, 2}
        base = strip(coll)
        for c, b in tuple(self.st.log) + tuple(guards):
            while isinstance(c, App) and c.op == "not":
                c, b = c.args[0], not b
            if isinstance(c, App) and c.op == "card" and strip(c.args[0]) == base:
                left &= set(c.args[1]) if b else {0, 1, 2} - set(c.args[1])
        return 2 not in left

    def kind(self, v):
        """'set', 'map', 'seq', or None."""
        if isinstance(v, App) and v.op in (".items", ".keys", ".values"):
            return "map"
        if isinstance(v, Seq):
            return {"set": "set", "frozenset": "set", "dict": "dict"}.get(v.kind, "seq")
        t = self.it.type_of(v, self.st)
        if t and t[0] == "opt":
            t = t[1]
        if t and t[0] == "map":
            return "map"
        if t and t[0] == "coll":
            return t[1] if t[1] in ("set", "seq") else None
        return None

    # -- values whose text shows ------------------------------------------------------------
    def text(self, v, guards):
        if isinstance(v, str) or not isinstance(v, V):
            if isinstance(v, (tuple, list)):
                for x in v:
                    self.text(x, guards)
            return
        if isinstance(v, Fmt):
            for p in v.parts:
                if isinstance(p, V) and self.kind(p) in ("set", "map") and not isinstance(p, (Fmt, Join)):
                    self.note(p, "printed as it is", guards)
                else:
                    self.text(p, guards)
        elif isinstance(v, Join):
            self.text(v.sep, guards)
            self.parts(v.parts, guards)
        elif isinstance(v, Seq):
            if v.kind in ("set", "frozenset") and any(not isinstance(p, One) for p in v.parts):
                self.note(v, "printed in the order of a set", guards)
            self.parts(v.parts, guards)
        elif isinstance(v, App):
            if v.op.startswith(UNSTABLE) and (v.op in UNSTABLE or v.op.startswith("ext:")):
                self.bad.append((v, "the text depends on %s, which differs from run to run" % v.op))
            elif v.op in LOSSY:
                return
            elif v.op in ("sorted",) or v.op in WRAP or v.op == "enumerate":
                self.order(v, guards)
            elif v.op in ("next", ".pop", "item", "slice") and v.args:
                a = v.args[0]
                if v.op in ("next", ".pop") and isinstance(a, V):
                    self.order(a, guards, one=True)
                elif v.op == "item" and len(v.args) > 1 and isinstance(v.args[1], Const) and isinstance(v.args[1].v, int) and isinstance(a, V) and self.kind(a) == "seq" and isinstance(a, App):
                    self.order(a, guards, one=True)
                else:
                    for x in v.args:
                        self.text(x, guards)
            elif v.op == "str" and v.args and isinstance(v.args[0], V) and self.kind(v.args[0]) in ("set", "map"):
                self.note(v.args[0], "printed as it is", guards)
            else:
                for x in v.args:
                    self.text(x, guards)

    def parts(self, ps, guards):
        for p in ps:
            if isinstance(p, One):
                self.text(p.v, guards)
            elif isinstance(p, Spread):
                self.order(p.src, guards)
            elif isinstance(p, Each):
                self.order(p.src, guards)
                for g, qs in p.alts:
                    self.parts(qs, tuple(guards) + tuple(g))

    # -- collections whose order shows ---------------------------------------------------------
    def order(self, src, guards, one=False):
        what = "one of its elements is picked" if one else "its elements follow each other"
        while isinstance(src, App) and src.op in ("tuple", "list", "iter", "reversed", "name", "enumerate", "permuted", "unique", "remaining", "str") and src.args:
            src = src.args[0]
        if isinstance(src, App) and src.op == "sorted":
            self.sorted(src, guards)
            return
        if isinstance(src, App) and src.op == "grp":
            # a group: its members in the order in which they were added
            base = self.home(src.args[0])
            if base is None:
                self.unknown.append((src, "the origin of a group is not known"))
            else:
                self.order(base, guards, one)
            return
        if isinstance(src, Grp):
            self.order(App("grp", (src.v, src.k)), guards, one)
            return
        if isinstance(src, Seq):
            if src.kind in ("set", "frozenset") and not (len(src.parts) <= 1 and all(isinstance(p, One) for p in src.parts)):
                self.note(src, what, guards)
            self.parts(src.parts, guards)
            return
        k = self.kind(src)
        if k in ("set", "map") or isinstance(src, App) and src.op in ("set", "frozenset"):
            self.note(src, what, guards)
        elif k == "seq":
            self.good += 1
        elif isinstance(src, (Attr, Sym)) and self.it.type_of(src, self.st) is not None:
            self.good += 1
        else:
            self.unknown.append((src, "not known whether it is ordered"))

    def home(self, v):
        """The collection the innermost element in v belongs to."""
        while isinstance(v, (Attr, Elem)):
            if isinstance(v, Elem):
                return v.src
            v = v.base
        if isinstance(v, App) and v.args and v.op in ("str", "item", "name"):
            return self.home(v.args[0])
        return None

    def note(self, src, what, guards):
        if self.small(src, guards):
            self.good += 1
        else:
            self.bad.append((src, what))

    def sorted(self, v, guards):
        src = v.args[0]
        if isinstance(src, Seq):
            # only the texts of the elements matter
            for p in src.parts:
                if isinstance(p, One):
                    self.text(p.v, guards)
                elif isinstance(p, Each):
                    for g, qs in p.alts:
                        self.parts(qs, tuple(guards) + tuple(g))
        if len(v.args) < 2:
            self.good += 1
            return
        k = v.args[1]
        if self.kind(strip(src)) == "seq" and not isinstance(strip(src), Seq):
            self.good += 1      # a stable sort of a sequence
            return
        r = self.tells_apart(k, src)
        if r:
            self.good += 1
        elif r is None:
            self.unknown.append((v, "not known whether the key of the sort tells the elements apart"))
        else:
            self.bad.append((v, "its elements are sorted by a key that can be the same for different elements"))

    def tells_apart(self, k, src):
        if isinstance(k, Elem):
            return True
        if isinstance(k, Seq):
            rs = [self.tells_apart(p.v, src) for p in k.parts if isinstance(p, One)]
            if True in rs:
                return True
            named = [p.v for p in k.parts if isinstance(p, One) and isinstance(p.v, Attr) and isinstance(p.v.base, Elem)]
            if len(named) > 1:
                t = self.it.type_of(named[0].base, self.st)
                if t and t[0] == "inst":
                    return self.identifies(t[1], frozenset(x.name for x in named))
            return None if None in rs else False
        if isinstance(k, Fmt):
            rs = [self.tells_apart(p, src) for p in k.parts if isinstance(p, V)]
            return True if rs == [True] else None
        if isinstance(k, App):
            if k.op in ("str", "name", "tuple", "list", "repr", "lt_key") and len(k.args) == 1:
                return self.tells_apart(k.args[0], src)
            if k.op in ("card", "len", "not", "isnone", "eq", "in", "isinst", "truthy", "exists", "bool", "typeis", "and", "or", "type", "lt", "is", "hash"):
                return False
            if k.op == "item" and len(k.args) == 2 and isinstance(k.args[0], Elem) and isinstance(k.args[1], Const):
                # entries of a dict: the first component is the key
                b = k.args[0].src
                if k.args[1].v == 0 and self.entries(b):
                    return True
                if self.entries(b):
                    return False
                return None
            return None
        if isinstance(k, Attr) and isinstance(k.base, Elem):
            t = self.it.type_of(k.base, self.st)
            if t and t[0] == "inst":
                return self.identifies(t[1], frozenset([k.name]))
            return None
        if isinstance(k, Const):
            return False
        return None

    def identifies(self, cls, k):
        """Do the attributes decide equality of the elements?"""
        key = (cls, k)
        if key not in self.memo:
            self.memo[key] = None
            k = frozenset(self.ctx.prog.canon(x) for x in k)
            if own_method(cls, "__eq__") is not None:
                f, true, false, raised = eq_true_outcomes(self.ctx, cls)
                got = set()
                for facts, o, s in true:
                    names = set()
                    for c, b in facts:
                        if b and isinstance(c, App) and c.op == "eq" and all(isinstance(x, Attr) and isinstance(x.base, Sym) for x in c.args) and c.args[0].name == c.args[1].name:
                            names.add(self.ctx.prog.canon(c.args[0].name))
                    got.add(True if names and names <= k else False if k <= names else None)
                if len(got) == 1:
                    self.memo[key] = got.pop()
        return self.memo[key]

    def entries(self, v):
        if isinstance(v, App) and v.op == ".items":
            return True
        if isinstance(v, App) and v.op in WRAP and v.args:
            return self.entries(v.args[0])
        if isinstance(v, Seq):
            vals = [q.v for p in v.parts for q in ([p] if isinstance(p, One) else [x for g, qs in p.alts for x in qs] if isinstance(p, Each) else [None]) if isinstance(q, One)]
            return bool(vals) and all(isinstance(x, Pair) or isinstance(x, Seq) and len(x.parts) == 2 and isinstance(x.parts[1], One) and isinstance(x.parts[1].v, Grp) for x in vals)
        return False


def one(ctx, cls):
    coll, opt, other = kinds_of_params(ctx, cls)
    f, outs = printed(ctx, cls, frozenset(coll + opt), coll + opt + other, opt)
    seen = set()
    if not outs:
        ctx.undecided("order", f, "no outcome")
    for o in outs:
        if o.kind == "exc":
            continue
        d = Order(ctx, o.it, o.st)
        d.text(o.it.fz(o.value, o.st), ())
        for src, what in d.bad:
            key = "order:%s:%s" % (cls.name, repr(strip(src))[:120])
            if key not in seen:
                seen.add(key)
                ctx.violation("order", f, "the text of a %s shows the order in which %r is stored: %s" % (cls.name, strip(src), what), key)
        for src, what in d.unknown:
            key = ("?", repr(src)[:200])
            if key not in seen:
                seen.add(key)
                ctx.undecided("order", f, "%r: %s" % (src, what))
        if not d.bad and not d.unknown:
            ctx.ok("order", f, "%s: %d places where elements follow each other" % (cls.name, d.good))


def run(ctx):
    for c in sorted(ctx.prog.classes.values(), key=lambda c: c.qualname):
        f = own_method(c, "__str__")
        if f is None:
            continue
        ctx.guard("order", f, one, ctx, c)
    work = list(members())
    ctx.spread(some, [(work[i::12], down) for i in range(12) for down in ((False, True) if ctx.tier == "thorough" else (False,))])


# -- the same object, filled in another order ------------------------------------------------------
UNORDERED = {"requirements", "types", "constants", "predicates", "functions", "derived_predicates", "actions", "objects", "init", "variables", "type_tags"}


def flip(d):
    """The same description with the unordered components the other way round."""
    if not isinstance(d, O):
        return [flip(x) for x in d] if isinstance(d, list) else {flip(k): x for k, x in d.items()} if isinstance(d, dict) else d
    args, kw = [flip(x) for x in d.args], {k: flip(x) for k, x in d.kw.items()}
    if d.cls in ("Variable", "ForallCondition", "ExistsCondition", "Forall") and len(args) > 1:
        args[1] = args[1][::-1]
    for k in kw:
        if k in UNORDERED:
            kw[k] = dict(list(kw[k].items())[::-1]) if isinstance(kw[k], dict) else kw[k][::-1]
    return O(d.cls, *args, **kw)


def members():
    from . import c31

    X, Y, T = c31.X, c31.Y, c31.TYPES
    XS = [O("Variable", "X", ["T", "U"]), O("Variable", "X", ["S", "U"]), O("Variable", "Y", ["T", "S"]), O("Variable", "Z")]
    for k in ("ForallCondition", "ExistsCondition", "Forall"):
        for vs in ([X, Y], XS[1:], [XS[0], XS[2], XS[3]], [O("Variable", "Y", ["T"]), O("Variable", "Z", ["T"]), X]):
            yield O(k, c31.Q, vs)
    p = O("Predicate", "P", XS[0])
    heads = [p, O("Predicate", "P", X, Y), O("Predicate", "P"), O("Predicate", "Q", XS[2])]
    rules = [O("DerivedPredicate", h, c) for h in heads[:2] for c in (c31.N, c31.NOT_P, c31.Q, c31.AND)]
    actions = [O("Action", n, ps, c, e) for n in ("A", "B") for ps in ([X], [Y]) for c in (c31.P, c31.Q) for e in (c31.N, c31.NOT_P)]
    functions = {c31.F: None, c31.G: "number", O("NumericFunction", "F", XS[0]): None, O("NumericFunction", "F", X, Y): "number"}
    constants = [c31.K, c31.L, c31.KX, O("Constant", "M", "T"), O("Constant", "N", "U")]
    base = {"requirements": c31.REQS, "types": T}
    parts = {"constants": constants, "predicates": heads, "derived_predicates": rules, "actions": actions, "functions": functions}
    yield O("Domain", "DD", **base)
    yield O("Domain", "DD", requirements=c31.REQS, types={"T": None, "U": "T", "S": None, "V": "S", "W": "R"})
    for k, v in parts.items():
        yield O("Domain", "DD", **dict(base, **{k: v}))
    facts = [O("Predicate", n, *ts) for n in ("P", "Q") for ts in ([], [c31.K], [c31.K, c31.L], [c31.L, c31.K])]
    facts += [O("Not", f) for f in facts[2:4]]
    values = [O("functions.EqualTo", O("NumericFunction", "F", *ts), n) for ts in ([], [c31.K]) for n in (c31.ONE, c31.TWO)]
    yield O("Problem", "PP", domain_name="DD", requirements=c31.REQS, objects=constants, init=facts)
    yield O("Problem", "PP", domain_name="DD", init=facts[:4] + values)


def some(ctx, work, down):
    m, back = Maker(ctx), Maker(ctx)
    m.it.descending = back.it.descending = down
    back.it.backwards = True        # the members of a set
    for d in work:
        f = own_method(m.cls(d.cls), "__str__")
        ctx.guard("another order", f, another, ctx, m, back, d, f)


def another(ctx, m, back, d, f):
    one, two = m.text(d), back.text(flip(d))
    if one is None or two is None:
        raise Undecided("the text of %r is not known" % d)
    key = "another order:%s:%s" % (d.cls, next((k for k in d.kw if k not in ("requirements", "types", "domain_name")), "types" if d.kw else "variables"))
    ctx.require(one == two, "another order", f, "%s: %s" % (d.cls, " ".join(one.split())[:120]),
                "the text of a %s changes with the order in which its parts are given: %s or %s" % (d.cls, *[" ".join(x.split()) for x in cut(one, two)]), key)


def cut(a, b):
    """The first lines that differ."""
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            return x[:300], y[:300]
    return a[:300], b[:300]
