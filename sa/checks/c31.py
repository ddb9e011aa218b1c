"""An object gives back what it was built from.

Objects of every class are built from descriptions (constructors are interpreted, names are symbols): every argument is left out, empty, single or several, and its
members are as different as two members can be that must not be confused. Every public attribute is read by interpretation and compared with the description.
"""
import itertools

from ..api import *
from ..built import Maker, O, Req
from ..texts import bare, is_word

MINIMUM = 300

X, Y, Z = O("Variable", "X"), O("Variable", "Y", ["T"]), O("Variable", "Z", ["T", "U"])
XT, XO = O("Variable", "X", ["T"]), O("Variable", "X", ["object"])
K, L, KX = O("Constant", "K"), O("Constant", "L", "T"), O("Constant", "X")
N, P, Q = O("Predicate", "N"), O("Predicate", "P", X), O("Predicate", "Q", X, Y)
NOT_P, AND, OR = O("Not", P), O("And", P, Q), O("Or", P, Q)
F, G, ONE, TWO = O("NumericFunction", "F"), O("NumericFunction", "G", X), O("NumericValue", 1), O("NumericValue", 2)
SUM = O("Plus", F, ONE)
TERMS = [[], [X], [K], [Y, X], [X, Y, Z], [X, X], [K, X, K], [L, KX, X, Y]]
FORMULAS = [N, Q, NOT_P, AND, OR, O("Imply", P, Q), O("ForallCondition", P, [X]), O("predicates.EqualTo", X, K), O("GreaterThan", F, ONE)]
EFFECTS = [N, NOT_P, O("And", P, O("Not", N)), O("When", P, Q), O("Forall", Q, [X]), O("Increase", F, ONE), O("OneOf", P, Q)]
VARIABLES = [[], [X], [Y], [X, Y], [Z, Y, X], [X, XT]]

Ordered, Unordered = "ordered", "unordered"


def cases():
    """(class, description, {attribute: (how, what is expected)})"""
    for ts in TERMS:
        yield O("Predicate", "P", *ts), {"name": "P", "terms": (Ordered, ts), "arity": len(ts)}
        yield O("NumericFunction", "F", *ts), {"name": "F", "terms": (Ordered, ts), "arity": len(ts)}
    for l, r in itertools.product([X, Y, K, L], repeat=2):
        yield O("predicates.EqualTo", l, r), {"left": l, "right": r}
    for tags in ([], ["T"], ["T", "U"], ["U", "T", "S"], ["object"], ["object", "T"]):
        yield O("Variable", "X", tags), {"name": "X", "type_tags": (Unordered, tags)}
    yield O("Variable", "X"), {"name": "X", "type_tags": (Unordered, [])}
    for t in (None, "T", "object"):
        yield O("Constant", "K", t), {"name": "K", "type_tag": t, "type_tags": (Unordered, [t] if t else [])}
    for p, c in itertools.product([N, P, Q], [N, AND, NOT_P, O("ForallCondition", P, [X])]):
        yield O("DerivedPredicate", p, c), {"predicate": p, "condition": c}
    for f in FORMULAS:
        yield O("Not", f), {"argument": f}
        for vs in VARIABLES:
            for k in ("ForallCondition", "ExistsCondition"):
                yield O(k, f, vs), {"condition": f, "variables": (Unordered, vs)}
        yield O("When", f, P), {"condition": f, "effect": P}
    for e in EFFECTS:
        yield O("When", P, e), {"condition": P, "effect": e}
        for vs in VARIABLES:
            yield O("Forall", e, vs), {"effect": e, "variables": (Unordered, vs)}
    yield O("Not", NOT_P), {"argument": NOT_P}
    for a, b in ((P, Q), (Q, P), (NOT_P, AND), (AND, OR), (P, P)):
        yield O("Imply", a, b), {"operands": (Ordered, [a, b])}
    for k, mine, other in (("And", AND, OR), ("Or", OR, AND), ("OneOf", None, AND)):
        for ops in ([P, Q], [Q, P], [NOT_P, other], [N, P, NOT_P, Q]):
            yield O(k, *ops), {"operands": (Ordered, ops)}
    yield O("And"), {"operands": (Ordered, [])}
    for k in ("GreaterThan", "GreaterEqualThan", "LesserThan", "LesserEqualThan", "functions.EqualTo"):
        for a, b in ((F, G), (G, F), (SUM, ONE), (ONE, F)):
            yield O(k, a, b), {"operands": (Ordered, [a, b])}
    for k in ("Assign", "Increase", "Decrease", "ScaleUp", "ScaleDown"):
        for a, b in ((F, G), (G, SUM), (F, ONE)):
            yield O(k, a, b), {"operands": (Ordered, [a, b])}
    for k in ("Plus", "Times", "Minus", "Divide"):
        for a, b in ((F, G), (G, F), (SUM, ONE), (O(k, F, G), TWO), (TWO, O(k, F, G))):
            yield O(k, a, b), {"operands": (Ordered, [a, b])}
    for n in (0, 1, 2.5):
        yield O("NumericValue", n), {"value": n}
    for e in (F, G, SUM):
        yield O("Metric", e), {"expression": e, "optimization": "minimize"}
        for o in ("minimize", "maximize"):
            yield O("Metric", e, o), {"expression": e, "optimization": o}
    for ps in ([], [X], [Y, X], [X, Y, Z], [Z, X, Y], [X, Y, X], [X, XT]):
        yield O("Action", "A", ps), {"name": "A", "parameters": (Ordered, ps), "terms": (Ordered, ps), "precondition": None, "effect": None}
        yield O("Action", "A", ps, precondition=AND), {"name": "A", "parameters": (Ordered, ps), "precondition": AND, "effect": None}
        yield O("Action", "A", ps, effect=AND), {"name": "A", "parameters": (Ordered, ps), "precondition": None, "effect": AND}
    for f, e in itertools.product(FORMULAS, EFFECTS):
        yield O("Action", "A", [X], f, e), {"name": "A", "parameters": (Ordered, [X]), "precondition": f, "effect": e}
    for steps in ([], [("A", [])], [("A", [K, L]), ("B", [L, K]), ("A", [K, L])], [("B", [K]), ("A", [K, K])]):
        yield O("Plan", [list(s) for s in steps]), {"actions": (Ordered, [("step", n, cs) for n, cs in steps])}
    yield from domains()
    yield from problems()


REQS = [Req("STRIPS"), Req("TYPING"), Req("NUMERIC_FLUENTS"), Req("DERIVED_PREDICATES"), Req("EQUALITY"), Req("NEG_PRECONDITION")]
TYPES = {"T": None, "U": "T", "S": "T", "V": "U"}
A, B, C = O("Action", "A", [X], P, NOT_P), O("Action", "B", [X], P, NOT_P), O("Action", "C", [])
A2, A3 = O("Action", "A", [X], Q, NOT_P), O("Action", "A", [X, Y], P, NOT_P)
DP, DQ, DN = O("DerivedPredicate", P, NOT_P), O("DerivedPredicate", Q, P), O("DerivedPredicate", P, N)


def domains():
    plain = {"name": "DD", "requirements": (Unordered, REQS), "types": ("map", TYPES), "constants": (Unordered, []), "predicates": (Unordered, []), "functions": ("map", {}),
             "derived_predicates": (Unordered, []), "actions": (Unordered, [])}
    base = {"requirements": REQS, "types": TYPES}
    none = dict(plain, requirements=(Unordered, []), types=("map", {}))
    yield O("Domain", "DD"), none
    yield O("Domain", "DD", requirements=[Req("STRIPS")]), dict(none, requirements=(Unordered, [Req("STRIPS")]))
    yield O("Domain", "DD", requirements=[Req("ADL")]), dict(none, requirements=(Unordered, [Req("ADL")]))
    yield O("Domain", "DD", types={"T": None, "U": None}), dict(none, types=("map", {"T": None, "U": None}))
    for ts in ({"T": "object"}, {"T": "W"}, {"T": "object", "U": "T", "W": None}):
        yield O("Domain", "DD", requirements=[Req("TYPING")], types=ts), dict(none, requirements=(Unordered, [Req("TYPING")]), types=("map", ts))
    sets = {"constants": ([K], [K, L], [L, KX, K]), "predicates": ([N], [P, Q], [P, O("Predicate", "P", X, Y), O("Predicate", "P"), Q]),
            "derived_predicates": ([DP], [DP, DQ], [DP, DN, DQ]), "actions": ([A], [A, B, C], [A, A2, A3, B])}
    for k, ways in sets.items():
        for w in ways:
            yield O("Domain", "DD", **dict(base, **{k: w})), dict(plain, **{k: (Unordered, w)})
    for fs in ({F: None}, {F: None, G: "number"}, {G: "number", F: None, O("NumericFunction", "F", X): None}):
        yield O("Domain", "DD", functions=fs, **base), dict(plain, functions=("map", fs))
    full = {k: ways[-1] for k, ways in sets.items()}
    yield O("Domain", "DD", functions={F: None, G: None}, **dict(base, **full)), dict(plain, functions=("map", {F: None, G: None}), **{k: (Unordered, w) for k, w in full.items()})


def problems():
    none = {"name": "PP", "domain_name": "DD", "requirements": (Unordered, []), "objects": (Unordered, []), "init": (Unordered, []), "goal": O("And"), "metric": None}
    dom = O("Domain", "DD", requirements=REQS, types=TYPES, constants=[KX])
    fact = lambda *ts: O("Predicate", "P", *ts)
    value = O("functions.EqualTo", O("NumericFunction", "G", K), ONE)
    parts = {"objects": ([K], [K, L], [L, K, O("Constant", "M", "U")]), "init": ([N], [fact(K), fact(L), fact()], [fact(K), O("Not", fact(L)), O("Not", fact(K)), value])}
    goals = [N, fact(K), O("Not", fact(K)), O("And", fact(K), N), O("And"), O("ForallCondition", fact(X), [X])]
    metrics = [O("Metric", SUM), O("Metric", F, "maximize")]
    for how, given in (("name", {"domain_name": "DD"}), ("domain", {"domain": dom}), ("both", {"domain": dom, "domain_name": "DD"})):
        base = dict(none)
        if how != "name":
            base.update(domain=dom, requirements=(Unordered, REQS))
        yield O("Problem", "PP", **given), base
        yield O("Problem", "PP", requirements=REQS, **given), dict(base, requirements=(Unordered, REQS))
        for k, ways in parts.items():
            for w in ways:
                yield O("Problem", "PP", **dict(given, **{k: w})), dict(base, **{k: (Unordered, w)})
        for x in goals:
            yield O("Problem", "PP", goal=x, **given), dict(base, goal=x)
        for x in metrics:
            yield O("Problem", "PP", metric=x, **given), dict(base, metric=x)
        yield O("Problem", "PP", requirements=REQS, objects=parts["objects"][-1], init=parts["init"][-1], goal=goals[3], metric=metrics[0], **given), \
            dict(base, requirements=(Unordered, REQS), objects=(Unordered, parts["objects"][-1]), init=(Unordered, parts["init"][-1]), goal=goals[3], metric=metrics[0])


def run(ctx):
    work = list(cases())
    step = 16
    ctx.spread(some, [(work[i:i + step],) for i in range(0, len(work), step)])


def some(ctx, work):
    m = Maker(ctx)
    for d, want in work:
        try:
            where = m.cls(d.cls).find("__init__")[2]
        except Undecided as e:
            ctx.undecided("given back", d.cls, str(e))
            continue
        ctx.guard("given back", where, one, ctx, m, d, want)


def one(ctx, m, d, want):
    outs = m.outcomes(d)
    if len(outs) != 1:
        raise Undecided("building %r has %d outcomes" % (d, len(outs)))
    s, v = outs[0]
    if isinstance(v, Exc):
        raise Undecided("building %r fails: %s" % (d, short(v.exc, 100)))
    for a, w in want.items():
        f = m.cls(d.cls).find(a)
        if not f:
            ctx.undecided("given back", m.cls(d.cls), "%s has no %s" % (d.cls, a))
            continue
        ctx.guard("given back", f[2] if f[1] in ("method", "property") else m.cls(d.cls), attribute, ctx, m, d, s, v, a, w, f)


def attribute(ctx, m, d, s, v, a, w, f):
    m.it.nstates = 0
    outs = m.it.getattr(v, a, s, None)
    where = f[2] if hasattr(f[2], "node") else m.cls(d.cls)
    if len(outs) != 1:
        raise Undecided("%s of %r has %d values" % (a, d, len(outs)))
    s2, x = outs[0]
    if isinstance(x, Exc):
        ctx.violation("given back", where, "%s of %r cannot be read: %s" % (a, d, short(x.exc, 100)), "%s.%s" % (d.cls, a))
        return
    got = told(m, x, s2)
    exp = expected(m, w)
    if exp[0] == "set" and got[0] in ("seq", "set"):
        got = ("set", tuple(sorted(got[1], key=repr)))
    elif exp[0] == "map" and got[0] == "set":
        got = ("map",) + got[1:]
    ctx.require(got == exp, "given back", where, "%s of %r" % (a, d),
                "%r gives back %s as its %s instead of %s" % (d, say(got), a, say(exp)), "%s.%s" % (d.cls, a))


def expected(m, w):
    if isinstance(w, tuple) and w[0] == Ordered:
        return ("seq", tuple(expected(m, x) for x in w[1]))
    if isinstance(w, tuple) and w[0] == Unordered:
        return ("set", tuple(sorted((expected(m, x) for x in w[1]), key=repr)))
    if isinstance(w, tuple) and w[0] == "map":
        return ("map", tuple(sorted((("pair", expected(m, k), expected(m, x)) for k, x in w[1].items()), key=repr)))
    if isinstance(w, tuple) and w[0] == "step":
        return ("seq", (expected(m, w[1]), ("seq", tuple(expected(m, x) for x in w[2]))))
    return told(m, m.value(w), State())


def told(m, v, s):
    """What a value is, without regard to how it is stored."""
    v = bare(m.it.fz(v, s))
    if is_word(v):
        return ("text", v.name[5:])
    if isinstance(v, Const):
        return ("text", v.v) if isinstance(v.v, str) else ("const", v.v)
    if isinstance(v, Enum_):
        return ("enum", v.member)
    if isinstance(v, New):
        return ("object", v.cls.name) + tuple((n, told(m, x, s)) for n, x in v.fields)
    if isinstance(v, App) and v.op == "name" and len(v.args) == 1:
        return told(m, v.args[0], s)
    ps = m.it.parts_of(v, s)
    if ps is None or not all(isinstance(p, One) for p in ps):
        raise Undecided("the elements of %s are not known" % short(v, 80))
    inner = []
    for p in ps:
        x = p.v
        inner.append(("pair", told(m, x.k, s), told(m, x.v, s)) if isinstance(x, Pair) else told(m, x, s))
    kind = v.kind if isinstance(v, Seq) else "list"
    if kind in ("set", "frozenset", "dict"):
        return ("set", tuple(sorted(inner, key=repr)))
    return ("seq", tuple(inner))


def say(x):
    k = x[0]
    if k in ("text", "const", "enum"):
        return str(x[1])
    if k == "object":
        return "%s(%s)" % (x[1], ", ".join("%s" % say(y) for _, y in x[2:]))
    if k == "pair":
        return "%s: %s" % (say(x[1]), say(x[2]))
    return "[%s]" % ", ".join(say(y) for y in x[1])
