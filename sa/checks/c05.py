"""Equality: every component and the kind is compared, and the relation is reflexive and symmetric.

For every class with an equality, the constructor is interpreted to find which fields carry which
constructor argument; every path of the equality that ends in True must have established that the
other object is of the same kind and that these fields coincide; every path that ends in False must
have found a difference; comparing an object with itself has only the outcome True.
"""
from ..eqcommon import *

MINIMUM = 100
# identity by name only: an object and its typed declaration are the same thing (documented for terms)
NAME_ONLY = {("Constant", "type_tag")}


def run(ctx):
    classes = value_classes(ctx)
    kinds = {}
    for c in classes:
        f = own_method(c, "__eq__")
        ctx.guard("eq", f, one, ctx, c, kinds)
    # symmetry across classes: d == c and c == d are decided by different methods
    for c, (k, exact, f) in kinds.items():
        bad = None
        for d, (kd, exd, _) in kinds.items():
            if d is c:
                continue
            acc_cd = (d is k) if exact else d.is_subclass(k)
            acc_dc = (c is kd) if exd else c.is_subclass(kd)
            if acc_cd and not acc_dc:
                bad = d
            if acc_cd and acc_dc and not (c.is_subclass(d) or d.is_subclass(c)):
                ctx.violation("kind", f, "objects of the different kinds %s and %s can be equal" % (c.name, d.name), "%s=%s" % tuple(sorted((c.name, d.name))))
        ctx.require(bad is None, "symmetry", f, "%s accepts only its own kind" % c.name,
                    "%s == %s can hold while %s == %s cannot" % (c.name, getattr(bad, "name", ""), getattr(bad, "name", ""), c.name))


def one(ctx, c, kinds):
    f, true, false, raised = eq_true_outcomes(ctx, c)
    comp = component_fields(ctx, c)
    a, b = selfsym(c), Sym(OTHER, inst(c, True))
    if not true:
        ctx.violation("reflexive", f, "%s.__eq__ never returns True" % c.name)
        return
    for facts, o, s in true:
        k = kind_fact(facts)
        if not ctx.require(k is not None, "kind", f, "%s: kind compared" % c.name, "%s: an object of any other kind can compare equal (%s)" % (c.name, fmt_guard(facts))):
            continue
        if c.name in kinds and kinds[c][0] is not k[0]:
            pass
        kinds[c] = (k[0], k[1], f)
        ef = EqFacts(facts)
        for p, fields in comp.items():
            if (c.name, p) in NAME_ONLY:
                continue
            good = False
            names = []
            r = c.find(p)
            if r and r[1] == "method" and r[2].kind == "property":
                names.append(p)
            names += fields
            for n in names:
                x, y = attr_value(ctx, o, s, a, n), attr_value(ctx, o, s, b, n)
                if x is None or y is None:
                    continue
                if ef.same(x, y):
                    good = True
                    break
            if not fields and not names:
                ctx.ok("component", f, "%s: argument %s is not stored" % (c.name, p))
                continue
            ctx.require(good, "component", f, "%s.%s compared" % (c.name, p),
                        "two %s objects that differ in %r can compare equal (established: %s)" % (c.name, p, fmt_guard([g for g in facts if g[1]])),
                        "%s.%s" % (c.name, p))
    for facts, o, s in false:
        neg = [(x, v) for x, v in facts if not v and isinstance(x, App)]
        last = facts[-1] if facts else None
        why = any(x.op in ("eq", "isinst", "typeis") for x, v in neg)
        if not why:
            why = any(x.op in ("isinst", "typeis", "isnone", "exists") and v and mentions_kind(x) for x, v in facts[-1:])
        ctx.require(why, "difference", f, "%s: unequal only after a difference" % c.name,
                    "two %s objects can be unequal although no difference was found (%s)" % (c.name, fmt_guard(facts)))
    # reflexivity
    bad = None
    for o in outcomes(ctx, f, [a], self_=a):
        if o.kind == "exc":
            continue
        for facts, val, s in split_bool(o):
            if not val:
                bad = facts
    ctx.require(bad is None, "reflexive", f, "%s: x == x" % c.name, "%s: x == x can be False (%s)" % (c.name, fmt_guard(bad or ())))
    # the relation is its own mirror image
    def norm(x, v):
        if x.op == "eq":
            return (App("eq", tuple(sorted(x.args))), v)
        return (x, v)

    sa, so = Sym(SELF, None), Sym(OTHER, None)
    paths, mirrored = set(), set()
    for facts, o, s in true:
        fs = [(x, v) for x, v in facts if isinstance(x, App) and x.op not in ("isinst", "typeis")]
        paths.add(frozenset(norm(x, v) for x, v in fs))
        mirrored.add(frozenset(norm(swap(x, sa, so), v) for x, v in fs))
    odd = sorted(map(repr, mirrored ^ paths))
    ctx.require(not odd, "symmetry", f, "%s: swapping the operands compares the same" % c.name,
                "%s compares different things when the operands are swapped: %s" % (c.name, short(odd[0] if odd else "", 600)), "%s:mirror" % c.name)


def mentions_kind(x):
    return x.op in ("isnone", "exists")
