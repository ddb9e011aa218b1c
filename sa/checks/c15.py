"""A construct that needs a requirement is accepted exactly when the declared requirements allow it.

For every set of declared requirements considered, the requirements callback is interpreted on the declaration, and
every callback is then interpreted on every expansion of its productions with the recorded requirements.  Gated
constructs come back only where a sufficient requirement was declared or is implied, and a missing requirement is
reported only where none was.
"""
from ..parsing import *
from ..state import HSeq

MINIMUM = 300
Q = ("QUANTIFIED_PRECONDITION", "ADL")
GATES = {
    "pddl.logic.predicates.EqualTo": {"EQUALITY", "ADL"},
    "pddl.logic.base.Or": {"DIS_PRECONDITION", "ADL"},
    "pddl.logic.base.Imply": {"DIS_PRECONDITION", "ADL"},
    "pddl.logic.base.ExistsCondition": {"EXISTENTIAL_PRECONDITION", *Q},
    "pddl.logic.base.ForallCondition": {"UNIVERSAL_PRECONDITION", *Q},
    "pddl.logic.base.OneOf": {"NON_DETERMINISTIC"},
}
TYPING = {"TYPING", "ADL"}


def run(ctx):
    tb = Table(ctx).build()
    req = ctx.prog.cls("Requirements")
    members = [m for m in req.attrs if not m.startswith("_")]
    if len(members) < 10:
        raise Undecided("requirements not found")
    texts = {}
    for m in members:
        it = Interp(ctx.prog)
        texts[m] = it.enum_attr(Enum_(req, m), "value", State(), None)[0][1].v
    scen = [(), tuple(members)] + [(m,) for m in members]
    if ctx.tier == "thorough":
        scen += [(a, b) for i, a in enumerate(members) for b in members[i + 1:]]
    domain = next(tr for s, tr, _ in tb.parsers if s == "domain")
    for start, tr, pc in tb.parsers:
        if "requirements" not in tb.g.reachable(start):
            continue
        over = {}
        for sc in scen:
            over[sc] = ctx.guard("declare", tr.qualname, recorded, ctx, tr, [texts[m] for m in sc])
            if over[sc] is None:
                return
        every = {f: v for f, v in over[tuple(members)].items()}
        vary = {k for sc in scen for k, v in over[sc].items() if over[()].get(k) != v or every.get(k) != v}
        if not vary:
            ctx.undecided("declare", tr.qualname, "the declared requirements leave no trace in the parser")
            continue
        gated = []
        for c in tb.cases:
            if c.tr is not tr:
                continue
            ks = {o.value.cls.qualname for o in c.outs or () if o.kind == "ret" and isinstance(o.value, New) and not impossible_name(o.facts)} & set(GATES)
            miss = any(o.kind == "exc" and missing(o) for o in c.outs or () if not impossible_name(o.facts))
            typ = c.rule.name == "types"
            if ks or miss or typ:
                gated.append((c, ks, typ))
        kinds = {k for c, ks, t in gated for k in ks}
        for k in GATES:
            if start == "domain" or k != "pddl.logic.base.OneOf":
                ctx.require(k in kinds, "gated", tr.qualname, "%s comes from the parser of a %s" % (k, start), "the parser of a %s never yields %s" % (start, k), start + k)
        for sc in scen:
            allowed_all = not sc and start == "problem"
            for c, ks, typ in gated:
                ctx.guard("gate", c.func, one, ctx, tb, c, ks, typ, sc, allowed_all, {k: v for k, v in over[sc].items() if k in vary})
    for c in tb.cases:
        if c.outs is None:
            ctx.undecided("gate", c.func, "%r: %s" % (c, c.error))


def missing(o):
    v = o.value
    v = v.exc if isinstance(v, Exc) else v
    c = getattr(v, "cls", None)
    return (c.name if isinstance(c, ClassInfo) else str(c)).endswith("PDDLMissingRequirementError")


def recorded(ctx, tr, declared):
    """{(path of attribute names): value} of the parser's fields after the declaration."""
    it = Interp(ctx.prog, max_states=20000)
    it.nstates = 0
    made = it.instantiate(tr, [], {}, State(), None)
    if len(made) != 1 or isinstance(made[0][1], Exc):
        raise Undecided("constructor of %s" % tr.name)
    st, r = made[0]
    if declared:
        f = own_method(tr, "requirements")
        toks = [Const("("), Const(":requirements")] + [Const(":" + t) for t in declared] + [Const(")")]
        outs = it.run(f, [Seq("list", tuple(One(t) for t in toks))], None, r, st)
        if len(outs) != 1 or outs[0][1] != "ret":
            raise Undecided("declaring %s has %d outcomes" % (declared, len(outs)))
        st = outs[0][0]
    ctx.analysed.update(getattr(it, "visited", ()))
    out = {}

    def fields(ref, path):
        h = st.heap.get(ref.id)
        if not hasattr(h, "fields") or len(path) > 3:
            return
        for n, v in h.fields.items():
            if isinstance(v, Ref) and hasattr(st.heap.get(v.id), "fields"):
                fields(v, path + (n,))
            else:
                out[path + (n,)] = it.fz(v, st)
    fields(r, ())
    return out


def one(ctx, tb, c, ks, typ, sc, allowed_all, fields):
    st = tb.state(c)
    base = tb.selfval(c.tr)
    if typ:
        return hierarchy(ctx, tb, c, sc, allowed_all, fields)
    for path, v in fields.items():
        o = base
        for n in path[:-1]:
            o = Attr(o, n)
        st.over[(o, path[-1])] = v
    forks = [st]
    if getattr(c, "tree", None):
        forks = []
        for ch in c.tree[1]:
            s = st.clone()
            s.over[(c.tree[0], "children")] = ch
            forks.append(s)
    outs = []
    for s in forks:
        outs += [o for o in outcomes(ctx, c.func, [Seq("list", tuple(c.args))], self_=base, st=s, no_inline=tb.opaque, attr_types=tb.attr_hints(c))
                 if not impossible_name(o.facts)]
    what = "%r with %s" % (c, " ".join(sc) or "no requirements")
    key = "%s %s" % (c.tr.name, c.name)
    open_ = {k for k in ks if allowed_all or set(sc) & GATES[k]}
    rejected = [o for o in outs if missing(o)]
    for k in ks:
        got = [o for o in outs if o.kind == "ret" and isinstance(o.value, New) and o.value.cls.qualname == k]
        name = k.rsplit(".", 1)[1]
        if k in open_:
            ctx.require(bool(got), "accepted", c.func, what, "%s: %s is never accepted" % (what, name), key)
        else:
            ctx.require(not got, "rejected", c.func, what, "%s: %s is accepted" % (what, name), key)
            for o in rejected:
                reported(ctx, c, o, GATES[k], what)
    if ks == open_:
        ctx.require(not rejected, "accepted", c.func, what, "%s: rejected for a missing requirement %s when %s" % (what, rejected and short(rejected[0].value), rejected and short(fmt_guard(rejected[0].facts), 200)), key)


def reported(ctx, c, o, allowed, what):
    v = o.value.exc if isinstance(o.value, Exc) else o.value
    names = {x.member for a in v.args for x in walk(a) if isinstance(x, Enum_)}
    ctx.require(bool(names) and names <= allowed, "reported", c.func, "%s: reports %s" % (what, sorted(names)),
                "%s: the missing requirement reported is %s, one of %s would help" % (what, sorted(names), sorted(allowed)), c.name)


A, B, OBJ = Const("a"), Const("b"), Const("object")
HIERARCHIES = [
    ("no types", (), False), ("a", ((A, NONE),), False), ("a - object", ((A, OBJ),), False), ("a b - object", ((A, OBJ), (B, OBJ)), False),
    ("a - b", ((A, B),), True), ("a - object b - a", ((A, OBJ), (B, A)), True), ("b - a a", ((B, A), (A, NONE)), True), ("a - b b - object", ((A, B), (B, OBJ)), True),
]


def hierarchy(ctx, tb, c, sc, allowed_all, fields):
    """Types with a supertype other than object need typing; a flat list does not."""
    base = tb.selfval(c.tr)
    for text, pairs, deep in HIERARCHIES:
        st = State()
        for path, v in fields.items():
            o = base
            for n in path[:-1]:
                o = Attr(o, n)
            st.over[(o, path[-1])] = v
        it = Interp(ctx.prog)
        d = it.alloc(st, HSeq("dict", tuple(One(Pair(k, v)) for k, v in pairs)))
        args = tuple(One(d) if isinstance(p, One) and isinstance(p.v, Sym) and p.v.name.startswith("r:") else p for p in c.args)
        outs = outcomes(ctx, c.func, [Seq("list", args)], self_=base, st=st, no_inline=tb.opaque)
        ok = allowed_all or bool(set(sc) & TYPING) or not deep
        what = "(:types %s) with %s" % (text, " ".join(sc) or "no requirements")
        rejected = [o for o in outs if missing(o)]
        got = [o for o in outs if o.kind == "ret"]
        if ok:
            ctx.require(got and not rejected, "typing", c.func, what, "%s is rejected: %s" % (what, [short(o.value, 80) for o in outs][:2]), "types " + text)
        else:
            ctx.require(rejected and not got, "typing", c.func, what, "%s is accepted" % what, "types " + text)
            for o in rejected:
                reported(ctx, c, o, TYPING, what)
