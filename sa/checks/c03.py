"""Typed lists are printed so that every name keeps its own type.

Sections of names and functions: every printed group closes with the declared type of its members, and untyped names
come last.  Lists of variables: a variable is printed bare exactly when it has no type, with '- t' only when t is its
only type, and with (either ...) otherwise; where the order is free, the untyped ones come last.
"""
from ..built import *
from ..parsing import Table
from ..sections import *
from ..skeleton import sexp, typed
from . import c01, c02

MINIMUM = 40


def run(ctx):
    ctx.tb = Table(ctx).build()
    for start, tr, pc in ctx.tb.parsers:
        kinds = [k for k in ctx.tb.produced.get((tr, start), ()) if isinstance(k, ClassInfo)]
        if start not in ("domain", "problem") or len(kinds) != 1 or own_method(kinds[0], "__str__") is None:
            continue
        cls = kinds[0]
        ctx.guard("typed lists", own_method(cls, "__str__"), whole, ctx, start, tr, cls)
    for c in sorted(set(ctx.prog.classes.values()), key=lambda c: c.qualname):
        f = own_method(c, "__str__")
        if f is None or f.cls is not c and f.qualname in ctx.analysed:
            continue
        if c.is_enum or c.name in ("Domain", "Problem", "Plan"):
            continue
        ctx.guard("typed variables", f, each_class, ctx, c, f)
    patterns(ctx)


def each_class(ctx, c, f):
    for o in outcomes(ctx, f, [], self_=selfsym(c)):
        if o.kind == "ret":
            items = Lexer(ctx, ctx.tb.g, o.it, o.st).items(o.value)
            variables(ctx, items, o.facts, f, c.name)


def whole(ctx, start, tr, cls):
    ls = layouts(ctx.tb.g, start)
    names = {w: r for h, seq in ls for ks, rep in seq for w, r in ks.items()}
    coll, opt, other, scen = c02.scenarios(ctx, cls)
    done = set()
    for sc in scen:
        if len(sc) != 1:
            continue
        f, outs = printed(ctx, cls, sc, coll + opt + other, opt)
        for o in outs:
            if o.kind == "exc" or c02.contradictory(o, sc, ctx, cls):
                continue
            what = "%s with %s" % (cls.name, ", ".join(sorted(sc)))
            r = sections(ctx, o)
            if isinstance(r, str):
                ctx.undecided("typed list", f, "%s: %s" % (what, r))
                continue
            for s in r[1]:
                if s.keyword not in names:
                    continue
                rule = names[s.keyword]
                k = repr((s.keyword, s.stream, s.alts, [x for x in o.facts if isinstance(x[0], App) and x[0].op in ("exists", "card")]))
                if k in done:
                    continue
                done.add(k)
                key = "types:%s:%s" % (start, s.keyword)
                lx = SecLexer(ctx, ctx.tb.g, o.it, o.st)
                streams = [((), s.stream)] if s.src is None else s.alts
                for g, st in streams:
                    if st:
                        variables(ctx, lx.tokens(list(st)), tuple(o.facts) + tuple(g), f, "%s, %s" % (what, s.keyword))
                if s.src is None and c02.typed_rule(ctx.tb.g, rule):
                    body, sep = c02.body_of(s.stream, s.keyword)
                    if body:
                        vals = {p: c02.value_of(ctx, cls, p, o) for p in coll + opt + other}
                        c02.typed(ctx, cls, rule, s, body, vals, f, o, what, key, "type")


def variables(ctx, items, facts, f, what):
    for i, gds in walk_guarded(items, ()):
        if i.kind != "tvars":
            continue
        base = strip(i.a)
        if isinstance(base, App) and base.op == "enumerate":
            base = strip(base.args[0])
        tags = Attr(Elem(base, 0), "type_tags")
        key = "vars:%s" % f.qualname
        alts = list(i.b)
        bad = [k for g, k in alts if k.startswith("bad")]
        if bad:
            ctx.violation("typed variables", f, "%s prints a variable as %s" % (what, bad[0]), key)
            continue
        colls = {x for g, k in alts for c, b in g for x in walk(c) if isinstance(x, Attr) and x.name == "type_tags"}
        if colls and tags not in colls:
            ctx.undecided("typed variables", f, "%s: variables of %s" % (what, short(base)))
            continue
        want = {0: {"none"}, 1: {"single", "either"}, 2: {"either"}}
        firsts, rest = without_first(alts)
        groups = [firsts, rest] if firsts else [rest]
        if firsts:
            groups = [firsts + [x for x in rest if not x[2]], rest]
        wrong = None
        for grp in groups:
            cs = Cases([g for g, k, fl in grp] + [((App("card", (tags, frozenset([0]))), True),)])
            for a in cs:
                ks = [k for g, k, fl in grp if cs.holds(g, a)]
                if a[tags] == 0 and ks and set(ks) <= {"none", "object"}:
                    continue        # which of them is printed depends on what follows (see `patterns`)
                if len(ks) != 1 or ks[0] not in want[a[tags]]:
                    wrong = (a[tags], ks)
                    break
            if wrong:
                break
        ctx.require(wrong is None, "typed variables", f, "%s: %s" % (what, short(base)),
                    "%s: a variable with %s is printed %s" % (what, {0: "no type", 1: "one type", 2: "several types"}[wrong[0]] if wrong else "",
                                                            " and ".join({"none": "without type", "single": "with one type", "either": "with alternatives", "object": "with the type object"}[k] for k in wrong[1]) or "not at all" if wrong else ""), key)
        order(ctx, i, f, what, key)


def order(ctx, i, f, what, key):
    """Where the printed order is not that of a sequence, the untyped variables have to come last."""
    src = i.a
    ops = []
    while isinstance(src, App) and src.op in ("enumerate", "list", "tuple", "iter"):
        src = src.args[0]
    if not (isinstance(src, App) and src.op in ("sorted", "set", "frozenset", "reversed", "unique", "permuted")):
        return
    if src.op != "sorted" or len(src.args) < 2:
        ctx.violation("order", f, "%s: the variables of %s are printed in an order that mixes typed and untyped ones" % (what, short(src)), key)
        return
    tags = Attr(Elem(strip(src), 0), "type_tags")
    k = src.args[1]
    first = k.parts[0].v if isinstance(k, Seq) and k.parts and isinstance(k.parts[0], One) else k
    v = [truth_at(first, tags, n) for n in (0, 1, 2)]
    if None in v and isinstance(first, (Elem, Attr)):
        v = [0, 0, 0]
    if None in v:
        ctx.undecided("order", f, "%s: sort key %s" % (what, short(k)))
        return
    rev = len(src.args) > 2 and src.args[2] == TRUE
    good = v[0] > max(v[1], v[2]) if not rev else v[0] < min(v[1], v[2])
    ctx.require(good, "order", f, "%s: untyped variables last" % what, "%s: untyped variables of %s are not printed last" % (what, short(strip(src))), key)


def truth_at(v, tags, n):
    """Value of a sort key for a variable with n types (2: several)."""
    if isinstance(v, Const):
        return int(v.v) if isinstance(v.v, (bool, int)) else None
    if isinstance(v, App):
        if v.op in ("bool", "int") and len(v.args) == 1:
            return truth_at(v.args[0], tags, n)
        if v.op == "not":
            x = truth_at(v.args[0], tags, n)
            return None if x is None else int(not x)
        if v.op == "card" and strip(v.args[0]) == tags:
            return int(n in v.args[1])
        if v.op == "neg" or v.op == "-" and len(v.args) == 1:
            x = truth_at(v.args[0], tags, n)
            return None if x is None else -x
        if v.op == "len" and strip(v.args[0]) == tags:
            return n
    return None


def walk_guarded(items, gds):
    for i in items:
        yield i, gds
        if i.kind == "rep":
            yield from walk_guarded(i.b, gds)
        if i.kind == "altrep":
            for gd, t, s in i.b:
                yield from walk_guarded(t, gds + tuple(gd))


TYPES = ((), ("T",), ("T", "U"), ("S",))


def V(i, ts):
    return O("Variable", "X%d" % i, list(ts))


def domain(**kw):
    return O("Domain", "DD", requirements=[Req("TYPING"), Req("NUMERIC_FLUENTS")], types={"T": None, "U": None, "S": None}, **kw)


# what holds the list, and the start of the list in the text
LISTS = [
    ("the parameters of an action", lambda vs: O("Action", "A", parameters=vs, precondition=None, effect=None), ":parameters", True),
    ("the terms of a declared predicate", lambda vs: domain(predicates=[O("Predicate", "P", *vs)]), "P", True),
    ("the terms of a declared function", lambda vs: domain(functions={O("NumericFunction", "F", *vs): None}), "F", True),
    ("the terms of a derived predicate", lambda vs: domain(derived_predicates=[O("DerivedPredicate", O("Predicate", "P", *vs), O("Predicate", "N"))]), "P", True),
    ("the variables of a universal condition", lambda vs: O("ForallCondition", O("Predicate", "N"), vs), "forall", False),
    ("the variables of an existential condition", lambda vs: O("ExistsCondition", O("Predicate", "N"), vs), "exists", False),
    ("the variables of a universal effect", lambda vs: O("Forall", O("Predicate", "N"), vs), "forall", False),
]


def patterns(ctx):
    """Lists of up to four variables with no type, one type or two, in every arrangement."""
    import itertools

    n = 4 if ctx.tier == "thorough" else 3
    work = []
    for what, mk, start, seq in LISTS:
        pats = [p for k in range(1, n + 1) for p in itertools.product(TYPES, repeat=k)]
        pats += [((), ()) + p for p in itertools.product(TYPES[:2], repeat=3)] + [p + ((),) for p in itertools.product(TYPES[1:], repeat=3)]
        for i in range(8):
            work.append((what, mk, start, seq, pats[i::8]))
    ctx.spread(pattern_, work)


def pattern_(ctx, what, mk, start, seq, pats):
    m = Maker(ctx)
    f = own_method(m.cls("Domain"), "__str__") if "of a d" in what else own_method(m.cls({"action": "Action", "universal condition": "ForallCondition", "existential condition": "ExistsCondition", "universal effect": "Forall"}[what.split(" an ")[-1].split(" of a ")[-1]]), "__str__")
    ctx.guard("arranged", f, arranged, ctx, m, f, what, mk, start, seq, pats)


def arranged(ctx, m, f, what, mk, start, seq, pats):
    for p in pats:
        vs = [V(i, ts) for i, ts in enumerate(p)]
        text = m.text(mk(vs))
        shown = " ".join("x%d%s" % (i, " - %s" % (ts[0] if len(ts) == 1 else "(either %s)" % " ".join(ts)) if ts else "") for i, ts in enumerate(p))
        if text is None:
            ctx.undecided("arranged", f, "the text of %s is not known for %s" % (what, shown))
            return
        got = find(sexp(text), start)
        key = "arranged:%s" % what
        if got is None:
            ctx.violation("arranged", f, "%s (%s) are not in the text %s" % (what, shown, " ".join(text.split())), key)
            continue
        have = [(w, set(ts) - {"object"}) for w, ts in typed(got)]
        want = [("?X%d" % i, set(ts)) for i, ts in enumerate(p)]
        ok = have == want if seq else sorted(have, key=str) == sorted(want, key=str) or {w: ts for w, ts in have} == {w: ts for w, ts in want} and len(have) == len(want)
        ctx.require(ok, "arranged", f, "%s: %s" % (what, shown), "%s, of the types %s, are printed as (%s)" % (what, shown, flat(got)), key)


def flat(x):
    return " ".join("(%s)" % flat(y) if isinstance(y, list) else y for y in x)


def find(x, start):
    """The list that follows the keyword, or the rest of the list that begins with the name."""
    if not isinstance(x, list):
        return None
    for i, y in enumerate(x):
        if y == start and start in (":parameters", "forall", "exists") and i + 1 < len(x):
            return x[i + 1]
    if x and x[0] == start:
        return x[1:]
    for y in x:
        r = find(y, start)
        if r is not None:
            return r
    return None
