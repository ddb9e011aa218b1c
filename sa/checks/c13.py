"""A problem and its domain agree whenever the problem holds the domain.

The constructor (with a domain), the check against a domain and the setter of the domain are interpreted.  On every normal path, all
objects, facts, the goal and the metric must have been checked against the types and requirements of that very domain (as in C11), the names
must have been compared, and requirements of the problem must be known to be among those of the domain.  The setter stores the domain only after
these checks.  Rejections must be justified by one of these rules.
"""
from .c11 import *

MINIMUM = 40
PARTS = ("objects", "init", "goal", "metric")


def run(ctx):
    prob = ctx.prog.classes["pddl.core.Problem"]
    dom = ctx.prog.classes["pddl.core.Domain"]
    d = Sym("domain", ("inst", dom, True))
    fields = {}
    for f in dom.functions:
        if f.kind == "property":
            it = Interp(ctx.prog)
            it.attr_types = {}
            r = [it.fz(v, s) for s, v in it.getattr(d, f.name, State(), None) if not isinstance(v, Exc)]
            if len(r) == 1:
                fields[f.name] = strip(r[0])
    for n in ("types", "requirements", "name"):
        if n not in fields:
            raise AnalysisError("property %s of a domain" % n)
    rule = Typing(ctx, fields["types"], fields["requirements"])
    pr = Prover(ctx, rule.base, rule.reject, "the types")
    ini = own_method(prob, "__init__")
    never = never_none(ctx, pr, prob)
    for given in ((), ("requirements",), ("domain_name",), ("requirements", "domain_name")):
        ctx.guard("constructor", ini, constructor, ctx, pr, rule, prob, d, fields, given)
    setter = [f for f in prob.functions if f.kind == "setter" and f.name.split(".")[0] == "domain"]
    check = own_method(prob, "check")
    entries = [x for x in setter + [check] if x is not None]
    if not setter:
        r = prob.find("domain")
        ctx.require(r is None or r[1] == "method" and r[2].kind == "property", "setter", ini, "the domain cannot be assigned", "the domain is an unchecked attribute")
    for f in entries:
        ctx.guard("check", f, entry, ctx, pr, rule, prob, f, d, fields, never)
    pr.report("problem")
    together(ctx, ini)
    if setter:
        ctx.guard("history", setter[0], histories, ctx, prob, setter[0])


def fresh(ctx, pr, prob, d, fields):
    it = Interp(ctx.prog, opaque=pr.opaque, no_inline=lambda g: g.cls is not prob and procedure(g) and has_loop(g), max_states=6000)
    it.attr_types = {}
    it.nstates = 0
    st = State()
    for n in ("types", "requirements"):
        sts = it.assume(App("isnone", (fields[n],)), False, st)
        st = sts[0] if sts else st
    return it, st


def constructor(ctx, pr, rule, prob, d, fields, given):
    f = own_method(prob, "__init__")
    it, st = fresh(ctx, pr, prob, d, fields)
    ps, _ = init_params(prob)
    syms = {n: d if n == "domain" else Sym(n, annotated(it, f, n)) for n in ps}
    args = [One(NONE if n in ("requirements", "domain_name") and n not in given else syms[n]) for n in ps]
    it.nstates = 0
    outs = [Outcome(it, s, "exc" if isinstance(r, Exc) else "ret", r) for s, r in it.instantiate(prob, args, {}, st, None)]
    for q in it.visited:
        ctx.analysed.add(q)
    what = "constructor with %s" % ", ".join(("domain",) + given)
    n = 0
    for o in outs:
        if o.kind != "ret" or absurd(o):
            continue
        n += 1
        coverage(ctx, pr, f, o, {p: (syms[p], syms[p].typ) for p in PARTS if p in syms}, what)
        if "domain_name" in given:
            ctx.require(same_names(o, fields["name"], (syms["domain_name"],)), "name", f, what + ": names compared", "%s: the domain need not have the given name" % what, "name:constructor")
        if "requirements" in given:
            ctx.require(among(o, syms["requirements"], fields["requirements"]), "requirements", f, what + ": requirements compared",
                        "%s: requirements that the domain lacks are accepted" % what, "requirements:constructor")
        if isinstance(o.value, New):
            held = dict(o.value.fields)
            ctx.require(any(strip(x) == d for x in held.values()), "kept", f, what + ": holds the domain", "%s: the domain is not kept" % what)
    if not n:
        raise Undecided("no normal outcome")


def coverage(ctx, pr, f, o, parts, what):
    for p, (v, t) in parts.items():
        r = pr.covers(v, o, typ=t)
        if not r:
            ctx.ok("part", f, "%s: %s checked" % (what, p))
        for rule_, w, m, q in r or ():
            ctx.violation(rule_, w or f, m if w else "%s: %s of a problem: %s" % (what, p, m), q or "%s:%s" % (f.name, p))


def never_none(ctx, pr, prob):
    """The fields of a problem that no normal path through its constructor leaves None."""
    f = own_method(prob, "__init__")
    it = Interp(ctx.prog, opaque=pr.opaque, no_inline=lambda g: g.cls is not prob and procedure(g) and has_loop(g), max_states=6000)
    it.attr_types = {}
    it.nstates = 0
    ps, _ = init_params(prob)
    res = None
    for s, r in it.instantiate(prob, [One(Sym(n, annotated_opt(it, f, n))) for n in ps], {}, State(), None):
        r = it.fz(r, s) if not isinstance(r, Exc) else r
        if isinstance(r, New):
            here = {n for n, v in r.fields if sure(it, it.fz(v, s), s)}
            res = here if res is None else res & here
    return res or set()


def sure(it, v, st):
    """v is not None."""
    v = strip(v)
    if it.decide(App("isnone", (v,)), st) is False:
        return True
    t = it.type_of(v, st)
    return t is not None and t[0] != "opt" and t != ("py", "NoneType")


def annotated_opt(it, f, n):
    for a in f.node.args.args + f.node.args.kwonlyargs:
        if a.arg == n and a.annotation is not None:
            return it.ann_type(f.module, a.annotation)
    return None


def entry(ctx, pr, rule, prob, f, d, fields, never):
    it, st = fresh(ctx, pr, prob, d, fields)
    self = selfsym(prob)
    for n in sorted(never):
        sts = it.assume(App("isnone", (Attr(self, n),)), False, st)
        st = sts[0] if sts else st
    outs = [Outcome(it, s, k, v) for s, k, v in it.run(f, [self, d], None, None, st)]
    for q in it.visited:
        ctx.analysed.add(q)
    what = "setter of the domain" if f.kind == "setter" else f.name
    own = {n: getter(ctx, prob, self, n) for n in PARTS + ("name", "domain_name")}
    reqs = set()
    for o in outs:
        for c, b in o.facts:
            for x in walk(c):
                if isinstance(x, Attr) and x.base == self and x.name in ("requirements", "_requirements"):
                    reqs.add(x)
    reqs |= {Attr(self, "requirements"), Attr(self, "_requirements")}
    n = 0
    for o in outs:
        if absurd(o):
            continue
        writes = [i for i, e in enumerate(o.events) if e.kind == "write" and e.name in ("_domain", "_domain_name")]
        if o.kind == "ret":
            n += 1
            coverage(ctx, pr, f, o, {p: own[p][0] for p in PARTS if own[p]}, what)
            names = tuple(v for v, t in own["domain_name"])
            ctx.require(same_names(o, fields["name"], names), "name", f, what + ": names compared", "%s: a domain with another name is accepted" % what, "name:" + f.name)
            ctx.require(any(among(o, r, fields["requirements"]) or nothing(o, r) for r in reqs), "requirements", f, what + ": requirements compared",
                        "%s: a domain that lacks requirements of the problem is accepted" % what, "requirements:" + f.name)
            if f.kind == "setter":
                last = max([i for i, e in enumerate(o.events) if e.kind == "call" and e.name in pr.opaque and e.name in pr.generics] + [-1])
                ctx.require(all(i > last for i in writes), "order", f, "stored after the checks", "the domain is stored before all checks have passed", "order")
        else:
            names = tuple(v for v, t in own["domain_name"])
            just = differ(o, fields["name"], names) or any(missing(o, r, fields["requirements"]) for r in reqs)
            ctx.require(just, "rejects", f, "rejection is justified", "%s raises %s for a domain that agrees with the problem (%s)" % (what, short(o.value, 80), short(fmt_guard(o.facts), 200)), "rejects:" + f.name)
            if f.kind == "setter":
                ctx.require(not writes, "order", f, "nothing stored on rejection", "the domain is stored although it is rejected", "order")
    if not n:
        raise Undecided("no normal outcome")


def getter(ctx, cls, self, n):
    it = Interp(ctx.prog)
    it.attr_types = {}
    return [(strip(it.fz(v, s)), it.type_of(v, s)) for s, v in it.getattr(self, n, State(), None) if not isinstance(v, Exc)]


def plain_name(x):
    x = strip(x)
    while isinstance(x, App) and x.op in (".lower", ".upper", "name", "str", ".casefold") and len(x.args) == 1:
        x = strip(x.args[0])
    return x


def same_names(o, a, names):
    for c, b in o.facts:
        if b and isinstance(c, App) and c.op == "eq" and {plain_name(x) for x in c.args} & {a} and {plain_name(x) for x in c.args} & set(names):
            return True
    return False


def differ(o, a, names):
    for c, b in o.facts:
        if not b and isinstance(c, App) and c.op == "eq" and {plain_name(x) for x in c.args} & {a} and {plain_name(x) for x in c.args} & set(names):
            return all(isinstance(strip(x), App) and strip(x).op in (".lower", ".upper", ".casefold") for x in c.args)
    return False


def subset_guard(c, r, of):
    return isinstance(c, App) and c.op == "exists" and strip(c.args[0]) == strip(r) and \
        c.args[1] == frozenset({(App("in", (Elem(strip(r), 0), of)), False)})


def nothing(o, r):
    return o.it.decide(App("isnone", (r,)), o.st) is True or o.it.decide(o.it.cond_of(r, o.st), o.st) is False


def among(o, r, of):
    for c, b in o.facts:
        if not b and subset_guard(c, r, of):
            return True
        if b and isinstance(c, App) and c.op == "eq" and {strip(x) for x in c.args} == {strip(r), of}:
            return True
        if b and isinstance(c, App) and c.op in ("subset", "eqset") and {strip(x) for x in c.args} == {strip(r), of}:
            return True
    return False


def missing(o, r, of):
    return any(b and subset_guard(c, r, of) for c, b in o.facts)


GOALS = {"the goal": lambda t: atom(t), **{"%s of the goal" % k: mk for k, mk in FORMULAS.items() if k}}
PLACES = {"an object": lambda t: {"objects": [t]}, "a fact": lambda t: {"init": [atom(t)]}, "a negative fact": lambda t: {"init": [O("Not", O("Predicate", "M", t))]},
          "a value": lambda t: {"init": [O("functions.EqualTo", fun(t), O("NumericValue", 1))]}, "the metric": lambda t: {"metric": O("Metric", O("Plus", fun(t), O("NumericValue", 1)))}}
PLACES.update({k: (lambda t, mk=mk: {"goal": mk(t)}) for k, mk in GOALS.items()})
PLACES["a quantifier of the goal"] = lambda t: {"goal": O("ForallCondition", NO, [t])}
KIND = {"an object": "c", "a fact": "c", "a negative fact": "c", "a value": "c", "the metric": "c", "a quantifier of the goal": "v"}


def join(p, q):
    out = dict(p)
    for k, x in q.items():
        if k not in out:
            out[k] = x
        elif k == "goal":
            out[k] = O("And", out[k], x)
        elif k == "metric":
            return None
        elif k == "objects":
            out[k] = out[k] + [O("Constant", "L", *x[0].args[1:])]
        else:
            out[k] = out[k] + [O("Predicate", "S", *x[0].args[1:]) if x[0].cls == "Predicate" else O(x[0].cls, O("NumericFunction", "H", *x[0].args[0].args[1:]), O("NumericValue", 2)) if x[0].cls != "Not" else O("Not", O("Predicate", "R", *x[0].args[0].args[1:]))]
    return out


def together(ctx, f):
    work = [(f, a, b) for a in PLACES for b in PLACES]
    ctx.spread(pair_, work)


def pair_(ctx, f, a, b):
    ctx.guard("together", f, pairs_, ctx, f, a, b)


def pairs_(ctx, f, a, b):
    m = Maker(ctx)
    for kind in "vc":
        if {KIND.get(a, kind), KIND.get(b, kind)} != {kind}:
            continue
        mk, name = (var, "X") if kind == "v" else (const, "K")
        for first, second, reqs, types, why in (("T", "U", ["TYPING"], ["T", "U"], ""), ("T", "Z", ["TYPING"], ["T", "U"], "the second"), ("Z", "T", ["TYPING"], ["T", "U"], "the first"), (None, "T", ["STRIPS"], ["T"], "the second")):
            t1, t2 = (mk(name, *([x] if x else [])) for x in (first, second))
            parts = join(PLACES[a](t1), PLACES[b](t2))
            if parts is None or a == b == "a value" and why == "the second":
                return
            dom = O("Domain", "DD", requirements=[Req(r) for r in reqs + ["NUMERIC_FLUENTS"]], types={x: None for x in types})
            got = verdict(m.outcomes(O("Problem", "PP", domain=dom, **parts)))
            what = "a problem with %s as %s and %s as %s for a domain %s" % (t1, a, t2, b, "with the types %s" % ", ".join(types) if reqs != ["STRIPS"] else "without typing")
            if got is None:
                ctx.undecided("together", f, "cannot tell whether %s is accepted" % what)
                return
            want = "rejected" if why else "accepted"
            ctx.require(got == want, "together", f, "%s is %s" % (what, want), "%s is %s%s" % (what, got, " although its types are not available" if why else ""), "together %s" % (why or "none"))


def histories(ctx, prob, f):
    """Domains are assigned one after the other: each is judged on its own, and the problem holds the last one that agrees."""
    m = Maker(ctx)
    D = lambda n, reqs, types: O("Domain", n, requirements=[Req(r) for r in reqs], types={x: None for x in types})
    doms = [("one that agrees", D("DD", ["TYPING", "EQUALITY"], ["T", "U"]), True), ("another that agrees", D("DD", ["ADL", "TYPING", "EQUALITY"], ["T"]), True),
            ("one of another name", D("EE", ["TYPING", "EQUALITY"], ["T", "U"]), False), ("one without a requirement", D("DD", ["TYPING"], ["T", "U"]), False),
            ("one without a type", D("DD", ["TYPING", "EQUALITY"], ["U"]), False), ("one without types", D("DD", ["TYPING", "EQUALITY"], []), False)]
    own = dict(objects=[const("K", "T")], init=[atom(const("K", "T"))], goal=atom(const("K", "T")))
    reqs = [Req("EQUALITY"), Req("TYPING")]
    last = doms if ctx.tier == "thorough" else doms[:2] + doms[3:5]
    starts = [("built with the name of a domain", O("Problem", "PP", domain_name="DD", requirements=reqs, **own), None),
              ("built with a domain", O("Problem", "PP", domain=doms[0][1], requirements=reqs, **own), doms[0])]
    for how, d, first in starts:
        outs = [(s, v) for s, v in m.outcomes(d) if not isinstance(v, Exc)]
        if len(outs) != 1:
            raise Undecided("a problem %s has %d outcomes" % (how, len(outs)))
        live = [(outs[0], first, [])]
        for depth in range(3):
            nxt = []
            for (s, p), held, said in live:
                for what, x, agrees in doms if depth < 2 else last:
                    m.it.nstates = 0
                    res = m.it.run(f, [m.value(x)], None, p, s)
                    path = said + [what]
                    text = "a problem %s is given %s" % (how, ", then ".join(path))
                    if len(res) != 1:
                        ctx.undecided("history", f, "%s: %d outcomes" % (text, len(res)))
                        return
                    s2, k, _ = res[0]
                    if not ctx.require((k == "ret") == agrees, "history", f, text, "%s: the last one is %s" % (text, "accepted" if k == "ret" else "rejected"), "history:%s" % agrees):
                        continue
                    now = (what, x, agrees) if agrees else held
                    if now is not None:
                        m.it.nstates = 0
                        g = [v for _, v in m.it.getattr(p, "domain", s2, None)]
                        got = [m.it.fz(v, s2) for v in g if not isinstance(v, Exc)]
                        ctx.require(got == [m.value(now[1])], "history", f, text + ": the domain held", "%s: the problem does not hold %s afterwards" % (text, now[0]), "history:held")
                    nxt.append(((s2, p), now, path))
            live = nxt
    ctx.analysed.update(m.it.visited)
