"""A domain is accepted only if every type it mentions is available, and every domain with available types passes this check.

The constructor of the domain is interpreted; on each normal path, each argument that can hold terms must have been handed
to a checking procedure, which in turn is interpreted on a symbolic object of every class (`sa/checked.py`).  For a term the path
facts of a normal return must imply that each of its types is a declared type, the supertype of one, or `object`, and that it has none unless
typing is declared or implied; the facts of each rejection must imply the opposite.
"""
from ..built import *
from ..checked import *

MINIMUM = 40


def tags_of(it, x, st):
    r = [(s, v) for s, v in it.getattr(x, "type_tags", st, None) if not isinstance(v, Exc)]
    if len(r) != 1:
        raise Undecided("types of a term")
    return strip(it.fz(r[0][1], r[0][0]))


class Typing:
    """The rule on the types of a term, for given declared types and requirements."""

    def __init__(self, ctx, types, reqs):
        self.types, self.reqs = types, reqs
        req = ctx.prog.classes["pddl.requirements.Requirements"]
        self.typing = [App("in", (Enum_(req, n), reqs)) for n in ("TYPING", "ADL")]

    def negated(self, c, b, el):
        """(c, b) says that the type el is not available in some respect: "object", "keys", "values", "none"; None if it says something else."""
        if b or not isinstance(c, App):
            return None
        if c.op == "eq" and el in c.args:
            k = c.args[0] if c.args[1] == el else c.args[1]
            return "object" if k == Const("object") else "none" if k == NONE else None
        if c.op == "isnone" and c.args[0] == el:
            return "none"
        if c.op == "in" and c.args[0] == el:
            x = strip(c.args[1])
            op = "keys"
            if isinstance(x, App) and x.op in (".keys", ".values"):
                op, x = x.op[1:], strip(x.args[0])
            return op if self.is_types(x) else None
        return None

    def is_types(self, x):
        while isinstance(x, App) and x.op == "call" and isinstance(x.args[0], Fn) and x.args[0].f.name == "to_types":
            x = strip(x.args[1])
        return x == self.types or self.types is None and isinstance(x, Seq) and not x.parts

    def value(self, tags, empty):
        def val(c):
            if isinstance(c, App) and c.op == "card" and strip(c.args[0]) == tags:
                s = set(c.args[1])
                p = {0} if empty else {1, 2}
                return True if p <= s else False if not (p & s) else None
            if isinstance(c, App) and c.op == "truthy" and strip(c.args[0]) == tags:
                return not empty
            if isinstance(c, App) and c.op == "exists" and strip(c.args[0]) == tags and (empty or not c.args[1]):
                return not empty
            return None
        return val

    def base(self, v, clauses, o):
        tags = tags_of(o.it, v, o.st)
        el = Elem(tags, 0)
        if o.it.decide(App("card", (tags, frozenset({0}))), o.st) is True or contradiction(clauses, {}, self.value(tags, False)):
            return None
        ok = False
        for cl in clauses:
            if len(cl) == 1:
                (c, b), = cl
                if not b and isinstance(c, App) and c.op == "exists" and strip(c.args[0]) == tags and c.args[1] and all(self.negated(x, y, el) for x, y in c.args[1]):
                    ok = True
        if not ok:
            return "the types of %s need not be available" % short(v, 60)
        if not contradiction(clauses, {c: False for c in self.typing}, self.value(tags, False)):
            return "%s can have types although typing is neither declared nor implied" % short(v, 60)
        return None

    def need(self):
        return {"object"} | ({"keys", "values"} if self.types is not None else set())

    def impossible(self, c, b):
        """Some term has a type that is not available."""
        if not (b and isinstance(c, App) and c.op == "exists"):
            return False
        src = strip(c.args[0])
        if isinstance(src, Attr) and src.name == "type_tags":
            return self.need() <= {self.negated(y, z, Elem(src, 0)) for y, z in c.args[1]}
        return any(self.impossible(x, y) for x, y in c.args[1])

    def reject(self, x, k, o):
        """The rejection is justified: assuming that the rule holds contradicts the facts."""
        if any(self.impossible(c, b) for c, b in o.facts):
            return None
        if k is None or not own_method(k, "type_tags"):
            return "a %s is rejected although the types of its terms are available: %s" % (k.name if k else "collection", short(o.value, 80))
        tags = tags_of(o.it, x, o.st)
        el = Elem(tags, 0)
        need = self.need()
        known = {}
        for c, b in o.facts:
            for a in walk(c):
                if isinstance(a, App) and a.op == "exists" and strip(a.args[0]) == tags:
                    said = {self.negated(y, z, el) for y, z in a.args[1]}
                    if need <= said:
                        known[a] = False
        cl = [frozenset([f]) for f in o.facts]
        for t in self.typing:
            if not contradiction(cl, {**known, t: True}, self.value(tags, False)):
                return "%s is rejected although typing is declared or implied and its types are available: %s" % (k.name, short(o.value, 80))
        if not contradiction(cl, known, self.value(tags, True)):
            return "%s without types is rejected: %s" % (k.name, short(o.value, 80))
        return None


def annotated(it, f, n):
    for a in f.node.args.args + f.node.args.kwonlyargs:
        if a.arg == n:
            t = it.ann_type(f.module, a.annotation) if a.annotation is not None else None
            return t[1] if t and t[0] == "opt" else t
    return None


def run(ctx):
    dom = ctx.prog.classes["pddl.core.Domain"]
    ctx.guard("domain", own_method(dom, "__init__"), domain, ctx, dom, True)
    ctx.guard("domain", own_method(dom, "__init__"), domain, ctx, dom, False)
    together(ctx, own_method(dom, "__init__"))


def domain(ctx, dom, typed):
    f = own_method(dom, "__init__")
    it = Interp(ctx.prog)
    it.attr_types = {}
    ps, _ = init_params(dom)
    syms = {n: Sym(n, annotated(it, f, n)) for n in ps}
    rule = Typing(ctx, syms["types"] if typed else None, syms["requirements"])
    pr = Prover(ctx, rule.base, rule.reject, "the types")
    args = [One(NONE if n == "types" and not typed else syms[n]) for n in ps]
    it = Interp(ctx.prog, opaque=pr.opaque, no_inline=lambda g: procedure(g) and has_loop(g), max_states=6000)
    it.attr_types = {}
    it.nstates = 0
    st = State()
    outs = [Outcome(it, s, "exc" if isinstance(r, Exc) else "ret", r) for s, r in it.instantiate(dom, args, {}, st, None)]
    for q in it.visited:
        ctx.analysed.add(q)
    n = 0
    done = set()
    for o in outs:
        if o.kind != "ret" or absurd(o):
            continue
        n += 1
        for p in ps:
            if p in ("name", "requirements", "types") or syms[p].typ is None or not pr.bearing(syms[p].typ):
                continue
            r = pr.covers(syms[p], o, typ=syms[p].typ)
            if not r:
                ctx.ok("domain", f, "%s of a domain" % p)
            for rule_, w, m, q in r or ():
                if (q or p) not in done:
                    done.add(q or p)
                    ctx.violation(rule_, w or f, m if w else "%s of a domain%s: %s" % (p, "" if typed else " without declared types", m), q or "domain:%s" % p)
        for e in o.events:
            g = ctx.prog.functions.get(e.name) if e.kind == "call" else None
            if g is not None and not e.loops and g.module.name.startswith("pddl") and procedure(g) and (g.qualname, e.args) not in done:
                done.add((g.qualname, e.args))
                impl, res = pr.outcomes(g, list(e.args))
                todo = [x for x in res if x.kind != "ret"]
                bad = [x for x in todo if about_types(x) and not any(rule.impossible(c, b) for c, b in x.facts)]
                for x in bad[:1]:
                    ctx.violation("rejects", impl, "%s raises %s although the types of all terms are available" % (g.name, short(x.value, 100)), "rejects:" + g.name)
                if not bad:
                    ctx.ok("rejects", impl, "%d rejections of %s" % (len(todo), g.name))
    if not n:
        raise Undecided("no normal outcome of the constructor of the domain")
    pr.report("domain with types" if typed else "domain without types")


def about_types(o):
    return any(isinstance(x, Attr) and x.name == "type_tags" for c, b in o.facts for x in walk(c))


def absurd(o):
    """The facts say that the result of a function annotated with a type other than Optional is None."""
    return any(b and isinstance(c, App) and c.op == "isnone" and isinstance(c.args[0], App) and c.args[0].op == "call" and isinstance(c.args[0].args[0], Fn)
               and isinstance(c.args[0].args[0].f.node.returns, ast.Subscript) and getattr(c.args[0].args[0].f.node.returns.value, "id", "") != "Optional" for c, b in o.facts)


def var(n, *ts):
    return O("Variable", n, list(ts))


def const(n, *ts):
    return O("Constant", n, ts[0] if ts else None)


def atom(*ts):
    return O("Predicate", "P", *ts)


def fun(*ts):
    return O("NumericFunction", "F", *ts)


def action(ps=(), pre=None, eff=None):
    return {"actions": [O("Action", "A", parameters=list(ps), precondition=pre, effect=eff)]}


NO = O("Predicate", "N")
# places of one term in a domain; V: any term, v: a variable, c: a constant
FORMULAS = {
    "": lambda t: atom(t),
    "a negation": lambda t: O("Not", atom(t)),
    "a conjunction": lambda t: O("And", NO, atom(t)),
    "a disjunction": lambda t: O("Or", NO, atom(t)),
    "an implication": lambda t: O("Imply", NO, atom(t)),
    "a quantified formula": lambda t: O("ForallCondition", atom(t), [var("Q")]),
    "an existential formula": lambda t: O("ExistsCondition", O("And", atom(t), NO), [var("Q")]),
    "an equality": lambda t: O("predicates.EqualTo", t, var("Q")),
    "a comparison": lambda t: O("GreaterThan", O("Plus", fun(t), O("NumericValue", 1)), O("NumericValue", 2)),
    "the second term of an atom": lambda t: atom(var("Q"), t, var("R")),
}
EFFECTS = {
    "": lambda t: atom(t),
    "a negation": lambda t: O("Not", atom(t)),
    "a conjunction": lambda t: O("And", NO, atom(t)),
    "the condition of a when": lambda t: O("When", atom(t), NO),
    "the effect of a when": lambda t: O("When", NO, atom(t)),
    "a universal effect": lambda t: O("Forall", atom(t), [var("Q")]),
    "an assignment": lambda t: O("Increase", fun(t), O("NumericValue", 1)),
    "an assigned value": lambda t: O("Assign", fun(), O("Times", O("NumericValue", 2), fun(t))),
}
SLOTS = {"a constant": lambda t: {"constants": [t]}, "a parameter": lambda t: action([t]), "a declared predicate": lambda t: {"predicates": [O("Predicate", "D", t)]},
         "a declared function": lambda t: {"functions": {O("NumericFunction", "G", t): None}},
         "the variable of a quantifier": lambda t: action(pre=O("ForallCondition", NO, [t])), "the variable of a universal effect": lambda t: action(eff=O("Forall", NO, [t])),
         "the head of a derived predicate": lambda t: {"derived_predicates": [O("DerivedPredicate", O("Predicate", "E", t), NO)]},
         "the body of a derived predicate": lambda t: {"derived_predicates": [O("DerivedPredicate", O("Predicate", "E"), O("And", NO, O("Not", atom(t))))]}}
SLOTS.update({"%s in a precondition" % (k or "an atom"): (lambda t, mk=mk: action(pre=mk(t))) for k, mk in FORMULAS.items()})
SLOTS.update({"%s in an effect" % (k or "an atom"): (lambda t, mk=mk: action(eff=mk(t))) for k, mk in EFFECTS.items()})
ONLY = {"a constant": "c", "a parameter": "v", "a declared predicate": "v", "a declared function": "v", "the variable of a quantifier": "v", "the variable of a universal effect": "v", "the head of a derived predicate": "v"}


def merge(p, q):
    """Both pieces in one domain."""
    out = dict(p)
    for k, x in q.items():
        if k not in out:
            out[k] = x
        elif k == "actions":
            b = x[0]
            out[k] = out[k] + [O("Action", "B", *b.args[1:], **b.kw)]
        elif isinstance(x, dict):
            out[k] = {**out[k], **{O(f.cls, "H", *f.args[1:]): v for f, v in x.items()}}
        elif k == "constants":
            out[k] = out[k] + [O("Constant", "L", *x[0].args[1:])]
        else:
            out[k] = out[k] + [O(x[0].cls, *(y if i or not isinstance(y, str) else y + "2" for i, y in enumerate(x[0].args)))]
    return out


def together(ctx, f):
    """Domains with two terms of the same name: what is said of one of them says nothing of the other."""
    work = []
    for i, a in enumerate(SLOTS):
        for j, b in enumerate(SLOTS):
            if ctx.tier == "quick" and "quantif" not in a + b and (i + j) % 2 and len(a) + len(b) > 50:
                continue
            work.append((f, a, b))
    ctx.spread(pair, work)


def pair(ctx, f, a, b):
    ctx.guard("together", f, pairs, ctx, f, a, b)


def pairs(ctx, f, a, b):
    m = Maker(ctx)
    for kind in "vc":
        if {ONLY.get(a, kind), ONLY.get(b, kind)} != {kind}:
            continue
        mk = var if kind == "v" else const
        name = "X" if kind == "v" else "K"
        for first, second, reqs, types, why in (("T", "U", ["TYPING"], ["T", "U"], ""), ("T", "Z", ["TYPING"], ["T", "U"], "the second"), ("Z", "T", ["TYPING"], ["T", "U"], "the first"),
                                                ("T", None, ["ADL"], ["T"], ""), (None, "T", ["STRIPS"], ["T"], "the second"), (None, None, ["STRIPS"], [], "")):
            t1, t2 = (mk(name, *([x] if x else [])) for x in (first, second))
            d = O("Domain", "DD", requirements=[Req(r) for r in reqs + ["NUMERIC_FLUENTS"]], types={x: None for x in types}, **merge(SLOTS[a](t1), SLOTS[b](t2)))
            got = verdict(m.outcomes(d))
            what = "a domain %s with %s in %s and %s in %s" % ("with typing and the types %s" % ", ".join(types) if reqs != ["STRIPS"] else "without typing", t1, a, t2, b)
            if got is None:
                ctx.undecided("together", f, "cannot tell whether %s is accepted" % what)
                return
            want = "rejected" if why else "accepted"
            ctx.require(got == want, "together", f, "%s is %s" % (what, want), "%s is %s%s" % (what, got, " although its types are not available" if why else ""), "together %s" % (why or "none"))
