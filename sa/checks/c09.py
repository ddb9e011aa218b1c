"""Instantiating replaces exactly the free occurrences of the mapped variables.

Every class that can be instantiated is built from symbolic parts and instantiated with a symbolic mapping.  The parts are terms, formulas or
names, according to the constructor; the instantiation of a part is left to the class of the part (induction on the structure).  Each path is then
evaluated in small models (mapped, unmapped and bound variables, constants, mapped variables that swap) and its result is compared with the result of
the constructor for the parts after substitution.
"""
import itertools

import ast

from .c11 import *
from ..model import *

MINIMUM = 35


STILL = "no mapped variable occurs in it"


class Inst(Model):
    """A model in which the instantiation of a part is a token."""

    fixed = frozenset()      # classes whose objects instantiate to themselves

    def app(self, v, env):
        op, a = v.op, v.args
        recv = None
        if op == ".instantiate" and len(a) == 2:
            recv, m = a
        elif op == "callv" and len(a) == 2 and isinstance(a[0], (Attr, Meth)) and a[0].name == "instantiate":
            recv, m = (a[0].base if isinstance(a[0], Attr) else a[0].recv), a[1]
        elif op == "call" and isinstance(a[0], Fn) and a[0].f.name == "instantiate" and len(a) == 3:
            recv, m = a[1], a[2]
        elif op == "call" and isinstance(a[0], Fn) and a[0].f.name == "instantiate" and len(a) == 2 and a[0].self_ is not None:
            recv, m = a[0].self_, a[1]
        if recv is not None:
            x, y = self.value(recv, env), self.value(m, env)
            if x is UNK or y is UNK:
                return UNK
            return self.inst(x, y)
        return super().app(v, env)

    def inst(self, x, m):
        if isinstance(m, Map):
            if not isinstance(x, Obj):
                return UNK
            if not m or x.cls in self.fixed or x.fields.get("#") == STILL:
                return x
            return ("inst", x, frozenset(m.items()))
        if isinstance(m, tuple):
            return ("inst", x, m)
        return UNK


def same(x, y):
    """True, False or None."""
    if x is y:
        return True
    if x is UNK or y is UNK:
        return None
    if isinstance(x, Obj) and isinstance(y, Obj):
        if x.cls is not y.cls:
            return False
        if set(x.fields) != set(y.fields):
            return None
        rs = [same(x.fields[n], y.fields[n]) for n in x.fields if not n.startswith("__")]
        return False if False in rs else None if None in rs else True
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        rs = [same(p, q) for p, q in zip(x, y)]
        return False if False in rs else None if None in rs else True
    if isinstance(x, (Obj, tuple)) or isinstance(y, (Obj, tuple)):
        return False
    return x == y


def run(ctx):
    f = own_method(ctx.prog.classes["pddl.action.Action"], "__init__")
    var, const = ctx.prog.classes["pddl.logic.terms.Variable"], ctx.prog.classes["pddl.logic.terms.Constant"]
    formula, term = ctx.prog.classes["pddl.logic.base.Formula"], ctx.prog.classes["pddl.logic.terms.Term"]
    plan, action = ctx.prog.classes["pddl.core.Plan"], ctx.prog.classes["pddl.action.Action"]
    W = World(ctx, var, const, formula, term)
    todo = [k for k in value_classes(ctx) if k.find("instantiate")]
    fixed = set()
    for k in todo:
        g = k.find("instantiate")[2]
        if k is plan:
            ctx.guard("plan", g, of_plan, ctx, W, k, g)
        elif k is action:
            ctx.guard("schema", g, of_action, ctx, W, k, g)
        elif ctx.guard("instantiate", g, of_formula, ctx, W, k, g):
            fixed.add(k)
    for k in todo:
        r = k.find("__call__")
        if r and isinstance(r[0], ClassInfo) and not r[0].module.name.startswith("typing"):
            ctx.guard("apply", r[2], apply, ctx, W, k, r[2])


class World:
    """Terms, mappings and parts to try."""

    def __init__(self, ctx, var, const, formula, term):
        self.ctx, self.var, self.const, self.formula, self.term = ctx, var, const, formula, term
        V = lambda n, *tags: Obj(var, name=n, _name=n, type_tags=tags, _type_tags=tags)
        C = lambda n, *tags: Obj(const, name=n, _name=n, type_tags=tags, _type_tags=tags, type_tag=tags[0] if tags else None)
        self.x, self.y, self.z = V("x"), V("y", "t1", "t2"), V("z")
        self.x2 = V("x", "t1")
        self.c, self.d = C("c"), C("d", "t1")
        self.cx = C("x")        # a constant with the name of a mapped variable
        self.maps = [Map(), Map({self.x: self.c, self.y: self.d}), Map({self.x: self.y, self.y: self.x}), Map({self.y: self.z}), Map({self.x2: self.c, self.y: self.cx}), Map({self.z: self.c, self.x: self.x2})]
        self.kinds = [k for k in value_classes(ctx) if k.is_subclass(formula) or any(isinstance(b, ClassInfo) and b.is_subclass(formula) for b in k.mro())]
        self.effects = [k for k in value_classes(ctx) if k.find("instantiate") and k.module.name == "pddl.logic.effects"]

    def terms(self):
        return [self.x, self.y, self.z, self.c, self.cx, self.x2]

    def tokens(self, k, tag):
        return Obj(k, **{"#": tag})

    def sort(self, t):
        """How values of a type are treated: term, terms, bound, part, parts, name."""
        if t is None:
            return None
        if t[0] == "opt":
            s = self.sort(t[1])
            return s
        if t[0] == "inst":
            if t[1].is_subclass(self.term):
                return "term"
            if t[1].find("instantiate"):
                return "part"
            return None
        if t[0] == "coll":
            if t[2] and t[2][0] == "inst" and t[2][1] is self.var:
                return "bound"
            s = self.sort(t[2]) if t[2] else None
            return {"term": "terms", "part": "parts"}.get(s)
        if t[0] == "union":
            ss = {self.sort(x) for x in t[1:]} if not isinstance(t[1], (list, tuple, frozenset)) or (t[1] and isinstance(t[1], tuple) and t[1][0] in ("inst", "coll", "py", "map", "opt", "cls")) else {self.sort(x) for x in t[1]}
            return ss.pop() if len(ss) == 1 else ("part" if "part" in ss else None)
        return None


MUTATORS = {"append", "add", "extend", "update", "insert", "remove", "pop", "clear", "discard", "setdefault", "sort", "reverse", "popitem", "appendleft"}


def validator(g):
    """A function that goes through a collection, returns nothing and changes nothing: it can only raise an error."""
    if g.cls is not None or not has_loop(g):
        return False
    params = {a.arg for a in g.node.args.args + g.node.args.kwonlyargs}
    root = lambda n: root(n.value) if isinstance(n, (ast.Attribute, ast.Subscript)) else n.id if isinstance(n, ast.Name) else None
    for n in ast.walk(g.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) or isinstance(n, ast.Return) and n.value is not None:
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and (root(n) in params or isinstance(n, ast.Attribute)):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and root(n.func) in params:
            return False
    return True


def named(prog, module, node, seen):
    """The classes an annotation speaks of, through aliases and names in quotes."""
    out = set()
    for n in ast.walk(node):
        name = n.id if isinstance(n, ast.Name) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else n.attr if isinstance(n, ast.Attribute) else None
        if name is None or (module.name, name) in seen:
            continue
        seen.add((module.name, name))
        r = prog.lookup(module, name)
        if r and r[0] == "class":
            out.add(r[1])
        elif r and r[0] == "expr":
            out |= named(prog, r[1], r[2], seen)
    return out


class Build:
    """A class built from symbolic parts, and a method of it run on the result."""

    def __init__(self, ctx, W, k):
        self.ctx, self.k = ctx, k
        inst = {g.qualname for c in ctx.prog.classes.values() for g in c.functions if g.name == "instantiate"}
        pr = Prover(ctx, None, None, "")
        self.opaque = frozenset(pr.generics) | frozenset(g.qualname for g in ctx.prog.functions.values() if validator(g)) | frozenset(g.qualname for g in ctx.prog.functions.values() if loops_while(g)) | inst
        f = own_method(k, "__init__")
        ps, var = init_params(k)
        self.it = it = Interp(ctx.prog, opaque=self.opaque, max_states=20000)
        it.attr_types = {}
        it.nstates = 0
        self.syms, self.sorts, self.types, self.optional = {}, {}, {}, {}
        args = []
        for n in list(ps) + ([var] if var else []):
            node = f.node.args.vararg.annotation if n == var else next((x.annotation for x in f.node.args.args + f.node.args.kwonlyargs if x.arg == n), None)
            t = it.ann_type(f.module, node) if node is not None else None
            opt = bool(t) and t[0] == "opt"
            t = t[1] if opt else t
            if n == var:
                t = ("coll", "seq", t)
            self.syms[n] = Sym("arg_" + n, ("opt", t) if opt else t)
            self.sorts[n] = W.sort(t)
            if self.sorts[n] is None and node is not None:
                cs = named(ctx.prog, f.module, node, set())
                if cs and all(c.find("instantiate") for c in cs):
                    self.sorts[n] = "parts" if n == var else "part"
                    t = ("coll", "seq", ("union", frozenset(("inst", c, False) for c in cs))) if n == var else ("union", frozenset(("inst", c, False) for c in cs))
            self.types[n] = t
            self.optional[n] = opt
            args.append(Spread(self.syms[n]) if n == var else One(self.syms[n]))
        self.built = []
        for s, r in it.instantiate(k, args, {}, State(), None):
            self.built.append((s, r))
        self.outs = [Outcome(it, s, "exc" if isinstance(r, Exc) else "ret", r) for s, r in self.built]

    def interp(self, f=None):
        it = self.it
        it.opaque = set(self.opaque - ({f.qualname} if f else frozenset()))
        it.nstates = 0
        return it

    def then(self, f, args):
        """Outcomes of a method on each object that was built."""
        res = []
        for s, r in self.built:
            if isinstance(r, Exc):
                continue
            it = self.interp(f)
            for s2, kind, v in it.run(f, [r] + args, None, None, s.clone()):
                res.append(Outcome(it, s2, kind, v))
            for q in it.visited:
                self.ctx.analysed.add(q)
        return res


def outcomes(model, outs):
    """(certain, kind, value) of the paths that are possible."""
    res = []
    for o in outs:
        t = model.all(o.facts)
        if t is not False:
            res.append((t is True, o))
    return res


def compare(ctx, rule, g, what, actual, expected, am, em, open_, wrong):
    """The result of the path taken in a model is the expected one."""
    exp = outcomes(em, expected)
    act = outcomes(am, actual)
    if not exp or not act:
        open_.setdefault("no path", "%s: no path" % what)
        return False
    vals = [em.value(o.value) if o.kind == "ret" else "exc" for c, o in exp]
    if any(v is UNK for v in vals):
        open_.setdefault("expected", "%s: the expected result cannot be evaluated" % what)
        return False
    good = True
    for c, o in act:
        v = am.value(o.value) if o.kind == "ret" else "exc"
        if v is UNK:
            open_.setdefault("value", "%s: the result cannot be evaluated: %s" % (what, str(o.value)[:120]))
            good = False
            continue
        rs = [same(v, x) for x in vals]
        if True in rs:
            continue
        good = False
        if c and not any(r is None for r in rs) and all(cc for cc, _ in exp):
            wrong.append((what, o, v, vals[0]))
        else:
            open_.setdefault("unsure", "%s: the result is not known to be the expected one: %s, %s" % (what, show(v), show(vals[0])))
    return good


def show(v):
    return str(v)[:160]


def finish(ctx, rule, g, k, n, open_, wrong):
    for m in open_.values():
        ctx.undecided(rule, g, m)
    seen = set()
    for what, o, v, x in wrong:
        if len(seen) < 3 and what.split(",")[0] not in seen:
            seen.add(what.split(",")[0])
            ctx.violation(rule, g, "%s: %s gives %s instead of %s" % (k.name, what, show(o.value) if o.kind == "exc" else show(v), show(x)), "%s:%s" % (k.name, what.split(",")[0]))


def choices(W, b, vary):
    """Values of the arguments of a class; one argument at a time goes through all the values of its sort."""
    base = {}
    alts = {}
    atom = W.ctx.prog.classes["pddl.logic.predicates.Predicate"]
    for n, sort in b.sorts.items():
        t = b.types[n]
        if sort == "term":
            alts[n] = W.terms()
        elif sort == "terms":
            alts[n] = [()] + [(a,) for a in W.terms()] + [(W.x, W.c, W.y), (W.y, W.z, W.x, W.z), (W.y, W.y), (W.x, W.z, W.cx), (W.x2, W.y)]
        elif sort == "bound":
            alts[n] = [(W.x,), (), (W.z,), (W.x2,), (W.x, W.y), (W.y, W.z)]
        elif sort == "part":
            alts[n] = [W.tokens(c, "p") for c in kinds_of(W, t)] + [W.tokens(kinds_of(W, t)[0], STILL)]
        elif sort == "parts":
            ks = kinds_of(W, t)
            alts[n] = [tuple(W.tokens(c, "p%d" % i) for i in range(m)) for c in ks for m in (2,)]
            alts[n] += [tuple(W.tokens(ks[0], "p%d" % i) for i in range(m)) for m in (3,)]
            p, q = W.tokens(ks[0], "p0"), W.tokens(ks[0], STILL)
            alts[n] += [(q, p), (p, q), (q, q), (q, p, q)]
        elif t and t[0] == "py" and t[1] == "str":
            alts[n] = ["p", "minimize"]
        elif t and t[0] == "py" and t[1] in ("int", "float"):
            alts[n] = [3]
        else:
            alts[n] = ["p"]
        if b.optional[n]:
            alts[n] = alts[n] + [None]
    names = list(alts)
    varied = [n for n in names if len(alts[n]) > 1]
    seen = set()
    # every value of each argument; all pairs for terms and bound variables
    small = [n for n in varied if b.sorts[n] in ("term", "bound")]
    for combo in itertools.product(*[alts[n] if n in small else alts[n][:1] for n in names]):
        if tuple(map(id, combo)) not in seen:
            seen.add(tuple(map(id, combo)))
            yield dict(zip(names, combo))
    for n in varied:
        if n in small:
            continue
        for v in alts[n]:
            d = {m: alts[m][0] for m in names}
            d[n] = v
            yield d


def kinds_of(W, t):
    """Classes a part of a type may have."""
    while t and t[0] in ("opt", "coll"):
        t = t[1] if t[0] == "opt" else t[2]
    cs = []
    for x in ([t] if t and t[0] == "inst" else list(t[1]) if t and t[0] == "union" and isinstance(t[1], (list, tuple, frozenset)) and not isinstance(t[1], str) else list(t[1:]) if t else []):
        if x and x[0] == "inst":
            cs += [k for k in W.kinds if k.is_subclass(x[1])] or [x[1]]
    return cs or W.kinds


def substituted(W, b, vals, m, am):
    """The values after the substitution."""
    out = dict(vals)
    restricted = m
    for n, s in b.sorts.items():
        if s == "bound":
            names = {v.fields["name"] for v in vals[n] or ()}
            restricted = Map({k: t for k, t in restricted.items() if k.fields["name"] not in names})
    sub = lambda v: restricted.get(v, v)
    for n, s in b.sorts.items():
        v = vals[n]
        if v is None:
            continue
        if s == "term":
            out[n] = sub(v)
        elif s == "terms":
            out[n] = tuple(sub(x) for x in v)
        elif s == "part":
            out[n] = am.inst(v, restricted)
        elif s == "parts":
            out[n] = tuple(am.inst(x, restricted) for x in v)
    return out


def of_formula(ctx, W, k, g):
    b = Build(ctx, W, k)
    m = Sym("mapping", annotated(b.it, g, g.node.args.args[1].arg))
    acts = b.then(g, [m])
    open_, wrong, n = {}, [], 0
    for vals in choices(W, b, None):
        em0 = Inst({b.syms[p]: v for p, v in vals.items()})
        poss = outcomes(em0, b.outs)
        if all(o.kind == "exc" for c, o in poss):
            continue        # these parts do not make an object
        if not all(c for c, o in poss):
            open_.setdefault("parts", "%s: cannot tell whether %s make an object" % (k.name, ", ".join("%s=%s" % (p, brief(v)) for p, v in vals.items())))
            continue
        for mp in W.maps:
            am = Inst(dict({b.syms[p]: v for p, v in vals.items()}, **{}))
            am.values[m] = mp
            em = Inst({b.syms[p]: v for p, v in (vals if still(k) else substituted(W, b, vals, mp, am)).items()})
            what = "the instantiation of %s(%s), under {%s}" % (k.name, ", ".join("%s=%s" % (p, brief(v)) for p, v in vals.items()), ", ".join("%s: %s" % (brief(x), brief(y)) for x, y in mp.items()))
            if compare(ctx, "instantiate", g, what, acts, b.outs, am, em, open_, wrong):
                n += 1
    finish(ctx, "instantiate", g, k, n, open_, wrong)
    if n and not open_ and not wrong:
        for p, s in b.sorts.items():
            ctx.ok("instantiate", g, "%s.%s: %s (%d models)" % (k.name, p, s or "unchanged", n))
        if not b.sorts:
            ctx.ok("instantiate", g, "%s (%d models)" % (k.name, n))
    elif not n:
        ctx.undecided("instantiate", g, "%s: no model was evaluated" % k.name)


def still(k):
    """A metric belongs to a problem, where no variable is free."""
    return k.name == "Metric"


def brief(v):
    if isinstance(v, tuple):
        return "(" + " ".join(map(brief, v)) + ")"
    if isinstance(v, Obj) and "name" in v.fields:
        return ("?" if v.cls.name == "Variable" else "") + v.fields["name"] + "".join("-" + t for t in v.fields.get("type_tags") or ())
    if isinstance(v, Obj):
        return "<%s>" % v.cls.name
    return str(v)


def of_action(ctx, W, k, g):
    b = Build(ctx, W, k)
    m = Sym("mapping", annotated(b.it, g, g.node.args.args[1].arg))
    acts = b.then(g, [m])
    open_, wrong, n = {}, [], 0
    seqs = [p for p, t in b.types.items() if t and t[0] == "coll"]
    if len(seqs) != 1:
        raise Undecided("parameters of the action: %s" % seqs)
    par = seqs[0]
    schemas = [(), (W.x,), (W.y, W.z), (W.x, W.y), (W.z, W.x, W.y)]
    ground = [(), (W.c,), (W.d, W.c), (W.y, W.x), (W.c, W.c), (W.d, W.cx, W.c), (W.x,)]
    parts = [p for p, s in b.sorts.items() if s == "part"]
    for params in schemas:
        for present in itertools.product([True, False], repeat=len(parts)):
            # each part of each class; one part without mapped variables
            for c, idle in [(c, None) for c in (W.kinds if params == (W.x, W.y) and all(present) else W.kinds[:1])] + ([(W.kinds[0], p) for p in parts] if all(present) else []):
                vals = {p: "p" for p in b.syms}
                vals[par] = params
                vals.update({p: W.tokens(c, STILL if p == idle else p) if y else None for p, y in zip(parts, present)})
                for terms in ground:
                    am = Inst({b.syms[p]: v for p, v in vals.items()})
                    am.values[m] = terms
                    what = "the instantiation of %s with %s, parts %s of class %s" % (brief(params), brief(terms), [p for p, y in zip(parts, present) if y], c.name)
                    if len(terms) != len(params):
                        bad = [o for c_, o in outcomes(am, acts) if o.kind == "ret" and c_]
                        maybe = [o for c_, o in outcomes(am, acts) if o.kind == "ret"]
                        if bad:
                            wrong.append((what, bad[0], am.value(bad[0].value), "an error"))
                        elif maybe:
                            open_.setdefault("arity", "%s: cannot tell whether it is refused" % what)
                        else:
                            n += 1
                        continue
                    mp = Map(dict(zip(params, terms)))
                    exp = dict(vals)
                    exp[par] = terms
                    for p in parts:
                        if exp[p] is not None:
                            exp[p] = am.inst(vals[p], mp)
                    em = Inst({b.syms[p]: v for p, v in exp.items()})
                    if compare(ctx, "schema", g, what, acts, b.outs, am, em, open_, wrong):
                        n += 1
    finish(ctx, "schema", g, k, n, open_, wrong)
    if n and not open_ and not wrong:
        for p in b.syms:
            ctx.ok("schema", g, "%s.%s (%d models)" % (k.name, p, n))


def of_plan(ctx, W, k, g):
    b = Build(ctx, W, k)
    dom = Sym("domain", annotated(b.it, g, g.node.args.args[1].arg))
    acts = b.then(g, [dom])
    (steps,) = b.syms.values()
    act, domain = ctx.prog.classes["pddl.action.Action"], ctx.prog.classes["pddl.core.Domain"]
    A = lambda n, *ps: Obj(act, name=n, _name=n, parameters=ps, _parameters=ps)
    one, two = A("one", W.x), A("two", W.x, W.y)
    open_, wrong, n = {}, [], 0
    plans = [(), (("one", (W.c,)),), (("two", (W.c, W.d)), ("one", (W.d,))), (("one", (W.c,)), ("one", (W.c,))), (("one", (W.c,)), ("other", (W.c,))), (("other", ()),), (("other", ()), ("one", (W.c,))),
             (("one", (W.c,)), ("two", (W.c, W.d)), ("one", (W.d,)), ("one", (W.c,)))]
    for schemas in ((), (one,), (one, two), (two, one), (two,)):
        table_ = {s.fields["name"]: s for s in schemas}
        for p in plans:
            am = Inst({steps: p, dom: Obj(domain, actions=schemas, _actions=schemas)})
            what = "the plan %s, with the schemas %s" % (" ".join("(%s %s)" % (x, brief(y)) for x, y in p), [s.fields["name"] for s in schemas])
            poss = outcomes(am, acts)
            unknown = any(x not in table_ for x, _ in p)
            expected = tuple(am.inst(table_[x], y) for x, y in p) if not unknown else None
            if not poss:
                open_.setdefault("no path", "%s: no path" % what)
            for c, o in poss:
                if o.kind == "exc":
                    if unknown:
                        n += 1
                    elif c:
                        wrong.append((what, o, "exc", expected))
                    else:
                        open_.setdefault("exc", "%s: may be refused: %s" % (what, str(o.value)[:80]))
                    continue
                v = am.value(o.value)
                r = False if unknown else same(v, expected)
                if r and c:
                    n += 1
                elif r is False and c:
                    wrong.append((what, o, v, "an error" if unknown else expected))
                elif not r:
                    open_.setdefault("value", "%s: the result is not known: %s" % (what, str(o.value)[:160]))
    finish(ctx, "plan", g, k, n, open_, wrong)
    if n and not open_ and not wrong:
        ctx.ok("plan", g, "every step is replaced by the instance of its schema, in order (%d models)" % n)
        ctx.ok("plan", g, "a step without a schema is refused")


def apply(ctx, W, k, g):
    """Applying a symbol to terms: the same symbol with exactly these terms; a wrong number of them is refused."""
    b = Build(ctx, W, k)
    if g.node.args.vararg is None or "terms" not in b.sorts.values():
        raise Undecided("%s: arguments of the application" % k.name)
    par = next(p for p, s in b.sorts.items() if s == "terms")
    new = Sym("new_terms", ("coll", "seq", ("inst", W.term, False)))
    res = []
    for s, r in b.built:
        if isinstance(r, Exc):
            continue
        it = b.interp(g)
        for s2, v in it.call_func(g, r, [Spread(new)], {}, s.clone(), None):
            res.append(Outcome(it, s2, "exc" if isinstance(v, Exc) else "ret", v))
    open_, wrong, n = {}, [], 0
    tuples = [(), (W.x,), (W.c,), (W.x, W.z), (W.c, W.cx), (W.z, W.c), (W.x, W.z, W.c), (W.z, W.z, W.x)]
    for old in tuples:
        vals = {p: "p" for p in b.syms}
        vals[par] = old
        em0 = Inst({b.syms[p]: v for p, v in vals.items()})
        poss = outcomes(em0, b.outs)
        if all(o.kind == "exc" for c, o in poss):
            continue
        if not all(c for c, o in poss):
            open_.setdefault("parts", "%s: cannot tell whether %s make an object" % (k.name, ", ".join("%s=%s" % (p, brief(v)) for p, v in vals.items())))
            continue
        for t in tuples:
            am = Inst({b.syms[p]: v for p, v in vals.items()})
            am.values[new] = t
            what = "%s applied to %s" % (brief(old), brief(t))
            if len(old) != len(t):
                rets = [(c, o) for c, o in outcomes(am, res) if o.kind == "ret"]
                if any(c for c, _ in rets):
                    wrong.append((what, rets[0][1], am.value(rets[0][1].value), "an error"))
                elif rets:
                    open_.setdefault("arity", "%s: cannot tell whether it is refused" % what)
                else:
                    n += 1
                continue
            em = Inst({b.syms[p]: (t if p == par else v) for p, v in vals.items()})
            if compare(ctx, "apply", g, what, res, b.outs, am, em, open_, wrong):
                n += 1
    finish(ctx, "apply", g, k, n, open_, wrong)
    if n and not open_ and not wrong:
        ctx.ok("apply", g, "%s (%d models)" % (k.name, n))

