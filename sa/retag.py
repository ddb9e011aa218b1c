"""Functions that give the occurrences of variables the types of a table, and change nothing else.

A candidate takes a formula or effect and a table from names to types.  Every class of formula is built from symbolic parts and handed to it; what it does
with a part is left to the class of the part (induction on the structure).  The result is compared, in small models, with what the constructor makes of the
parts in which exactly the variables named in the table, and not bound in between, have the types of the table.
"""
from .checks.c09 import *


class Tags(Inst):
    def __init__(self, values, fn):
        super().__init__(values)
        self.fn = fn

    def app(self, v, env):
        op, a = v.op, v.args
        if op in ("call", "callv") and isinstance(a[0], Fn) and a[0].f.qualname in self.fn and len(a) == 3:
            x, m = self.value(a[1], env), self.value(a[2], env)
            if x is UNK or m is UNK:
                return UNK
            return self.tagged(x, m)
        return super().app(v, env)

    def tagged(self, x, m):
        if isinstance(m, Map):
            m = tuple(sorted((k, norm_tags(t)) for k, t in m.items()))
        if not isinstance(x, Obj):
            return UNK
        return ("tagged", x, m)


def norm_tags(t):
    return tuple(sorted(t)) if isinstance(t, (tuple, frozenset, set, list)) else t


def names_of(f):
    """The function and the ones with which it dispatches on the class."""
    out = {f.qualname}
    return out


def proof(ctx, f):
    """(proved, [what is wrong], [what is open], number of models, classes) for a candidate function or generic."""
    memo = ctx.__dict__.setdefault("retaggers", {})
    if f.qualname in memo:
        return memo[f.qualname]
    memo[f.qualname] = (False, [], ["recursive"], 0, [])
    try:
        memo[f.qualname] = prove(ctx, f)
    except (Undecided, AnalysisError) as e:
        memo[f.qualname] = (False, [], [str(e)], 0, [])
    return memo[f.qualname]


def prove(ctx, f):
    P = ctx.prog.classes
    var, const = P["pddl.logic.terms.Variable"], P["pddl.logic.terms.Constant"]
    formula, term = P["pddl.logic.base.Formula"], P["pddl.logic.terms.Term"]
    W = World(ctx, var, const, formula, term)
    maps = [Map(), Map({"x": ("t1",)}), Map({"x": ("t2",), "y": ()}), Map({"y": ("t1", "t3"), "z": ("t2",)}), Map({"w": ("t1",)}), Map({"c": ("t1",), "p": ("t2",)})]
    open_, wrong, n, covered = {}, [], 0, []
    params = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    if len(params) != 2:
        raise Undecided("%s does not take a formula and a table" % f.name)
    for k in W.kinds + [e for e in W.effects if e not in W.kinds]:
        if k.name in ("Metric", "DerivedPredicate"):
            continue
        b = Build(ctx, W, k)
        if b.it.dispatch(f, k) is None if f.kind == "generic" else False:
            continue
        m = Sym("table", ("map", ("py", "str"), ("coll", "set", ("py", "str"))))
        acts = []
        missing = False
        for s, r in b.built:
            if isinstance(r, Exc):
                continue
            it = b.it
            it.opaque = set(b.opaque) | {f.qualname}
            it.nstates = 0
            impl = it.dispatch(f, k) if f.kind == "generic" else f
            it.opaque -= {impl.qualname}
            for s2, kind, v in it.run(impl, [r, m], None, None, s.clone()):
                acts.append(Outcome(it, s2, kind, v))
            ctx.analysed.update(it.visited)
        if acts and all(o.kind == "exc" and isinstance(o.value, (Exc, ExcV)) and "NotImplemented" in repr(o.value) for o in acts):
            continue            # not meant for this class
        covered.append(k)
        done = 0
        for vals in choices(W, b, None):
            em0 = Tags({b.syms[p]: v for p, v in vals.items()}, {f.qualname})
            poss = outcomes(em0, b.outs)
            if all(o.kind == "exc" for c, o in poss):
                continue
            if not all(c for c, o in poss):
                open_.setdefault("parts", "%s: cannot tell whether the parts make an object" % k.name)
                continue
            for mp in maps:
                am = Tags({b.syms[p]: v for p, v in vals.items()}, {f.qualname})
                am.values[m] = mp
                am.variable, em0.variable = var, var
                em = Tags({b.syms[p]: v for p, v in retagged(W, b, vals, mp, am).items()}, {f.qualname})
                what = "%s(%s) with {%s}" % (k.name, ", ".join("%s=%s" % (p, brief(v)) for p, v in vals.items()), ", ".join("%s: %s" % (x, y) for x, y in mp.items()))
                if compare(ctx, "retag", f, what, acts, b.outs, am, em, open_, wrong):
                    done += 1
        n += done
        if not done and not open_ and not wrong:
            open_[k.name] = "%s: no model was evaluated" % k.name
    texts = []
    for what, o, v, x in wrong[:3]:
        texts.append("%s gives %s instead of %s" % (what, show(o.value) if o.kind == "exc" else show(v), show(x)))
    return (not open_ and not wrong and n > 0, texts, list(open_.values()), n, covered)


def retagged(W, b, vals, mp, am):
    out = dict(vals)
    inner = Map(mp)
    for n, s in b.sorts.items():
        if s == "bound":
            for v in vals[n] or ():
                inner[v.fields["name"]] = v.fields["type_tags"]

    def tag(v):
        if v.cls is W.var and v.fields["name"] in mp:
            t = mp[v.fields["name"]]
            return Obj(W.var, name=v.fields["name"], type_tags=t)
        return v
    for n, s in b.sorts.items():
        v = vals[n]
        if v is None:
            continue
        if s == "term":
            out[n] = tag(v)
        elif s == "terms":
            out[n] = tuple(tag(x) for x in v)
        elif s == "part":
            out[n] = am.tagged(v, inner)
        elif s == "parts":
            out[n] = tuple(am.tagged(x, inner) for x in v)
    return out
