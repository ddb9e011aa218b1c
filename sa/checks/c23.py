"""The initial state of a problem holds literals only.

The constructor of the problem is interpreted with a symbolic initial state, with and without a domain, and the facts of each path are evaluated for initial
states with one fact of every class of the library (and its negation), alone and beside a literal.
"""
from ..unwind import Unwind
from .c12 import *

MINIMUM = 40


def run(ctx):
    f = own_method(ctx.prog.classes["pddl.core.Problem"], "__init__")
    for given in (("domain",), ("domain_name",)):
        ctx.guard("literals", f, initial, ctx, given)


def initial(ctx, given):
    prob = ctx.prog.classes["pddl.core.Problem"]
    f = own_method(prob, "__init__")
    pr = Prover(ctx, None, None, "")
    opaque = set(pr.generics) | {g.qualname for g in ctx.prog.functions.values() if loops_while(g)}
    check = own_method(prob, "check")
    it = Interp(ctx.prog, opaque=frozenset(opaque | ({check.qualname} if check else set())), max_states=6000)
    it.attr_types = {}
    it.nstates = 0
    ps, _ = init_params(prob)
    keep = ("name", "init") + given
    syms = {n: Sym(n, annotated(it, f, n)) for n in ps}
    outs = [Outcome(it, s, "exc" if isinstance(r, Exc) else "ret", r) for s, r in it.instantiate(prob, [One(syms[n] if n in keep else NONE) for n in ps], {}, State(), None)]
    summ = Summaries(lambda: plain(ctx, opaque))
    for q in it.visited:
        ctx.analysed.add(q)
    base = ctx.prog.classes["pddl.logic.base.Atomic"]
    neg = ctx.prog.classes["pddl.logic.base.Not"]
    kinds = [c for c in value_classes(ctx) if c.module.name.startswith("pddl.logic") and not c.module.name.endswith(".terms")]
    lit = Obj(ctx.prog.classes["pddl.logic.predicates.Predicate"])
    facts = []
    for c in kinds:
        atom = c.is_subclass(base)
        facts.append((c.name if atom else c.name, Obj(c) if c is not neg else None, atom))
        facts.append(("Not of %s" % c.name, Obj(neg, argument=Obj(c), _arg=Obj(c)), atom))
    facts.append(("Not of Not of Predicate", Obj(neg, argument=Obj(neg, argument=lit, _arg=lit), _arg=Obj(neg, argument=lit, _arg=lit)), False))
    cases = []
    dom = Obj(ctx.prog.classes["pddl.core.Domain"], name="d", requirements=(), _name="d", _requirements=())
    for n, x, ok in facts:
        if x is None:
            continue
        for others in ((), (lit,), (lit, lit)):
            for s in {others + (x,), (x,) + others}:
                m = Model({syms["name"]: "p", syms["init"]: s, **{syms[g]: dom if g == "domain" else "d" for g in given}}, None, summ)
                cases.append(Case("an initial state with a %s%s" % (n, " beside %d literals" % len(others) if others else ""), m, "" if ok else "it is no literal"))
    cases.append(Case("an empty initial state", Model({syms["name"]: "p", syms["init"]: (), **{syms[g]: dom if g == "domain" else "d" for g in given}}, None, summ), ""))
    table(ctx, "literals", f, outs, cases, "problem with a %s" % given[0].replace("_", " "), skip=absurd)


def plain(ctx, opaque):
    it = Unwind(ctx.prog, opaque=frozenset(opaque), max_states=3000)
    it.attr_types = {}
    return it
