"""A plan is valid exactly when its steps fit the domain and the problem.

The check of a plan is interpreted with a symbolic plan, domain and problem; the facts of its paths are evaluated for plans that are right, and for
plans that are wrong in one step: in the name, in the number of arguments, or in one argument.
"""
import itertools

from .c09 import *

MINIMUM = 60


def run(ctx):
    k = ctx.prog.classes["pddl.core.Plan"]
    f = own_method(k, "check")
    ctx.guard("plan", f, check, ctx, k, f)
    ctx.guard("steps", f, whole, ctx, k, f)


def check(ctx, k, f):
    P = ctx.prog.classes
    W = World(ctx, P["pddl.logic.terms.Variable"], P["pddl.logic.terms.Constant"], P["pddl.logic.base.Formula"], P["pddl.logic.terms.Term"])
    b = Build(ctx, W, k)
    dom, prob = (Sym(a.arg, annotated(b.it, f, a.arg)) for a in f.node.args.args[1:3])
    outs = b.then(f, [dom, prob])
    (steps,) = b.syms.values()
    act, domain, problem = P["pddl.action.Action"], P["pddl.core.Domain"], P["pddl.core.Problem"]
    A = lambda n, *ps: Obj(act, name=n, _name=n, parameters=ps, _parameters=ps, terms=ps)
    C = lambda n: Obj(W.const, name=n, _name=n, type_tags=(), _type_tags=(), type_tag=None)
    zero, one, two = A("zero"), A("one", W.x), A("two", W.x, W.y)
    o, o2, c, u, v = C("o"), C("o2"), C("c"), C("u"), C("v")
    right = [("zero", ()), ("one", (o,)), ("one", (c,)), ("two", (o, c)), ("two", (o2, o2)), ("two", (c, o))]
    wrong = [(("other", ()), "the name of a step is unknown"), (("other", (o,)), "the name of a step is unknown"), (("zero", (o,)), "a step has an argument too many"),
             (("one", ()), "a step has an argument too few"), (("one", (o, c)), "a step has an argument too many"), (("two", (o,)), "a step has an argument too few"),
             (("one", (u,)), "an argument is unknown"), (("two", (u, o)), "an argument is unknown"), (("two", (o, v)), "an argument is unknown"), (("two", (u, v)), "an argument is unknown"),
             (("ONE", (o,)), "the name of a step is unknown"), (("on", (o,)), "the name of a step is unknown"), (("one", (C("O"),)), "an argument is unknown"), (("two", (o, C("o22"))), "an argument is unknown")]
    plans = [((), "")] + [((s,), "") for s in right] + [(p, "") for p in itertools.product(right, repeat=2)]
    for s, why in wrong:
        plans += [((s,), why)] + [(p, why) for r in (right[0], right[1], right[3]) for p in ((s, r), (r, s))] + [((right[1], s, right[2]), why)]
    cases = []
    for acts, objects, constants in (((zero, one, two), (o, o2), (c,)), ((two, one, zero), (o2, o), (c, o))):
        for p, why in plans:
            m = Inst({steps: p, dom: Obj(domain, name="d", actions=acts, _actions=acts, constants=constants, _constants=constants),
                      prob: Obj(problem, name="p", objects=objects, _objects=objects)})
            cases.append(Case("the plan %s" % " ".join("(%s)" % " ".join([n] + [brief(x) for x in xs]) for n, xs in p), m, why))
    # without the right parts
    for p, why in (((("one", (c,)),), "an argument is unknown"), ((("two", (o, o)),), ""), ((("one", (o,)), ("two", (o, c))), "an argument is unknown")):
        m = Inst({steps: p, dom: Obj(domain, name="d", actions=(one, two), _actions=(one, two), constants=(), _constants=()), prob: Obj(problem, name="p", objects=(o,), _objects=(o,))})
        cases.append(Case("the plan %s without constants" % (p,), m, why))
    table(ctx, "plan", f, outs, cases, "plan")


DOMAIN = ("(define (domain DD) (:requirements :strips) (:constants C) (:predicates (P ?X)) (:action Z0 :parameters () :effect (and)) (:action A1 :parameters (?X) :effect (P ?X)) "
          "(:action A2 :parameters (?Y ?X) :effect (P ?X)) (:action B2 :parameters (?X ?Y) :effect (P ?X)) (:action A3 :parameters (?X ?Y ?Z) :effect (P ?X)))")
PROBLEM = "(define (problem PP) (:domain DD) (:objects O1 O2 O3) (:init) (:goal (P O1)))"
RIGHT = ["(Z0)", "(A1 O1)", "(A1 C)", "(A2 O1 C)", "(A2 C C)", "(B2 O2 O1)", "(A3 O1 O2 O3)", "(A3 C O1 C)"]
WRONG = [("(N)", "the name of a step is unknown"), ("(N O1)", "the name of a step is unknown"), ("(P O1)", "the name of a step is unknown"), ("(Z0 O1)", "a step has an argument too many"),
         ("(A1)", "a step has an argument too few"), ("(A1 O1 O1)", "a step has an argument too many"), ("(A2 O1)", "a step has an argument too few"), ("(A2 O1 O2 C)", "a step has an argument too many"),
         ("(A1 U)", "an argument is unknown"), ("(A2 U O1)", "an argument is unknown"), ("(A2 O1 U)", "an argument is unknown"), ("(B2 U V)", "an argument is unknown"), ("(B2 A1 O1)", "an argument is unknown"),
         ("(A3 O1 U O1)", "an argument is unknown"), ("(A3 O1 O2 X)", "an argument is unknown")]


def longer(tier):
    """Plans in which what was said about one step could be taken for another."""
    yield "", ""
    some = RIGHT if tier == "thorough" else RIGHT[1:5]
    for r in RIGHT:
        yield r, ""
    for r, q in itertools.product(some, RIGHT):
        yield "%s %s" % (r, q), ""
    yield " ".join(RIGHT), ""
    yield " ".join(RIGHT + RIGHT[::-1]), ""
    for w, why in WRONG:
        yield w, why
        for r in some:
            yield "%s %s" % (r, w), why
            yield "%s %s" % (w, r), why
        yield " ".join(RIGHT + [w]), why
        yield " ".join([w] + RIGHT), why
        yield " ".join(RIGHT[:4] + [w] + RIGHT[4:]), why
        yield "%s %s" % (w, w), why


def whole(ctx, k, f):
    """Whole texts are read by the interpreted parsers, and the check is followed step by step."""
    from .c10 import reader
    from .c26 import transformer
    from .. import grammar as G

    g = G.find(ctx.root)

    def read(kind, text):
        r = reader(ctx, g, transformer(ctx, None, kind), False)
        outs = r.read(kind, text)
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Undecided("the %s %s has %d outcomes" % (kind, text, len(outs)))
        s, v = outs[0]
        return r, s, r.it.fz(v, s)

    dom, prob = read("domain", DOMAIN)[2], read("problem", PROBLEM)[2]
    for text, why in longer(ctx.tier):
        r, s, v = read("plan", text)
        r.it.nstates = 0
        res = r.it.run(f, [dom, prob], None, v, s)
        ctx.analysed.update(r.it.visited)
        got = {kind for _, kind, _ in res}
        ways = "accepted" if got == {"ret"} else "rejected" if got == {"exc"} else None
        if ways is None:
            ctx.undecided("steps", f, "cannot tell whether the plan %s is accepted" % text)
            continue
        want = "rejected" if why else "accepted"
        ctx.require(ways == want, "steps", f, "the plan %s is %s" % (text, want), "the plan %s is %s although %s" % (text, ways, why or "its steps fit the domain and the problem"), "steps " + text)
