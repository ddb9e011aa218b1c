"""Numeric functions and action costs need their requirements.

The constructor of the domain is interpreted with symbolic functions and requirements, and the facts of each path are evaluated for every mix of the
total cost and other functions, under every subset of the requirements that matter.
"""
import itertools

from .c12 import *

MINIMUM = 40


def run(ctx):
    f = own_method(ctx.prog.classes["pddl.core.Domain"], "__init__")
    ctx.guard("functions", f, functions, ctx)


def functions(ctx):
    f, syms, outs = build(ctx, ("functions", "requirements"))
    req = ctx.prog.classes["pddl.requirements.Requirements"]
    fun = ctx.prog.classes["pddl.logic.functions.NumericFunction"]
    cost = Obj(fun, name="total-cost", _name="total-cost", terms=(), _terms=(), arity=0)
    other = Obj(fun, name="fuel", _name="fuel", terms=(), _terms=(), arity=0)
    third = Obj(fun, name="total-time", _name="total-time", terms=(), _terms=(), arity=0)
    cases = []
    matter = ["ACTION_COSTS", "NUMERIC_FLUENTS", "FLUENTS", "OBJECT_FLUENTS", "ADL"]
    for n in range(len(matter) + 1):
        for rs in itertools.combinations(matter, n):
            for fs in ((), (cost,), (other,), (third,), (cost, other), (other, cost), (third, other), (cost, third), (other, third, cost)):
                why = ""
                if cost in fs and "ACTION_COSTS" not in rs:
                    why = "action costs are not declared"
                elif set(fs) - {cost} and not {"NUMERIC_FLUENTS", "FLUENTS"} & set(rs):
                    why = "numeric fluents are neither declared nor implied"
                m = Model({syms["name"]: "d", syms["functions"]: Map({x: None for x in fs}), syms["requirements"]: tuple(Enum_(req, r) for r in rs)})
                cases.append(Case("a domain with functions {%s} and requirements {%s}" % (", ".join(x.fields["name"] for x in fs), ", ".join(rs)), m, why))
    table(ctx, "functions", f, outs, cases, "domain")
