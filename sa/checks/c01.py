"""Printed formulas, effects, expressions, actions and plan steps parse back to equal objects.

The printed form of each class is computed as a template from its source; the template is parsed with the
productions of the grammar file, the parser callbacks are interpreted on the result, and the rebuilt object must
have the fields of the printed one.  Sub-objects stand for themselves (induction over the structure).
"""
from ..eqcommon import component_fields
from ..parsing import Table
from ..roundtrip import *

MINIMUM = 60
SKELETONS = {"atomic_formula_skeleton", "atomic_function_skeleton", "derived_predicates", "structure_def", "f_typed_list_atomic_function_skeleton", "start"}


def run(ctx):
    tb = Table(ctx).build()
    variable, constant = ctx.prog.cls("Variable"), ctx.prog.cls("Constant")
    for start, tr, pc in tb.parsers:
        ctx.notes.append("%s: %d rules" % (tr.name, len(tb.g.reachable(start))))
        for rn in tb.g.reachable(start):
            if rn in SKELETONS or rn == start:
                continue
            for c in sorted((k for k in tb.produced.get((tr, rn), ()) if isinstance(k, ClassInfo)), key=lambda k: k.qualname):
                if c is variable or c is constant:
                    continue
                f = own_method(c, "__str__")
                if f is None:
                    ctx.violation("printable", c.qualname, "%s objects come out of the parser but have no printed form" % c.name)
                    continue
                ctx.guard("round trip", f, one, ctx, tb, tr, rn, c, f)


def has_terms(tb, rn, seen=None):
    """Does the rule lead to term positions that admit variables?"""
    return "variable" in tb.g.reachable(rn)


def one(ctx, tb, tr, rn, c, f):
    variable, constant = ctx.prog.cls("Variable"), ctx.prog.cls("Constant")
    self_ = selfsym(c)
    comp = component_fields(ctx, c)
    kinds = [constant] + ([variable] if has_terms(tb, rn) else [])
    done = set()
    for o in outcomes(ctx, f, [], self_=self_):
        if o.kind == "exc":
            ctx.violation("printable", f, "printing a %s can raise %r" % (c.name, o.value))
            continue
        for k in kinds:
            spacing = []
            items = Lexer(ctx, tb.g, o.it, o.st, k, spacing).items(o.value)
            if repr(items) in done:
                continue
            done.add(repr(items))
            what = "%s in %s: %s" % (c.name, rn, short(" ".join(map(repr, items)), 160))
            key = "%s:%s:%s" % (tr.name, rn, c.name)
            for sp in spacing:
                ctx.violation("spacing", f, "%s: %s" % (c.name, sp), key)
            unknown = [i for i in walk_items(items) if i.kind == "altrep"]
            if unknown:
                ctx.undecided("round trip", f, "%s: printed form not understood: %s" % (c.name, short(repr(unknown[0].a))))
                continue
            glue = [i for i in walk_items(items) if i.kind == "glue"]
            if glue:
                ctx.violation("spacing", f, "%s: %r runs into the preceding word" % (what, glue[0].a), key)
                continue
            badv = [x for i in walk_items(items) if i.kind == "tvars" for x in (i.b or ()) if str(x[1]).startswith("bad")]
            if badv:
                ctx.violation("typed variables", f, "%s: a typed variable is printed as %s" % (c.name, badv[0][1]), key)
                continue
            m = Matcher(ctx, tb, tr, o.it, o.st)
            vals = m.rule(rn, items)
            if not vals:
                why = "no production of %r matches" % rn
                if m.raised:
                    why = "parsing it raises %r" % (m.raised[0].value,)
                opaque = [i for i in walk_items(items) if i.kind == "hole" and not known_hole(i)]
                if opaque and not m.raised:
                    ctx.undecided("round trip", f, "%s: printed part not understood: %r" % (c.name, opaque[0]))
                else:
                    ctx.violation("round trip", f, "%s: %s" % (what, why), key)
                continue
            for v in vals:
                diff = compare(ctx, c, comp, self_, v, o.facts)
                if diff is not None and any(isinstance(x, App) and x.op == "call" and x.args and isinstance(x.args[0], Fn) for x in walk(v)):
                    ctx.undecided("round trip", f, "%s: parsing it applies a function that is not understood: %s" % (what, diff))
                    continue
                ctx.require(diff is None, "round trip", f, what, "%s parses back to a different object: %s" % (what, diff), key)


def known_hole(i):
    return bool(i.b) or isinstance(i.a, Attr)


def walk_items(items):
    for i in items:
        yield i
        if i.kind == "rep":
            yield from walk_items(i.b)
        if i.kind == "altrep":
            for gd, t, s in i.b:
                yield from walk_items(t)


def compare(ctx, c, comp, self_, v, facts):
    if isinstance(v, Seq):
        return "a %s" % v.kind
    if not isinstance(v, New):
        return short(v)
    if v.cls is not c:
        return "a %s" % v.cls.name
    eta = Eta(ctx)
    for p, fields in comp.items():
        for fd in fields:
            got = v.get(fd)
            if got is None:
                return "%s is missing" % fd
            want = Attr(self_, fd)
            g = eta.norm(got)
            if g != want and g != eta.norm(want) and not known_value(facts, want, g):
                return "%s is %s" % (fd, short(g, 300))
    return None


def known_value(facts, field, v):
    """Do the facts of the printed case say that the field is None, or empty?"""
    for c, b in facts:
        if not isinstance(c, App):
            continue
        if c.op == "isnone" and b and strip(c.args[0]) == field and v == NONE:
            return True
        if c.op == "card" and strip(c.args[0]) == field and isinstance(v, Seq) and not v.parts:
            poss = c.args[1] if b else frozenset((0, 1, 2)) - c.args[1]
            if poss == {0}:
                return True
    return False
