"""A domain or a problem that is printed and read again is the same domain or problem.

Skeleton texts with symbolic names are read by interpreting the callbacks and constructors of the parser; the object is printed by interpreting the printers,
which gives a text over the same names; that text is parsed with the grammar, read in the same way, and the attributes of the two objects are compared.
Printing sorts, so every skeleton is followed for two opposite orders of the names.
"""
import re

from .. import grammar as G
from ..api import *
from ..parsing import Table
from ..skeleton import Held, differs, show
from ..texts import Reader, parse
from .c26 import DOMAINS, PROBLEMS, act, transformer

MINIMUM = 100


def run(ctx):
    g = G.find(ctx.root)
    work = []
    for kind, texts in [("domain", SECTIONS + DOMAINS(ctx.tier)), ("problem", STATES + PROBLEMS), ("plan", PLANS)]:
        cls = transformer(ctx, None, kind)
        for i, (what, text) in enumerate(texts):
            if ctx.tier == "quick" and "), " in what and (" under " in what) and i % 3:
                continue
            for down in (False, True):
                if down and ctx.tier == "quick" and i >= len(SECTIONS) and i % 2:
                    continue
                work.append((g, cls, kind, what, text, down))
    ctx.spread(guarded, work)
    numbers(ctx)


def numbers(ctx):
    """No callback gives a number that stands for 'too large to tell', which cannot be printed as digits."""
    tb = Table(ctx).build()
    for c in tb.cases:
        for o in c.outs or ():
            if o.kind != "ret":
                continue
            for x in sorted(set(floats(o.value)), key=repr):
                said = [finite(f, b, x) for f, b in o.st.log if has(f, x) or has(f, x.args[0])]
                key = "number %s.%s" % (c.tr.name, c.rule.name)
                if True in said:
                    ctx.ok("numbers", c.func, "%r: %s is a number that can be written" % (c, short(x)))
                elif None in said:
                    ctx.undecided("numbers", c.func, "%r: unknown whether %s can be too large" % (c, short(x)), key)
                else:
                    ctx.violation("numbers", c.func, "%r: a number with more than 308 digits before its point is read as infinity, which is printed as 'inf' and cannot be read again" % c, key)


def floats(v):
    if isinstance(v, App) and v.op in ("float", "ext:float", "ext:builtins.float") and v.args and not isinstance(v.args[0], Const):
        yield v
    elif isinstance(v, App):
        for a in v.args:
            yield from floats(a)
    elif isinstance(v, New):
        for _, a in v.fields:
            yield from floats(a)
    elif isinstance(v, Seq):
        for p in v.parts:
            if isinstance(p, One):
                yield from floats(p.v)


def has(c, x):
    return c == x or isinstance(c, App) and any(has(a, x) for a in c.args)


def finite(c, b, x):
    """True when the fact cannot hold of a number read as infinity, False when it can, None when that is unknown."""
    if not isinstance(c, App):
        return None
    if c.op in ("and", "or"):
        said = [finite(a, b, x) for a in c.args]
        strong = (c.op == "and") == b
        if strong:
            return True if True in said else None if None in said else False
        return True if all(r is True for r in said) else False if False in said else None
    if c.op == "not":
        return finite(c.args[0], not b, x)
    inf = float("inf")
    name = c.op.split(".")[-1].split(":")[-1]
    if name == "truthy" and len(c.args) == 1:
        return finite(c.args[0], b, x) if isinstance(c.args[0], App) else None
    if c.args == (x,) and name in ("isinf", "isfinite"):
        return ((name == "isinf") != b)
    if name == "in" and len(c.args) == 2 and c.args[0] == Const(".") and c.args[1] == x.args[0]:
        return False
    if name in ("eq", "lt", "le", "gt", "ge") and len(c.args) == 2 and x in c.args:
        l, r = (inf if a == x else a.v if isinstance(a, Const) else None for a in c.args)
        if isinstance(l, (int, float)) and isinstance(r, (int, float)):
            holds = {"eq": l == r, "lt": l < r, "le": l <= r, "gt": l > r, "ge": l >= r}[name]
            return holds != b
    if not has(c, x):
        return False if name in ("isinst", "isnone", "typeis") else None
    return None


def guarded(ctx, g, cls, kind, what, text, down):
    ctx.guard("roundtrip", cls, trip, ctx, g, cls, kind, what, text, down)


def reader(ctx, g, cls, down):
    r = Reader(ctx, g, cls)
    r.it.no_inline = lambda f: False
    r.it.descending = down
    return r


def trip(ctx, g, cls, kind, what, text, down):
    r = reader(ctx, g, cls, down)
    outs = r.read(kind, text)
    if all(isinstance(v, Exc) for s, v in outs):
        return
    if len(outs) != 1:
        raise Undecided("%s: reading has %d outcomes" % (what, len(outs)))
    s, v = outs[0]
    v = r.it.fz(v, s)
    first = Held(r.it).value(v, s)
    if kind == "plan":
        told = differs(steps(text), first)
        ctx.require(told is None, "plan", cls, "%s: the steps of the text" % what, "%s: the plan read from %s holds %s instead of %s" % ((what, text) + (told and (show(told[1])[:200], show(told[0])[:200]) or ("", ""))), "steps " + what)
    printer = own_method(v.cls, "__str__")
    if printer is None:
        raise Undecided("%s is not printed by a method of its own" % v.cls.name)
    r.it.nstates = 0
    ways = r.it.run(printer, [], None, v, s)
    ctx.analysed.update(r.it.visited)
    key = "%s %s" % (kind, what)
    if ways and all(k == "exc" for _, k, _ in ways):
        return ctx.violation("print", printer, "%s: printing what was read from %s raises %s" % (what, text, short(repr(ways[0][2]), 120)), key)
    if len(ways) != 1:
        raise Undecided("%s: printing has %d outcomes" % (what, len(ways)))
    out = r.it.render(ways[0][2], ways[0][0])
    if out is None:
        raise Undecided("%s: the printed text is not known: %s" % (what, short(r.it.opaque_part(ways[0][2], ways[0][0]), 300)))
    flat = " ".join(out.split())
    if parse(g, kind, out) is None:
        return ctx.violation("grammar", printer, "%s: the text printed for %s is none of the grammar: %s" % (what, text, flat), key)
    r2 = reader(ctx, g, cls, down)
    told = []
    for s2, v2 in r2.read(kind, out):
        if isinstance(v2, Exc):
            told.append("reading it raises %s" % short(repr(v2.exc), 160))
            continue
        second = Held(r2.it).value(r2.it.fz(v2, s2), s2)
        d = differs(first, second)
        told.append(None if d is None else "it holds %s instead of %s" % (show(d[1])[:200], show(d[0])[:200]))
    ctx.analysed.update(r2.it.visited)
    if None not in told:
        return ctx.violation("roundtrip", printer, "%s: %s is printed as %s; read again, %s" % (what, text, flat, told[0]), key)
    if any(t is not None for t in told):
        raise Undecided("%s: read again, the text has %d outcomes: %s" % (what, len(told), [t for t in told if t][0]))
    ctx.ok("roundtrip", printer, "%s%s: %s" % (what, " (names in the other order)" if down else "", flat))


def steps(text):
    out = []
    for step in re.findall(r"\(([^()]*)\)", text):
        name, *args = step.split()
        out.append((name, tuple(("Constant", a, ("set", [])) for a in args)))
    return ("plan", tuple(out))


def dom(body, req=":adl :typing :numeric-fluents :derived-predicates"):
    return "(define (domain DD) (:requirements %s) %s)" % (req, body)


ACT = act("Z", "(P ?X)", "(not (P ?X))", "?X")
SECTIONS = [
    ("nothing", "(define (domain DD))"),
    ("one requirement", "(define (domain DD) (:requirements :strips))"),
    ("types", dom("(:types A B C)")),
    ("types in order", dom("(:types A - object B - A C - B D - C)")),
    ("types in another order", dom("(:types D - C C - B B - A A - object)")),
    ("types without object", dom("(:types D - C C - B B - A A)")),
    ("types, two trees", dom("(:types A B - C D E - F C F G)")),
    ("types, three levels", dom("(:types A - B C - A D - A E - C F - B B G - object H)")),
    ("types, long chain", dom("(:types A - B B - C C - D D - E E - F F - G G - H I - A)")),
    ("types, long chain declared upwards", dom("(:types G - H F - G E - F D - E C - D B - C A - B)")),
    ("types, many", dom("(:types A - B C - D E - F G - H I - J K - L M - N O - A Q - R S T U V W Z)")),
    ("crowd", dom("(:types A B C D E F) (:constants K1 - A K2 - B K3 - C K4 - D K5 - A K6 - E K7 - F K8 K9 - A) (:predicates (P1) (P2) (P3 ?X - (either A B C D)) (P4 ?X ?Y ?Z ?U ?V ?W - A) (P5 ?X) (P6 ?X - (either A B C)) (P7 ?X - F)) "
        "(:functions (F1) (F2) (F3 ?X - (either A B C)) (F4 ?X ?Y ?Z ?U - A ?V ?W - B) (F5 ?X) (F6)) (:derived (P1) (P2)) (:derived (P2) (exists (?A1 - A ?A2 - B ?A3 - (either C D E) ?A4 ?A5 ?A6 - F) (P4 ?A1 ?A2 ?A3 ?A4 ?A5 ?A6))) (:derived (P5 ?X) (P7 ?X)) (:derived (P5 ?Y) (P6 ?Y)) "
        "%s %s %s %s" % (act("A1", "(and (P5 ?X) (P5 ?Y) (P5 ?Z) (P5 ?U) (P5 ?V) (P5 ?W))", "(and (P5 ?X) (not (P5 ?Y)) (P5 ?Z) (not (P5 ?U)) (P5 ?V) (increase (F1) 1))", "?X ?Y - A ?Z - (either B C D) ?U - E ?V ?W"),
                         act("A2", "(P1)", "(P2)", ""), act("A3", "(or (P1) (P2) (P5 ?X) (P6 ?X) (P7 ?X))", "(P2)", "?X"), act("A4", "(P4 ?F ?E ?D ?C ?B ?A)", "(P2)", "?A ?B ?C ?D ?E ?F - A")))),
    ("constants", dom("(:types T U) (:constants A - T B C - U D E - T F G)")),
    ("constants of no type", dom("(:constants B A C)")),
    ("constants of type object", dom("(:types T) (:constants A - object B - T C)")),
    ("predicates", dom("(:types T U) (:predicates (P) (Q ?X) (R ?X - T ?Y - U) (S ?X ?Y - T ?Z) (V ?X - (either T U) ?Y - T))")),
    ("predicates with repeated names", dom("(:types T) (:predicates (P ?X ?X) (Q ?X - T ?X - T ?Y))")),
    ("functions", dom("(:types T U) (:functions (F) (G ?X - T) (H ?X ?Y - U ?Z) (K ?X - (either T U) ?Y))")),
    ("functions with types", dom("(:types T) (:functions (F) - number (G ?X - T) (H) - number (K ?X))")),
    ("functions, all with types", dom("(:types T) (:functions (G ?X - T) (F) - number)")),
    ("costs", dom("(:predicates (P ?X)) (:functions (total-cost) - number) (:action A :parameters (?X) :precondition (P ?X) :effect (increase (total-cost) 2))", ":action-costs")),
    ("derived predicates", dom("(:types T) (:predicates (P ?X - T) (Q ?X ?Y)) (:derived (P ?X - T) (Q ?X ?X)) (:derived (Q ?X ?Y) (and (P ?X) (P ?Y))) (:derived (P ?Y) (Q ?Y ?Y))")),
    ("derived predicate with alternatives", dom("(:types T U) (:predicates (P ?X - (either T U) ?Y)) (:derived (P ?X ?Y) (exists (?Z - (either U T)) (P ?Z ?Y)))")),
    ("actions", dom("(:predicates (P ?X)) %s %s" % (ACT, act("A", "(and (P ?X) (P ?Y))", "(and (P ?X) (not (P ?Y)))", "?Y ?X")))),
    ("actions with the same body", dom("(:predicates (P ?X)) %s %s" % (ACT, ACT.replace(" Z ", " B ")))),
    ("empty formulas", dom("(:predicates (P)) (:action A :parameters () :precondition () :effect ())")),
    ("empty conjunctions", dom("(:predicates (P)) (:action A :parameters () :precondition (and) :effect (and))")),
    ("empty disjunction", dom("(:predicates (P)) (:action A :parameters () :precondition (or) :effect (P))")),
    ("conjunctions of one", dom("(:predicates (P)) (:action A :parameters () :precondition (and (P)) :effect (and (not (P))))")),
    ("nested conjunctions", dom("(:predicates (P) (Q)) (:action A :parameters () :precondition (and (and (P)) (or (or (Q) (P)) (P) (and (Q) (and (P) (Q))))) :effect (and (P) (not (Q))))")),
    ("repeated operands", dom("(:predicates (P) (Q)) (:action A :parameters () :precondition (or (P) (and (Q) (Q)) (P)) :effect (and (P) (Q) (P)))")),
    ("negations", dom("(:predicates (P) (Q)) (:action A :parameters () :precondition (not (not (and (not (P)) (not (or (Q) (not (P))))))) :effect (not (P)))")),
    ("implications", dom("(:predicates (P) (Q)) (:action A :parameters () :precondition (imply (imply (P) (Q)) (imply (Q) (P))) :effect (P))")),
    ("expressions", dom("(:functions (F) (G)) (:action A :parameters () :precondition (and (> (+ (F) (G) 1) (* 2 (G) 3)) (<= (/ (F) 2) (- (G))) (>= (- (F) (G)) 1.5) (= (F) 0) (< (+ (- (F)) (F)) 2)) :effect (and (assign (F) (* (G) (+ 1 (F)))) (decrease (G) (- 3 (F))) (scale-up (F) 2) (scale-down (G) 0.5)))")),
    ("alternatives", dom("(:predicates (P) (Q ?X)) (:action A :parameters (?X) :effect (oneof (P) (and (Q ?X) (not (P))) (when (P) (Q ?X))))", ":adl :non-deterministic")),
    ("quantifiers with alternatives", dom("(:types T U) (:predicates (Q ?X)) (:action A :parameters (?Y - T) :precondition (forall (?A - (either T U) ?B ?C - T) (exists (?D - U ?E - (either T U)) (and (Q ?A) (Q ?B) (Q ?C) (Q ?D) (Q ?E) (Q ?Y)))) "
        ":effect (forall (?A - (either T U) ?B - T ?C) (when (and (Q ?A) (Q ?C)) (and (Q ?B) (not (Q ?Y))))))")),
    ("everything", dom("(:types S U - T T R) (:constants K - T L) (:predicates (P ?A - T ?B) (Q)) (:functions (F ?A - T) (G) - number) (:derived (Q) (exists (?X) (P ?X L))) %s" % act("B", "(and (P K ?Y) (Q) (> (G) 1))", "(and (not (Q)) (increase (F ?X) 2))", "?X - S ?Y"))),
]


def prob(body, req=":adl :typing :numeric-fluents"):
    return "(define (problem PP) (:domain DD) (:requirements %s) %s)" % (req, body)


STATES = [
    ("smallest", "(define (problem PP) (:domain DD) (:init) (:goal (and)))"),
    ("empty disjunction", prob("(:init) (:goal (or))")),
    ("objects", prob("(:objects A - T B C - U D E - T F G) (:init (P A B)) (:goal (P B A))")),
    ("objects of one type", prob("(:objects B A C - T) (:init (P A) (P C)) (:goal (P B))")),
    ("objects of no type", prob("(:objects B A C) (:init (P A) (P C)) (:goal (P B))")),
    ("objects of type object", prob("(:objects B A - object C) (:init (P A) (P C)) (:goal (P B))")),
    ("facts", prob("(:objects A B) (:init (N) (P A) (P A) (not (Q A B)) (not (N)) (Q B A) (Q A A)) (:goal (not (N)))")),
    ("crowd", prob("(:objects O1 - A O2 - B O3 - C O4 - D O5 - E O6 - F O7 - A O8 O9 - A) (:init (P O1) (P O2) (P O3) (P O4) (P O5) (P O6) (Q O1 O2 O3 O4 O5 O6) (N) (not (P O7)) (= (F O1) 1) (= (F O2) 2) (= (F O3) 3.5) (= (F O4) 0) (= (F O5) 1) (= (G O1 O2 O3 O4) 7)) "
        "(:goal (and (P O1) (P O2) (P O3) (P O4) (P O5) (or (P O6) (P O7) (P O8) (N) (not (N))))) (:metric minimize (+ (F O1) (F O2) (F O3) (F O4) (F O5) 6))")),
    ("values", prob("(:objects A B) (:init (= (F A) 1) (= (F B) 1) (= (G) 0) (= (F A) 2.5) (= (H A B) 10) (= K 3)) (:goal (>= (F A) (G)))")),
    ("expressions", prob("(:objects A) (:init) (:goal (and (> (+ (F A) G 1) (* 2 (G) 3)) (<= (/ (F A) 2) (- (G))) (= (F A) (- 3 (G))))) (:metric minimize (+ (* 2 (F A)) (/ (G) 3) 1))")),
    ("metric of a value", prob("(:init) (:goal (N)) (:metric maximize (total-cost))")),
    ("metric of a function", prob("(:objects A) (:init) (:goal (N)) (:metric minimize (F A))")),
    ("metric of a difference", prob("(:objects A) (:init) (:goal (N)) (:metric minimize (- (F A)))")),
    ("no requirements", "(define (problem PP) (:domain DD) (:objects A B - T) (:init (P A)) (:goal (or (P B) (not (P A)) (imply (P A) (P B)))))"),
    ("formulas", prob("(:objects A B - T) (:init (P A)) (:goal (and (or (P A) (P B) (= A B)) (not (and (P A) (P B))) (imply (P A) (exists (?X - T ?Y) (Q ?X ?Y)))))")),
]

PLANS = [
    ("no steps", ""),
    ("one step", "(A X Y)"),
    ("a step without arguments", "(A)"),
    ("steps in order", "(B Y X) (A X) (C) (A X)"),
    ("steps in another order", "(A X) (A X) (C) (B Y X)"),
    ("repeated arguments", "(A X X Y X) (B Y Y)"),
    ("many steps", " ".join("(A%d %s)" % (i % 5, " ".join("X%d" % (i * j % 7) for j in range(i % 6))) for i in range(12))),
]
