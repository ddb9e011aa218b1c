"""Occurrences of variables and constants refer to the innermost declaration.

Three rules: the function that gives occurrences the types of a table is proved, class by class, to change the types of exactly the free occurrences named in
the table; every production that binds variables hands its body to such a function; and the callbacks, interpreted along the trees of skeleton texts with
symbolic names, build what an independent reader with lexical scoping makes of the same text.
"""
from .. import grammar as G
from ..api import *
from ..parsing import Table, impossible_name
from ..retag import proof
from ..skeleton import Held, Refused, differs, domain, problem, show
from ..texts import Reader

MINIMUM = 60
SCOPE_FREE = {"Variable", "Constant"}


def run(ctx):
    tb = Table(ctx).build()
    ctx.guard("retag", "pddl.parser", retaggers, ctx, tb)
    work = []
    for kind, texts in [("domain", DOMAINS(ctx.tier)), ("problem", PROBLEMS)]:
        cls = transformer(ctx, tb, kind)
        work += [(tb.g, cls, kind, what, text) for what, text in texts]
    ctx.spread(guarded, work)


def guarded(ctx, g, cls, kind, what, text):
    ctx.guard("texts", cls, read, ctx, g, cls, kind, {"domain": domain, "problem": problem}[kind], what, text)


def transformer(ctx, tb, kind):
    for c in ctx.prog.classes.values():
        if c.name == "%sTransformer" % kind.capitalize():
            return c
    raise AnalysisError("no transformer for the %s" % kind)


def retaggers(ctx, tb):
    used = {}
    for c in tb.cases:
        for o in c.outs or []:
            if o.kind != "ret" or not isinstance(o.value, New) or impossible_name(o.facts):
                continue
            k = o.value.cls
            names = [n for n, _ in o.value.fields]
            if "variables" not in names:
                continue
            for n, v in o.value.fields:
                body = strip(v)
                if n == "variables" or not any(isinstance(x, Sym) and x.name.startswith("r:") and "typed_list" not in x.name for x in walk(body)):
                    continue
                if isinstance(body, App) and body.op == "call" and isinstance(body.args[0], Fn) and len(body.args) == 3:
                    used.setdefault(body.args[0].f.qualname, body.args[0].f)
                    if isinstance(body.args[1], Sym):
                        ctx.ok("binder", c.func, "%r: the body of a %s is read in the scope of its variables" % (c, k.name))
                        continue
                ctx.undecided("binder", c.func, "%r: the body of the %s is %s" % (c, k.name, short(body, 80)))
    for q, f in sorted(used.items()):
        proved, wrong, open_, n, classes = proof(ctx, f)
        if proved:
            for k in classes:
                ctx.ok("retag", f, "%s of a %s: exactly the free occurrences named in the table get its types (%d models in all)" % (f.name, k.name, n))
        elif wrong:
            for w in wrong:
                ctx.violation("retag", f, w, "retag %s" % w[:60])
        else:
            ctx.undecided("retag", f, "; ".join(open_)[:300])
    if not used:
        ctx.undecided("retag", "pddl.parser", "no function that gives occurrences their types")


def read(ctx, g, cls, kind, make, what, text):
    try:
        want = make(text)
    except Refused as e:
        want = e
    r = Reader(ctx, g, cls)
    r.it.no_inline = lambda f: False
    outs = r.read(kind, text)
    ctx.analysed.update(r.it.visited)
    where = own_method(cls, kind) or cls
    told = [judge(r, what, text, want, s, v, where) for s, v in outs]
    good, bad = [t for ok, w, t in told if ok], [(w, t) for ok, w, t in told if not ok]
    if good and not bad:
        ctx.ok("texts", where, "%s: %s" % (what, good[0][:160]))
    elif bad and not good:
        # whatever holds of the conditions that stay open
        ctx.violation("texts", bad[0][0], "%s: %s" % (what, bad[0][1]), "%s %s" % (kind, what))
    else:
        raise Undecided("%s: %d outcomes, of which %d agree with the text" % (what, len(told), len(good)))


def judge(r, what, text, want, s, v, where):
    """(agrees, where, text) for one outcome."""
    if isinstance(v, Exc):
        if isinstance(want, Refused):
            return True, where, "refused, since %s" % want
        return False, v.fn or where, "reading %s raises %s" % (text, short(repr(v.exc), 160))
    if isinstance(want, Refused):
        return False, where, "%s is accepted although %s" % (text, want)
    got = Held(r.it).value(v, s)
    d = differs(want, got)
    if d is None:
        return True, where, show(got)
    return False, where, "in %s the object holds %s where the text says %s" % (text, show(d[1])[:200], show(d[0])[:200])


HEAD = "(define (domain DD) (:requirements :adl :typing :numeric-fluents :derived-predicates :non-deterministic) (:types S U - T T R) (:constants K - T L) " \
       "(:predicates (P ?A - T ?B) (Q ?A) (N) (H ?A - S ?B) (J ?A)) (:functions (F ?A - T) (G)) %s)"

LEAVES = {"atom": "(P ?X ?Y)", "undeclared": "(Q ?W)", "equality": "(= ?X ?Z)", "constant": "(P K ?X)", "constants": "(= L ?Z)",
          "comparison": "(> (F ?X) (+ (F ?Z) 1))", "values": "(<= (- (F ?Y)) (* G (F ?X)))", "equal values": "(= (F ?X) (F ?Y))", "alternatives": "(Q ?Z)"}
DECLS = {"none": "?V", "typed": "?X - U", "shadow": "?X", "two": "?W ?Z - U", "alternatives": "?Y - (either T R) ?W", "all": "?X - R ?Y - R ?Z"}
PARAMS = "?X - T ?Z - (either T U) ?Y"


def act(name, pre, eff, params=PARAMS):
    return "(:action %s :parameters (%s) :precondition %s :effect %s)" % (name, params, pre, eff)


def DOMAINS(tier):
    out = []
    for n, l in LEAVES.items():
        out.append(("%s in an action" % n, HEAD % act("A", "(and (N) %s)" % l, "(and (when %s (J ?X)))" % l)))
        out.append(("%s in connectives" % n, HEAD % act("A", "(or (not %s) (imply %s (N)) (imply (N) %s))" % (l, l, l), "(and (when (not %s) (J ?Z)))" % l)))
        for m, d in DECLS.items():
            q, p = ("forall", "exists") if (len(n) + len(m)) % 2 else ("exists", "forall")
            out.append(("%s under %s (%s)" % (n, q, m), HEAD % act("A", "(and (J ?X) (%s (%s) (or (N) %s)) (J ?Z))" % (q, d, l), "(and (forall (%s) (when %s (P ?X ?Y))) (J ?Y))" % (d, l))))
            if tier == "thorough" or n in ("atom", "comparison"):
                for k, e in DECLS.items():
                    out.append(("%s under %s (%s), %s (%s)" % (n, q, m, p, k), HEAD % act(
                        "A", "(%s (%s) (and %s (%s (%s) (imply (N) %s)) (J ?X)))" % (q, d, l, p, e, l),
                        "(forall (%s) (and (when (%s (%s) %s) (P ?X ?Y)) (J ?Z)))" % (d, p, e, l))))
    for m, d in DECLS.items():
        out.append(("effects under forall (%s)" % m, HEAD % act("A", "(N)", "(and (J ?X) (forall (%s) (and (P ?X ?Y) (not (Q ?Z)) (increase (F ?X) (F ?Z)))) (J ?Y) (not (J ?Z)))" % d)))
        out.append(("nested effects (%s)" % m, HEAD % act("A", "()", "(and (forall (%s) (forall (?X - R ?V) (when (Q ?X) (and (P ?X ?Y) (Q ?V))))) (when (Q ?X) (and (P ?X ?Z) (not (J ?Y)))) )" % d)))
        out.append(("alternative effects (%s)" % m, HEAD % act("A", "(N)", "(oneof (forall (%s) (J ?X)) (and (Q ?X) (P ?X ?Z)) (not (Q ?Y)))" % d)))
        out.append(("derived predicate with %s" % m, HEAD % ("(:derived (P ?X ?Y - U) (and (Q ?X) (forall (%s) (P ?X ?Y)) (Q ?Z) (J ?Y)))" % d)))
    for e in ("assign", "increase", "decrease", "scale-up", "scale-down"):
        out.append(("%s" % e, HEAD % act("A", "(N)", "(and (%s (F ?X) (+ (F ?Z) (F K) 2)) (forall (?Z - R) (%s (F ?Z) 3)))" % (e, e))))
    out += [
        ("derived predicates", HEAD % "(:derived (P ?X ?Y) (exists (?X - R) (and (P ?X ?Y) (Q ?Z))))"),
        ("derived predicate with a subtype", HEAD % "(:derived (P ?X - S ?Y - R) (or (P ?X ?Y) (= ?X K) (> (F ?X) 1)))"),
        ("derived predicate without arguments", HEAD % "(:derived (N) (forall (?X - T) (P ?X L)))"),
        ("two actions", HEAD % (act("A", "(P ?X ?Y)", "(Q ?X)", "?X - T ?Y - U") + act("B", "(P ?X ?Y)", "(and (Q ?X) (J ?Y))", "?Y") + act("C", "(Q ?X)", "(J ?X)", "?X - R"))),
        ("an action, then a derived predicate", HEAD % (act("A", "(P ?X ?Y)", "(Q ?X)", "?X - T ?Y - U") + "(:derived (Q ?A) (P ?X ?Y)) (:derived (J ?X) (or (Q ?X) (Q ?Y)))")),
        ("a derived predicate, then actions", HEAD % ("(:derived (Q ?X - R) (J ?X))" + act("A", "(J ?X)", "(Q ?X)", "?Y") + act("B", "(J ?X)", "(Q ?X)", "?X"))),
        ("two derived predicates", HEAD % "(:derived (Q ?X - R) (J ?X)) (:derived (J ?Y) (Q ?X)) (:derived (N) (H ?X ?Y))"),
        ("derived predicate with the types declared", HEAD % "(:derived (H ?Y ?X) (and (Q ?X) (J ?Y) (P ?Y ?X)))"),
        ("a parameter with the name of a constant", HEAD % act("A", "(and (P K ?K) (Q L) (= ?K K) (> (F ?K) (F K)))", "(and (when (P K ?K) (P ?K K)) (increase (F K) (F ?K)))", "?K - R ?L")),
        ("a quantified variable with the name of a constant", HEAD % act("A", "(forall (?K - R ?X) (and (P K ?K) (Q L) (= ?K K) (> (F ?K) (F K))))", "(forall (?L - R ?X) (and (P L ?L) (not (Q K))))")),
        ("a parameter with the name of an undeclared constant", HEAD % act("A", "(Q X)", "(N)")),
        ("a derived predicate with the names of constants", HEAD % "(:derived (P ?K ?L - U) (and (P K L) (Q ?K) (J ?L)))"),
        ("the same names for everything", HEAD % (act("P", "(P K ?P)", "(Q ?T)", "?P - T ?T") + act("F", "(Q ?F)", "(J K)", "?F - U"))),
        ("no predicates and a derived one", "(define (domain DD) (:requirements :adl :derived-predicates) (:derived (M ?X) (= ?X ?Y)))"),
        ("no parameters", HEAD % act("A", "(forall (?X - T) (P ?X ?Y))", "(forall (?Y) (P ?Y ?X))", "")),
        ("no precondition and no effect", HEAD % "(:action A :parameters (?X - T))"),
        ("effect only", HEAD % "(:action A :parameters (?X - T) :effect (Q ?X))"),
        ("precondition only", HEAD % "(:action A :parameters (?X - T) :precondition (Q ?X))"),
        ("undeclared constant in a precondition", HEAD % act("A", "(Q M)", "(N)")),
        ("undeclared constant in an effect", HEAD % act("A", "(N)", "(Q M)")),
        ("undeclared constant in an expression", HEAD % act("A", "(> (F M) 1)", "(N)")),
        ("undeclared constant in an equality", HEAD % act("A", "(= ?X M)", "(N)")),
        ("undeclared constant in a derived predicate", HEAD % "(:derived (Q ?X) (P M ?X))"),
        ("undeclared derived predicate", HEAD % "(:derived (M ?X) (Q ?X))"),
        ("derived predicate with too many arguments", HEAD % "(:derived (Q ?X ?Y) (P ?X ?Y))"),
        ("derived predicate with too few arguments", HEAD % "(:derived (P ?X) (Q ?X))"),
    ]
    return out


PHEAD = "(define (problem PP) (:domain DD) %s)"
PROBLEMS = [
    ("objects", PHEAD % "(:objects A B - T C) (:init (P A C) (not (Q B)) (H A B C) (N)) (:goal (and (P A C) (Q B)))"),
    ("objects of no type", PHEAD % "(:objects A B) (:init (P A B) (Q K)) (:goal (P A B))"),
    ("no objects", PHEAD % "(:init (N)) (:goal (N))"),
    ("undeclared objects in facts", PHEAD % "(:objects A - T) (:init (P A B) (= (F B) 2) (= (F A) 3)) (:goal (Q A))"),
    ("values", PHEAD % "(:requirements :numeric-fluents :typing) (:objects A - T B - U) (:init (= (F A) 2) (= (G A B) 3.5) (= M 4) (Q A)) (:goal (> (F A) (+ (G A B) M))) (:metric minimize (* 2 (F A)))"),
    ("quantified goal", PHEAD % "(:requirements :adl :typing) (:objects A - T) (:init (Q A)) (:goal (forall (?X - T ?Y) (imply (Q ?X) (exists (?X - U) (P ?X ?Y)))))"),
    ("quantified goal with shadowing", PHEAD % "(:requirements :adl :typing) (:objects A - T) (:init (Q A)) (:goal (exists (?X - T) (and (Q ?X) (forall (?X ?Y - U) (or (P ?X ?Y) (Q A) (= ?X ?Z))) (Q ?X) (Q ?Y))))"),
    ("goal with values", PHEAD % "(:requirements :adl :typing :numeric-fluents) (:objects A - T) (:init (Q A)) (:goal (forall (?X - T) (and (<= (F ?X) (G A ?X)) (= (F ?X) (F ?Y)))))"),
    ("goal without quantifiers", PHEAD % "(:objects A - T) (:init (Q A)) (:goal (and (Q ?X) (= ?X A) (not (P ?X A))))"),
    ("metric", PHEAD % "(:objects A - T) (:init (Q A)) (:goal (Q A)) (:metric maximize (/ (- (F A) (G)) (+ 1 2 (F B))))"),
]
