"""A derived predicate is accepted exactly when its head fits the declared predicate.

Domain texts with symbolic names (type hierarchies, declarations and heads in every combination) are read by interpreting the callbacks and constructors of
the parser.  The verdict is compared with the definition: as many parameters, and every type of the head below a declared one.
"""
import itertools

from .. import grammar as G
from ..api import *
from ..skeleton import Held, differs, domain, show, sexp
from ..texts import Reader
from .c20 import ACCEPTED
from .c26 import transformer

MINIMUM = 300

TYPES = {
    "no hierarchy": None,
    "flat": "A B",
    "one step": "B - A D",
    "two steps": "C - B B - A D",
    "downwards": "A - object B - A C - B",
    "branches": "B C - A D - object",
    "circle": "A - B B - A C - A D",
}
TAGS = ["", "A", "B", "C", "D", "object", "(either A D)", "(either B C)", "(either C object)"]
DOMAIN = "(define (domain DD) (:requirements :adl :typing :derived-predicates) %s (:predicates (R) (PP ?V - object) %s (Q ?V)) %s)"


def parents(types):
    if types is None:
        return {}
    out, group, i, ws = {}, [], 0, types.split()
    while i < len(ws):
        if ws[i] == "-":
            for g in group:
                out[g] = None if ws[i + 1] == "object" else ws[i + 1]
            group, i = [], i + 2
        else:
            group.append(ws[i])
            out[ws[i]] = None
            i += 1
    return out


def members(tag):
    return tag.strip("()").replace("either ", "").split() if tag else []


def below(t, tops, up):
    if not tops or "object" in tops:
        return True
    while t is not None:
        if t in tops:
            return True
        t = up.get(t)
    return False


def fits(types, decl, heads):
    """Whether the domain is to be accepted: the types are all available, and the head fits."""
    up = parents(types)
    if any(below(up[t], [t], up) for t in up if up[t] and t != "C"):
        return False    # a circle: the domain is refused
    known = set(up) | {p for p in up.values() if p} | {"object"}
    for d in decl + heads:
        if not set(members(d)) <= known:
            return False
    return len(decl) == len(heads) and all(below(t, members(d), up) for d, h in zip(decl, heads) for t in members(h))


def listed(names, tags):
    """A typed list; an untyped name before a typed one cannot be written, so the untyped come last."""
    return " ".join("?%s%s" % (n, " - " + t if t else "") for n, t in zip(names, tags))


def text(types, decl, heads, name="P", body="(Q ?X)"):
    sec = "(:types %s)" % types if types is not None else ""
    return DOMAIN % (sec, "(P %s)" % listed("UVWX", decl), "(:derived (%s %s) %s)" % (name, listed("XYZU", heads), body))


def texts(tier):
    for (what, ts), d, h in itertools.product(TYPES.items(), TAGS, TAGS):
        yield "%s, %s for %s" % (what, h or "none", d or "none"), text(ts, [d], [h]), fits(ts, [d], [h])
    for what in ("two steps", "branches"):
        ts = TYPES[what]
        for d, h in itertools.product(itertools.product(["A", "D"], ["A", "B", ""]), itertools.product(["A", "B", "D"], ["A", "C", "D", ""])):
            yield "%s, (%s) for (%s)" % (what, ", ".join(h), ", ".join(d)), text(ts, list(d), list(h)), fits(ts, list(d), list(h))
    for n, m in itertools.product(range(4), range(4)):
        yield "%d parameters for %d" % (m, n), text("A", [""] * n, [""] * m, body="(R)"), n == m
        yield "%d typed parameters for %d" % (m, n), text("A", ["A"] * n, ["A"] * m, body="(R)"), n == m
    for h in ("", "A"):
        yield "a predicate that is not declared (%s)" % (h or "none"), text("A", ["A"], [h], name="S"), False
    ok = text("B - A", ["A"], ["B"])
    yield "two heads, the second fits", ok[:-1] + "(:derived (P ?X - A) (R)))", True
    yield "two heads, the second does not fit", text("B - A", ["B"], ["B"])[:-1] + "(:derived (P ?X - A) (R)))", False
    yield "two heads, the first does not fit", text("B - A", ["B"], ["A"])[:-1] + "(:derived (P ?X - B) (R)))", False
    yield "after an action", text("B - A", ["A"], ["B"]).replace("(:derived", "(:action E :parameters (?X - A) :precondition (P ?X) :effect (Q ?X)) (:derived"), True


def run(ctx):
    g = G.find(ctx.root)
    cls = transformer(ctx, None, "domain")
    work = list(texts(ctx.tier))
    step = 12
    ctx.spread(guarded, [(g, cls, work[i:i + step]) for i in range(0, len(work), step)])


def guarded(ctx, g, cls, some):
    for what, t, fit in some:
        ctx.guard("fit", cls, one, ctx, g, cls, what, t, fit)


def one(ctx, g, cls, what, t, fit):
    r = Reader(ctx, g, cls)
    r.it.no_inline = lambda f: False
    outs = r.read("domain", t)
    ctx.analysed.update(r.it.visited)
    good = [(s, v) for s, v in outs if not isinstance(v, Exc)]
    bad = [v for s, v in outs if isinstance(v, Exc)]
    if good and bad or not outs:
        raise Undecided("%s: reading %s has %d good and %d bad outcomes" % (what, t, len(good), len(bad)))
    if bad:
        for e in bad:
            k = e.exc.cls
            name = k.name if isinstance(k, ClassInfo) else str(k)
            library = any(x.name in ACCEPTED if isinstance(x, ClassInfo) else str(x).split(".")[-1] in ACCEPTED for x in (k.mro() if isinstance(k, ClassInfo) else [k]))
            ctx.require(library, "error", cls, "%s: refused with an error of the library" % what, "%s: %s is refused with a %s" % (what, t, name), "error %s" % what)
        ctx.require(not fit, "fit", cls, "%s: refused" % what, "%s: the head fits the declaration, but %s is refused (%s)" % (what, t, short(bad[0].exc, 120)), "fit %s" % what)
        return
    ctx.require(fit, "fit", cls, "%s: accepted" % what, "%s: the head does not fit the declaration, but %s is accepted" % (what, t), "fit %s" % what)
    if fit:
        s, v = good[0]
        d = differs(domain(t), Held(r.it).value(v, s))
        ctx.require(d is None, "types", cls, "%s: the types of the head are completed" % what,
                    "%s: read from %s, the object holds %s where the text says %s" % (what, t, show(d[1])[:200] if d else "", show(d[0])[:200] if d else ""), "types %s" % what)
