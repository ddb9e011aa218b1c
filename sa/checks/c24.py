"""Typed lists: every name gets the types that follow it, in the order of the text, and conflicting repetitions are refused.

The callbacks of the typed lists are interpreted on skeletons of token lists (groups of names with a type, with alternatives of types, or without) whose
names and types are symbols, equal or different as the skeleton says, and the value goes through every callback that takes a typed list.
What the names and types are never matters; the loop over the groups is followed for every skeleton of up to four groups.
"""
import ast

from .. import grammar as G
from ..api import *
from ..model import Model
from ..parsing import Table
from .c20 import accepted, missing_state

MINIMUM = 120
BOUND = 12
LISTS = {"typed_list_name": "name", "typed_list_variable": "variable", "f_typed_list_atomic_function_skeleton": "function"}


class Unroll(Interp):
    """Follows while loops whose condition is known."""

    bound = BOUND

    def s_While(self, n, st):
        if n.orelse:
            return super().s_While(n, st)
        out, live = [], [(st, 0)]
        while live:
            s, k = live.pop()
            for s1, t in self.ev(n.test, s):
                if isinstance(t, Exc):
                    out.append((s1, t))
                    continue
                tr = self.truth(t, s1)
                if len(tr) != 1 and k == 0:
                    return super().s_While(n, st)
                for s2, b in tr:
                    if not b:
                        out.append((s2, None))
                        continue
                    if k > self.bound or len(tr) != 1:
                        raise Undecided("a loop goes on for longer than its input")
                    for s3, c in self.block(n.body, s2):
                        if c is None or c == "cont":
                            live.append((s3, k + 1))
                        elif c == "brk":
                            out.append((s3, None))
                        else:
                            out.append((s3, c))
        return out


    def place(self, h, k, st):
        """Index of the entry under a key; -1 if there is none, None if that is not known."""
        for i, p in enumerate(h.parts):
            if not (isinstance(p, One) and isinstance(p.v, Pair) and not isinstance(p.v.v, Grp)):
                return None
            b = self.decide(self.c_eq(p.v.k, k, st), st)
            if b is None:
                return None
            if b:
                return i
        return -1

    def heap_meth(self, recv, name, parts, kwargs, st, node):
        h = st.heap[recv.id]
        vs = [p.v for p in parts if isinstance(p, One)]
        if h.kind == "dict" and name == "setdefault" and len(vs) == len(parts) and vs and not kwargs:
            i = self.place(h, vs[0], st)
            if i is not None and i >= 0:
                return [(st, h.parts[i].v.v)]
            if i is not None:
                s = st.clone()
                d = vs[1] if len(vs) > 1 else NONE
                s.heap[recv.id] = h.with_parts(h.parts + (One(Pair(self.fz(vs[0], st), d)),))
                return [(s, d)]
        return super().heap_meth(recv, name, parts, kwargs, st, node)

    def dict_get(self, base, ps, ix, st, node):
        made = self.__dict__.get("defaultdicts", {})
        if isinstance(base, Ref) and base.id in made and isinstance(st.heap.get(base.id), HSeq):
            h = st.heap[base.id]
            i = self.place(h, ix, st)
            if i is not None and i >= 0:
                return [(st, h.parts[i].v.v)]
            if i is not None:
                out = []
                for s, v in self.call(made[base.id], [], {}, st, node):
                    if not isinstance(v, Exc):
                        s = s.clone()
                        s.heap[base.id] = s.heap[base.id].with_parts(h.parts + (One(Pair(self.fz(ix, st), v)),))
                    out.append((s, v))
                return out
        return super().dict_get(base, ps, ix, st, node)


# skeletons: groups of names separated by ;  "a b - t" is typed, "a b - t|u" has alternatives, "a" (last only) has no type
COMMON = ["a", "a b", "a b c", "a - t", "a b - t", "a - t; b", "a b - t; c d", "a - t; b - u", "a - t; b - t", "a b - t; c - u; d e", "a - t; b - u; c - t; d - v",
          "a - t; b - u; c - v; d", "a b - t; c d - t; e", "a - object", "a - object; b", "a - object; b - t; c", "a - t; b c - object; d - object"]
REPEATED = ["a a", "a b a", "a - t; a - t", "a - t; b - u; a - t", "a a - t", "b; a", "a b - t; c b - t", "a - t; b; ", "a - object; a - object"]
CONFLICT = ["a - t; a - u", "a - t; a", "a b - t; c - u; a - u", "a - t; b; ", "a - t; b - u; b - t", "a - t; b - t; a", "a - object; a - t"]
ALTERNATIVES = ["a - t|u", "a b - t|u; c", "a - t|u; b - u", "a - t; b - t|u|v; c d", "a - t|u; b - u|t; c", "a - t|object; b"]
ALT_REPEATED = ["a - t|u; a - t|u", "a - t|u; b; a - u|t", "a - t|u; b c - t; a - u|t; d"]
ALT_CONFLICT = ["a - t|u; a - t", "a - t; a - t|u", "a - t|u; b; a", "a - t|u; b - v; a - u|v"]


def skeleton(text):
    """[([names], [types] or None)]"""
    out = []
    for g in text.split(";"):
        g = g.strip()
        if not g:
            continue
        ns, _, ts = g.partition(" - ")
        out.append((ns.split(), ts.split("|") if ts else None))
    return out


def expected(sk):
    """[(name, types)], or None if two uses of a name differ."""
    out, known = [], {}
    for ns, ts in sk:
        for n in ns:
            t = frozenset(ts or ())
            if known.setdefault(n, t) != t:
                return None
            out.append((n, t))
    return out


def shape(out):
    return len(out) == len({n for n, _ in out})


def untyped_last(sk):
    return all(t is not None for _, t in sk[:-1])


def run(ctx):
    tb = Table(ctx).build()
    found = 0
    for rule, kind in LISTS.items():
        if rule not in tb.g.rules:
            ctx.undecided("lists", "pddl/parser/grammar.lark", "no rule %s" % rule)
            continue
        for tr in sorted({c.tr for c in tb.of(rule)}, key=lambda c: c.qualname):
            cons = [c for c in tb.cases if c.tr is tr and c.outs is not None and any(isinstance(s, G.N) and s.name == rule for s in c.symbols)]
            seen = []
            for c in cons:
                k = (c.func, tuple(repr(s) for s in c.symbols))
                if k in seen:
                    continue
                seen.append(k)
                found += 1
                ctx.guard("lists", c.func, consumer, ctx, tb, tr, rule, kind, c)
    if not found:
        ctx.undecided("lists", "pddl/parser/grammar.lark", "no callback takes a typed list")


def texts(kind, full):
    base = COMMON + REPEATED + CONFLICT
    if kind == "function":
        base = [x for x in base if untyped_last(skeleton(x))]
        base = sorted({";".join(" ".join(ns) + (" - number" if ts else "") for ns, ts in skeleton(x)).replace(";", "; ") for x in base})
    elif kind == "variable":
        base += ALTERNATIVES + ALT_REPEATED + ALT_CONFLICT
    base = [x for x in base if untyped_last(skeleton(x))]
    return base if full else [x for x in base if x in ("a b", "a b - t; c d", "a - t; b - u", "a - t|u; b - u", "a - t; a - u", "a - t; a - t", "a - t; b - t|u|v; c d")]


def consumer(ctx, tb, tr, rule, kind, case):
    full = kind != "variable" or case.rule.name in ("atomic_formula_skeleton", "action_parameters") or ctx.tier == "thorough"
    wrong, open_ = {}, {}
    for text in texts(kind, full):
        sk = skeleton(text)
        want = expected(sk)
        refuse = want is None or kind != "variable" and not shape(want)
        if kind == "variable" and want is not None and not shape(want) and case.rule.name != "typed_list_variable":
            refuse = None if case.rule.name not in ("atomic_formula_skeleton", "atomic_function_skeleton") else False
        try:
            r = one(ctx, tb, tr, rule, kind, case, sk, want)
        except Undecided as e:
            open_.setdefault(str(e)[:60], "%s.%s: (%s): %s" % (tr.name, case.rule.name, text, e))
            continue
        for what, why in r:
            if what == "open":
                open_.setdefault(why[:40], "%s.%s: (%s): %s" % (tr.name, case.rule.name, text, why))
            elif refuse is None:
                continue
            elif what == "ret" and refuse:
                wrong.setdefault("accepted", "%s: the list (%s) is accepted, although %s" % (case.rule.name, text, "a name is given different types" if want is None else "it repeats a name"))
            elif what == "value" and not refuse:
                wrong.setdefault("value", "%s: from the list (%s) comes %s" % (case.rule.name, text, why))
            elif what == "exc" and not refuse:
                wrong.setdefault("refused", "%s: the list (%s) is refused with %s" % (case.rule.name, text, why))
            elif what == "error":
                wrong.setdefault("error", "%s: the list (%s) makes the parser fail with %s" % (case.rule.name, text, why))
        if not r:
            open_.setdefault("none", "%s.%s: (%s): no outcome" % (tr.name, case.rule.name, text))
        if not any(text in m for m in list(wrong.values()) + list(open_.values())):
            ctx.ok("lists", case.func, "%s.%s: (%s)" % (tr.name, case.rule.name, text))
    for k, m in sorted(wrong.items()):
        ctx.violation("lists", case.func, "%s: %s" % (tr.name, m), "%s.%s:%s" % (tr.name, case.rule.name, k))
    for k, m in sorted(open_.items()):
        ctx.undecided("lists", case.func, m)


def one(ctx, tb, tr, rule, kind, case, sk, want):
    """[(ret | value | exc | error | open, text)] for the outcomes that can happen."""
    it = Unroll(ctx.prog, no_inline=tb.opaque, max_states=6000)
    it.attr_types = dict(tb.attr_hints(case))
    fun = ctx.prog.classes.get("pddl.logic.functions.NumericFunction")
    typ = inst(fun, True) if kind == "function" else ("py", "str")
    letters = sorted({n for ns, _ in sk for n in ns})
    types = sorted({t for _, ts in sk for t in ts or () if t not in ("object", "number")})
    sym = {n: Sym("item." + n, typ) for n in letters}
    tsym = {t: Sym("type." + t, ("py", "str")) for t in types}
    tsym.update({t: Const(t) for t in ("object", "number")})
    st = tb.state(case)
    sts = [st]
    for group in (list(sym.values()), list(tsym.values())):
        for i, x in enumerate(group):
            for y in [Const(k) for k in ("-", "(", ")")] * (kind != "function" or group is not list(sym.values())) + group[:i]:
                c = it.c_eq(x, y, st)
                sts = [s2 for s in sts for s2 in assume_false(it, c, s)]
    # the other words of the rule: any words that mean nothing
    others = {x for p in case.args for x in walk(p) if isinstance(x, Sym) and x.typ == ("py", "str")}
    model = Model({**{v: "x" + n for n, v in sym.items()}, **{v: "y" + t for t, v in tsym.items() if isinstance(v, Sym)}, **{x: "w" for x in others}})
    res = []
    out = set()
    for s in sts:
        live = [(s, [])]
        for ns, ts in sk:
            live = [(s2, a + [One(sym[n]) for n in ns]) for s2, a in live]
            if ts is not None:
                nxt = []
                for s2, a in live:
                    for s3, v in typed(ctx, tb, it, tr, rule, kind, [tsym[t] for t in ts], s2):
                        nxt.append((s3, a + [One(Const("-")), One(v)]))
                live = nxt
        for s2, a in live:
            it.nstates = 0
            f = own_method(tr, rule)
            if f is None:
                raise Undecided("no callback for %s" % rule)
            s2 = s2.clone()
            arg = it.alloc(s2, HSeq("list", tuple(a)))
            for s3, k, v in it.run(f, [arg], None, tb.selfval(tr), s2):
                if not possible(it, model, s3):
                    continue
                if k == "exc":
                    out.add(error(v, s3, s2))
                    continue
                args = [One(v) if isinstance(y, G.N) and y.name == rule else p for y, p in zip(case.symbols, case.args)]
                if len(args) != len(case.args):
                    raise Undecided("arguments of the callback")
                it.nstates = 0
                s3 = s3.clone()
                arg2 = it.alloc(s3, HSeq("list", tuple(args)))
                for s4, k2, v2 in it.run(case.func, [arg2], None, tb.selfval(tr), s3):
                    if not possible(it, model, s4):
                        continue
                    if k2 == "exc":
                        out.add(error(v2, s4, s3))
                        continue
                    out.add(("ret", ""))
                    if want is not None:
                        bad = compare(ctx, it, it.fz(v2, s4) if isinstance(v2, V) else v2, want, sym, tsym, kind, case)
                        if bad:
                            out.add(("open" if bad[0] == "?" else "value", bad.lstrip("?")))
    for q in it.visited:
        ctx.analysed.add(q)
    # an error that depends on what the parser met before is not about the list
    return sorted(x for x in out if x is not None)


def error(v, st, before):
    """What a failure says about the list; None if it is decided by what the parser met before."""
    new = [(c, b) for c, b in st.log if (c, b) not in before.log]
    syms = {x.name for x in walk(new[-1][0]) if isinstance(x, Sym)} if new else set()
    if syms == {"self"} or any(missing_state(c, b) for c, b in new):
        return None
    e = v.exc if isinstance(v, Exc) else v
    if not accepted(e):
        return ("error", short(e, 120))
    names = getattr(e.cls, "name", str(e.cls))
    if "Requirement" in names:
        return None
    return ("exc", short(e, 160))


def possible(it, model, s):
    for c, b in s.log:
        if isinstance(c, App) and about(c):
            t = model.holds(c, {})
            if t is not None and t != b:
                return False
    return True


def about(c):
    return any(isinstance(x, Sym) and x.name != "self" for x in walk(c))


def assume_false(it, c, st):
    if isinstance(c, Const):
        return [] if c.v else [st]
    s = it.assume(c, False, st)
    return [s] if s is not None and not isinstance(s, list) else list(s or [])


def typed(ctx, tb, it, tr, rule, kind, types, st):
    """What stands after the separator: a type, or what the callback of the type definition makes of the types."""
    if kind != "variable":
        return [(st, types[0])]
    f = own_method(tr, "type_def")
    if f is None:
        f2 = None
        for c in ctx.prog.subclasses(tr, strict=False):
            f2 = f2 or own_method(c, "type_def")
        raise Undecided("no callback for type_def in %s" % tr.name)
    toks = [One(t) for t in types]
    if len(types) > 1:
        toks = [One(Const("(")), One(Const("either"))] + toks + [One(Const(")"))]
    st = st.clone()
    arg = it.alloc(st, HSeq("list", tuple(toks)))
    it.nstates = 0
    return [(s, v) for s, k, v in it.run(f, [arg], None, tb.selfval(tr), st) if k == "ret"]


# -- what comes out -----------------------------------------------------------------------------
def bare(v):
    while isinstance(v, App) and v.op in ("name", "str") and len(v.args) == 1:
        v = v.args[0]
    return v


def term_of(v):
    """(name, types) of a term built by a constructor."""
    if not isinstance(v, New):
        return None
    f = dict((k.lstrip("_"), x) for k, x in v.fields)
    if "name" in f and "type_tags" in f:
        return bare(f["name"]), f["type_tags"]
    return None


def types_of(v):
    """The set of types in a collection value; None if it is not known."""
    v = strip(v)
    if isinstance(v, Const) and v.v is None:
        return frozenset()
    if isinstance(v, Seq):
        out = set()
        for p in v.parts:
            if isinstance(p, One):
                out.add(bare(p.v))
            elif isinstance(p, Spread):
                t = types_of(p.src)
                if t is None:
                    return None
                out |= t
            else:
                return None
        return frozenset(out)
    return None


def compare(ctx, it, v, want, sym, tsym, kind, case):
    """None if the value has exactly the wanted entries, else what it has (with ? if that is not clear)."""
    goal = [(sym[n], frozenset(tsym[t] for t in ts)) for n, ts in want]
    drop = {Const("object")}
    found = []
    for x in walk(v):
        if not isinstance(x, Seq):
            continue
        ps = x.parts
        if x.kind == "dict":
            if ps and all(isinstance(p, One) and isinstance(p.v, Pair) for p in ps) and any(bare(p.v.k) in sym.values() for p in ps):
                if all(term_of(p.v.v) is None for p in ps):
                    ts = [types_of(p.v.v) if isinstance(p.v.v, Seq) or p.v.v == NONE else frozenset([bare(p.v.v)]) for p in ps]
                    if None not in ts:
                        found.append(("map", [(bare(p.v.k), t) for p, t in zip(ps, ts)]))
            continue
        if ps and all(isinstance(p, One) and term_of(p.v) for p in ps):
            es = []
            for p in ps:
                n, t = term_of(p.v)
                t = types_of(t)
                if t is None:
                    return "?types of %s" % short(p.v, 80)
                es.append((n, t))
            found.append((x.kind, es))
    if not found:
        return "?nothing that holds the names: %s" % short(v, 100)
    for k, es in found:
        g = goal
        if k == "map" and case.rule.name == "types":
            g = [(n, t - drop) for n, t in g]
            es = [(n, t - drop) for n, t in es]
        same = set(es) == set(g) if k in ("set", "frozenset", "map") else es == g
        if not same:
            return ", ".join("%s%s" % (short(n, 30).replace("item.", ""), " - " + "|".join(sorted(str(getattr(x, "name", x)).replace("type.", "") for x in t)) if t else "") for n, t in es) or "nothing"
    return None
