"""Nothing that a production carries is dropped on the way to the object built from it.

Every name, number, sub-object and repetition that a grammar production hands to its parser callback must be part of
what the callback returns, in every outcome in which the callback returns.
"""
from .. import grammar as G
from ..parsing import *
from ..state import State
from ..values import One, Ref, Sym
from .c18 import Tracer, faithful, parsers

MINIMUM = 150


def run(ctx):
    tb = Table(ctx).build()
    for c in tb.cases:
        if is_typed_list(tb, c.rule):
            continue        # flat typed lists are folded by index arithmetic: C24
        ctx.guard("kept", c.func, one, ctx, tb, c)
    for c in parsers(ctx.prog):
        ctx.guard("whole text", c, whole, ctx, c)


def whole(ctx, c):
    """The text is handed to the grammar as it is."""
    it = Tracer(ctx.prog)
    it.nstates = 0
    call = c.find("__call__")[2]
    text = Sym("$text", ("py", "str"))
    for s, r in it.instantiate(c, [], {}, State(), None):
        if not isinstance(r, Ref):
            continue
        it.watch = True
        list(it.call_func(call, r, [One(text)], {}, s, None))
        it.watch = False
    ctx.analysed.update(it.visited)
    if not it.texts:
        ctx.undecided("whole text", call, "no place found where the text is handed to the grammar")
    for v, node in it.texts:
        good = faithful(v, text) if v is not None else None
        if good is None:
            ctx.undecided("whole text", call, "what %s hands to the grammar is %s" % (c.name, v))
        else:
            ctx.require(good, "whole text", call, "%s hands all of the text to the grammar" % c.name,
                        "%s hands %s to the grammar, which does not say all that the text says (case, line ends of comments, characters)" % (c.name, v), "whole:%s" % c.name)


def is_typed_list(tb, rule):
    """Does the rule have an alternative with a type separator?"""
    def seps(x):
        if isinstance(x, G.T):
            return tb.g.literal(x) == "-" and x.name == "TYPE_SEP"
        if isinstance(x, G.Rep):
            return any(seps(y) for v in x.body for y in v)
        if isinstance(x, G.Opt):
            return any(seps(y) for v in x.body for y in v) if not isinstance(x.body, (G.T, G.N)) else seps(x.body)
        return False
    return any(seps(y) for alt in rule.alts for v in tb.g.variants(alt) for y in v if y is not None)


def carried(c):
    """[(value to look for, is repetition)]"""
    out = []
    args = list(c.args)
    tree = getattr(c, "tree", None)
    for p in args:
        if isinstance(p, Spread):
            out.append((p.src, True))
        elif isinstance(p, One) and not isinstance(p.v, Const):
            v = p.v
            if tree and v == tree[0]:
                continue
            if isinstance(v, Seq):
                for q in v.parts:
                    x = q.v.v if isinstance(q.v, Pair) else q.v
                    if not isinstance(x, Const):
                        out.append((x, False))
            else:
                out.append((v, False))
    return out


def one(ctx, tb, c):
    if c.outs is None:
        ctx.undecided("kept", c.func, "%r: %s" % (c, c.error))
        return
    rets = [o for o in c.outs if o.kind == "ret" and not impossible_name(o.facts)]
    vals = [(v, rep, rets) for v, rep in carried(c)]
    tree = getattr(c, "tree", None)
    if tree:
        for ch in tree[1]:
            rel = [o for o in rets if o.st.over.get((tree[0], "children")) == ch]
            for p in ch.parts:
                if isinstance(p, One) and not isinstance(p.v, Const):
                    vals.append((p.v, False, rel))
    order = [v for v, rep, rs in vals]
    if len(order) == len(set(order)) and not tree:
        d = [d for d in (swapped(o, order) for o in rets) if d is not None]
        ctx.require(not d, "arranged", c.func, "%r: operands in the order of the text" % c,
                    "%s: the %s of a %s are %s, in another order than in the text" % ((c,) + ((d[0][1], d[0][0], short(d[0][2], 100)) if d else ("", "", ""))), "swapped:%s.%s" % (c.tr.name, c.rule.name))
    for v, rep, rs in vals:
        if rep:
            for o in rs:
                d = disordered(o, v)
                if d is not None:
                    ctx.violation("arranged", c.func, "%s: the %s of a %s is made from %s, which does not keep the order and the repetitions of the text" % (c, d[1], d[0], short(d[2], 80)), "arranged:%s.%s:%s" % (c.tr.name, c.rule.name, d[1]))
                    break
            else:
                ctx.ok("arranged", c.func, "%r: %s in order" % (c, short(v, 60)))
        bad = None
        for o in rs:
            if not excluded(o, v, rep) and not kept(o, v, rep, tb, c):
                bad = o
                break
        what = "%r: %s" % (c, short(v, 60))
        ctx.require(bad is None, "kept", c.func, what,
                    "%s: %s is not part of the result %s (when %s)" % (c, short(v, 60), short(bad.value if bad else "", 200), short(fmt_guard(bad.facts) if bad else "", 200)),
                    "%s.%s:%s" % (c.tr.name, c.rule.name, short(v, 60)))


UNORDERED = ("And", "Or", "Domain", "Problem")


def disordered(o, v):
    """(class, component, source) of an ordered component made from the repetition v without its order or its repetitions."""
    for x in walk(o.value):
        if not isinstance(x, New) or any(getattr(b, "name", None) in UNORDERED for b in x.cls.mro()):
            continue
        for n, f in (x.fields.items() if isinstance(x.fields, dict) else x.fields):
            n = n.lstrip("_")
            if n not in ("terms", "operands", "actions", "parameters"):
                continue
            for p in f.parts if isinstance(f, Seq) and f.kind in ("list", "tuple") else ():
                src = getattr(p, "src", None)
                if not isinstance(src, App) or src.op not in ("unique", "set", "frozenset", "sorted", "permuted", "reversed") or not src.args:
                    continue
                y = src
                while isinstance(y, App) and y.args and y.op in ("unique", "set", "frozenset", "sorted", "permuted", "reversed", "tuple", "list"):
                    y = y.args[0]
                if strip(y) == v or isinstance(y, Seq) and any(strip(getattr(q, "src", None) or q.v) == v for q in y.parts if isinstance(q, (One, Spread, Each))):
                    return x.cls.name, n, src
    return None


def swapped(o, order):
    """(class, component, operands) of an ordered component in which single operands stand in another order than in the text."""
    for x in walk(o.value):
        if not isinstance(x, New) or any(getattr(b, "name", None) in UNORDERED for b in x.cls.mro()):
            continue
        for n, f in (x.fields.items() if isinstance(x.fields, dict) else x.fields):
            if n.lstrip("_") not in ("terms", "operands", "actions") or not (isinstance(f, Seq) and f.kind in ("list", "tuple")):
                continue
            at = [order.index(y) for y in [strip(p.v if isinstance(p, One) else p.src) for p in f.parts if isinstance(p, (One, Spread, Each))] if y in order]
            if at != sorted(at):
                return x.cls.name, n, f
    return None


def excluded(o, v, rep):
    """The outcome says that there is nothing to keep: the list is empty, the value is absent, or it is a fixed word."""
    for c, b in o.facts:
        if not isinstance(c, App):
            continue
        if c.op == "card" and strip(c.args[0]) == v:
            poss = c.args[1] if b else frozenset((0, 1, 2)) - c.args[1]
            if poss == {0}:
                return True
        if c.op == "isnone" and b and c.args[0] == v:
            return True
        if c.op == "eq" and b and v in c.args and any(isinstance(x, Const) for x in c.args):
            return True
        if c.op == "eq" and b and rep is False and Const("total-cost") in c.args:
            return True         # the predefined function takes no parameters
        if c.op == "lenp" and rep and empty_by_length(c, b, v):
            return True
    return False


def empty_by_length(c, b, v):
    """len(a list with one repetition of v) compared with a number says that v is empty."""
    n, op, k = c.args
    op = op.v if isinstance(op, Const) else op
    k = k.v if isinstance(k, Const) else k
    if not (isinstance(n, App) and n.op == "len" and isinstance(n.args[0], Seq) and isinstance(k, int)):
        return False
    parts = n.args[0].parts
    if sum(isinstance(p, One) for p in parts) != len(parts) - 1 or not any(isinstance(p, Spread) and p.src == v for p in parts):
        return False
    fixed = len(parts) - 1
    import operator
    f = {">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne}.get(op)
    return f is not None and f(fixed, k) == b and not any(f(fixed + i, k) == b for i in range(1, 6))


def kept(o, v, rep, tb=None, c=None):
    val = o.value
    if not rep:
        return any(x == v for x in walk(val)) and not sliced(val, v)
    cut = lambda x: Const("cut") if isinstance(x, (Elem, Idx)) or isinstance(x, App) and x.op in ("item", "slice", "len") or isinstance(x, Each) and strip(x.src) == v else None  # noqa: E731
    if any(x == v for x in walk(subst(val, cut))):
        return True
    return pieces(val, v) or each_kept(o, v, tb, c)


def pieces(val, v):
    """Single items and slices that together make up the whole repetition."""
    lo, hi, slices = set(), set(), []
    for x in walk(val):
        if isinstance(x, App) and x.op in ("item", "first") and strip(x.args[0]) == v:
            k = x.args[1].v if len(x.args) > 1 and isinstance(x.args[1], Const) else 0 if x.op == "first" else None
            if isinstance(k, int):
                (lo if k >= 0 else hi).add(k)
        if isinstance(x, App) and x.op == "slice" and strip(x.args[0]) == v:
            slices.append([y.v if isinstance(y, Const) else y for y in x.args[1:]])
    m = 0
    while m in lo:
        m += 1
    n = -1
    while n in hi:
        n -= 1
    for s in slices:
        a, b, step = (s + [None] * 3)[:3]
        if step in (None, 1, -1) and (a is None or isinstance(a, int) and 0 <= a <= m) and (b is None or isinstance(b, int) and n < b < 0 or b == n + 1 and b < 0):
            return True
    return False


def each_kept(o, v, tb=None, c=None):
    """Every element, of whatever kind, goes into at least one of the lists built from the repetition."""
    eachs = [x for x in walk(o.value) if isinstance(x, Each) and strip(x.src) == v]
    if not eachs:
        return False
    alts = [(g, any(isinstance(y, Elem) and y.src == v for q in ps for y in walk(q))) for e in eachs for g, ps in e.alts]
    if any(not g and m for g, m in alts):
        return True
    never = [tuple(sorted(c.args[1], key=repr)) for c, b in o.facts if isinstance(c, App) and c.op == "exists" and not b and strip(c.args[0]) == v]
    atoms = list(dict.fromkeys([c for g, m in alts for c, b in g] + [c for g in never for c, b in g]))
    if len(atoms) > 14:
        raise Undecided("too many conditions on the elements of %s" % short(v))
    t = v.typ[2] if isinstance(v, Sym) and v.typ and v.typ[0] == "coll" else None
    kinds = [None]
    if t and t[0] == "union":
        kinds = [k[1] for k in t[1]]
    elif t and t[0] == "inst":
        kinds = [t[1]]
    if isinstance(v, Sym) and tb is not None:
        ks = set()
        for r in v.name.lstrip("*").rstrip("0123456789").split("+"):
            ks |= tb.produced.get((c.tr, r), {None})
        if ks and all(isinstance(k, ClassInfo) for k in ks):
            kinds = sorted(ks, key=lambda k: k.qualname)
    for kind in kinds:
        for bits in range(1 << len(atoms)):
            val = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
            if not possible(val, kind, v) or any(all(val[c] == b for c, b in g) for g in never):
                continue
            if not any(m and all(val[c] == b for c, b in g) for g, m in alts):
                return False
    return True


def possible(val, kind, v):
    for a, b in val.items():
        if not isinstance(a, App):
            continue
        if a.op in ("isinst", "typeis") and kind is not None and isinstance(a.args[0], Elem) and isinstance(a.args[1], Cls) and isinstance(a.args[1].c, ClassInfo):
            if kind.is_subclass(a.args[1].c) != b:
                return False
        if a.op == "isnone" and b and isinstance(a.args[0], Elem):
            return False
        if a.op == "eq" and b and any(isinstance(x, Const) for x in a.args):
            return False
    inst = [(a.args[1].c, b) for a, b in val.items() if isinstance(a, App) and a.op == "isinst" and isinstance(a.args[0], Elem) and isinstance(a.args[1], Cls) and isinstance(a.args[1].c, ClassInfo)]
    for c, b in inst:
        for d, e in inst:
            if b and not e and c.is_subclass(d) or b and e and not (c.is_subclass(d) or d.is_subclass(c)):
                return False
    return True


def sliced(val, v):
    """Is v only part of a slice of a list (some of whose elements may be cut off)?"""
    whole = [x for x in walk(val) if isinstance(x, App) and x.op == "slice" and isinstance(x.args[0], Seq) and any(y == v for y in walk(x))]
    if not whole:
        return False
    rest = subst(val, lambda x: Const("cut") if x in whole else None)
    return not any(y == v for y in walk(rest))
