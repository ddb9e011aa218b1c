"""C27: conjunctions and disjunctions are flattened and lose repeated operands; everything else keeps its operands.

The call of the metaclass is interpreted for any sequence of operands; the loop over the worklist is interpreted for one iteration from an
arbitrary state, once for every class the current operand can have.  The operand is either put at the end of the result (or found to be there
already), or, if it is of the class being built, replaced on the worklist by its operands in their order.
"""
import ast

from ..interp import *
from ..values import *
from ..state import *
from ..conds import strip
from ..model import Model, UNK
from ..program import ClassInfo
from ..eqcommon import value_classes, init_params
from ..api import short, fmt_guard, walk

MINIMUM = 60

REST = Sym("$rest", ("coll", "seq", None))


class Flatten(Interp):
    """Interprets one iteration of the loop over a worklist, from an arbitrary worklist whose next element is CUR."""

    def __init__(self, prog, cur, changed):
        super().__init__(prog, max_states=4000)
        self.attr_types = {}
        self.cur = cur
        self.steps, self.entries = [], []
        self.syms = {}
        self.changed = changed
        self.touched = set()
        self.repeats = []               # steps that add an operand without a look whether it is there

    def s_While(self, n, st):
        t = n.test
        while isinstance(t, (ast.Compare, ast.Call, ast.UnaryOp)):
            t = t.left if isinstance(t, ast.Compare) else t.operand if isinstance(t, ast.UnaryOp) else t.args[0] if t.args else None
        ref = st.locals.get(t.id) if isinstance(t, ast.Name) else None
        if not (isinstance(ref, Ref) and isinstance(st.heap.get(ref.id), HSeq)) or n.orelse or self.entries and self.entries[0][2] is not n:
            raise Undecided("loop over something else than one worklist", n, self.stack[-1][0])
        first = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr == "popleft" or x.func.attr == "pop" and x.args) for x in ast.walk(n))
        names = {x.id for x in ast.walk(ast.Module(body=n.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in st.locals}
        begin = {}
        for k, v in st.locals.items():
            if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HSeq):
                begin[k] = (v, st.heap[v.id].parts)
        self.entries.append((st, st.heap[ref.id].parts, n, first, {k: p for k, (v, p) in begin.items() if v != ref}))
        pre = self.havoc(st, names - set(begin), set(), set(), n)
        # what some iteration changes is arbitrary before it; what all leave alone stays as it is
        changed = self.changed
        known = {k: b for k, b in begin.items() if changed is None or k in changed}
        self.fill(pre, ref, first, known)
        before = {k: pre.heap[v.id].parts for k, (v, p) in known.items()}
        n0 = len(pre.log)
        out = []
        for s, c in self.block(n.body, pre):
            after = {k: self.parts_of(s.locals[k], s) for k in known}
            work = self.parts_of(s.locals[t.id], s)
            if work is None or None in after.values():
                raise Undecided("collections of the loop", n, self.stack[-1][0])
            self.steps.append((s, c, tuple(s.log[n0:]), work, {k: after[k] for k, (v, p) in known.items() if v != ref}, first))
            self.touched |= {k for k, (v, p) in known.items() if v != ref and after[k] != before[k]}
            if c is not None and c not in ("cont", "brk"):
                out.append((s, c))
        end = pre.clone()
        end.heap[ref.id] = HSeq("list", ())
        return [(end, None)] + out

    def fill(self, st, ref, first, begin):
        for k, (v, p) in begin.items():
            if v != ref:
                sy = self.syms.setdefault(k, Sym("$" + k, ("coll", "set" if st.heap[v.id].kind == "set" else "seq", None) if st.heap[v.id].kind != "dict" else ("map", None, None)))
                st.heap[v.id] = st.heap[v.id].with_parts((Spread(sy),))
        st.heap[ref.id] = HSeq("list", (One(self.cur), Spread(REST)) if first else (Spread(REST), One(self.cur)))


def metas(ctx):
    """Classes built through the call of a metaclass: [(class, function)]."""
    out = []
    for c in sorted(ctx.prog.classes.values(), key=lambda c: c.qualname):
        m = c.meta()
        if isinstance(m, ClassInfo) and m.find("__call__"):
            out.append((c, m.find("__call__")[2]))
    return out


def seqof(v, model):
    """The sequence a value stands for in the model."""
    x = model.value(v, {})
    return x if isinstance(x, tuple) else None


def holds(facts, model):
    """Can the path be taken in the model?"""
    for c, b in facts:
        h = model.holds(c, {})
        if h is not None and h != b:
            return False
    return True


def kinds(ctx):
    """Classes an operand can have."""
    f = ctx.prog.classes["pddl.logic.base.Formula"]
    out = [c for c in value_classes(ctx) if f in c.mro() or c.module.name.startswith("pddl.logic.effects")]
    return sorted(set(out), key=lambda c: c.qualname)


def built(v, c):
    """('new', operands) for a call of the constructor, ('item', sequence) for the only member of a sequence."""
    if isinstance(v, App) and v.op == "ext:super.__call__" and v.args and v.args[0] == Cls(c):
        parts = v.args[1:]
        return "new", Seq("list", tuple(p if isinstance(p, (One, Spread, Each)) else None for p in parts))
    if isinstance(v, App) and v.op == "item" and v.args[1] in (Const(0), Const(-1)):
        return "item", v.args[0]
    return None, None


def flattening(ctx, c, f):
    A = Sym("operands", ("coll", "seq", ("inst", ctx.prog.classes["pddl.logic.base.Formula"], False)))
    ctx.analysed.add(f.qualname)
    ends = []

    def look(k, changed):
        it = Flatten(ctx.prog, Sym("$operand", ("inst", k, True)), changed)
        it.nstates = 0
        return it, [(s, r) for s, r in it.call_func(f, Cls(c), [Spread(A)], {}, State(), None)]

    changed = set()
    for k in kinds(ctx):
        changed |= look(k, None)[0].touched
    for k in kinds(ctx):
        it, outs = look(k, changed)
        cur = it.cur
        ctx.analysed.update(it.visited)
        if not it.entries:
            ctx.violation("flatten", f, "the operands of %s are taken as they are: nothing is flattened" % c.name, "flatten:%s:none" % c.name) if all(not isinstance(r, Exc) for s, r in outs) and not set(it.visited) - {f.qualname} else ctx.undecided("flatten", f, "no worklist")
            return
        target = step(ctx, it, c, f, k, cur)
        ends.extend(it.repeats[:1])
        if target is not None:
            for s, r in outs:
                if not isinstance(r, Exc) and any(isinstance(x, Sym) and x.name.startswith("$") for x in walk(it.fz(r, s))):
                    v = it.fz(r, s)
                    ctx.require(target in list(walk(v)), "flatten", f, "the result is made of the operands met", "%s is built from something else than the operands met: %s" % (c.name, short(v)), "flatten:%s:result" % c.name)
    entry(ctx, it, c, f, A)
    results(ctx, it, outs, c, f, A, ends)


def step(ctx, it, c, f, k, cur):
    """One iteration: returns the collection that the operands are put into."""
    what = "%s in %s" % (k.name, c.name)
    target = None
    for s, ctl, facts, parts, colls, first in it.steps:
        here = "[%s]" % short(fmt_guard(facts), 200)
        key = "flatten:%s:%s:" % (c.name, k.name)
        if isinstance(ctl, Exc) or ctl is not None and ctl not in ("cont", "brk"):
            ctx.violation("flatten", f, "%s: the simplification ends early %s" % (what, here), key + "early")
            continue
        if ctl == "brk":
            ctx.violation("flatten", f, "%s: operands that follow are dropped %s" % (what, here), key + "break")
            continue
        same = {n: p == (Spread(it.syms[n]),) for n, p in colls.items()}
        rest = [it.fz(p, s) for p in parts]
        if k is c:
            got = pushed(it, s, rest, first)
            ok = all(same.values()) and got is not None and is_operands(it, s, got, cur, not first)
            ctx.require(ok, "flatten", f, "%s: replaced by its operands" % what, "%s: a nested operator is not replaced by its operands, in their order %s: worklist %s" % (what, here, short(rest, 200)), key + "nested")
            continue
        if rest != [Spread(REST)]:
            ctx.violation("flatten", f, "%s: the worklist does not lose the operand and keep the rest %s: %s" % (what, here, short(rest, 200)), key + "rest")
            continue
        known = [strip(cc.args[1]) for cc, b in facts if b and isinstance(cc, App) and cc.op == "in" and cc.args[0] == cur]
        fresh = [strip(cc.args[1]) for cc, b in facts if not b and isinstance(cc, App) and cc.op == "in" and cc.args[0] == cur]
        tracked = [it.syms[n] for n in colls]
        if all(same.values()):
            ctx.require(any(x in tracked for x in known), "flatten", f, "%s: left out if it is there already" % what,
                        "%s: an operand is dropped although it need not be there already %s" % (what, here), key + "dropped")
            continue
        colls = {n: [One(q.v.k) if isinstance(q, One) and isinstance(q.v, Pair) else q for q in (it.fz(p, s) for p in ps)] for n, ps in colls.items()}
        added = [n for n in colls if colls[n] == [Spread(it.syms[n]), One(cur)] or is_set(it, n) and set(colls[n]) == {Spread(it.syms[n]), One(cur)}]
        if len(added) != len(colls):
            ctx.violation("flatten", f, "%s: the operand is not put at the end of the result %s: %s" % (what, here, short({n: list(p) for n, p in colls.items()}, 200)), key + "added")
            continue
        lists = [n for n in added if not is_set(it, n)]
        if not any(x in tracked for x in fresh) and any(it.syms[n].typ[1] == "seq" for n in lists):
            it.repeats.append("%s %s" % (what, here))
        ctx.ok("flatten", f, "%s: put at the end of the result" % what)
        if lists:
            target = it.syms[lists[0]]
    if k is not c and target is None and it.steps:
        ctx.violation("flatten", f, "%s: the operand is never put into the result" % what, "flatten:%s:%s:never" % (c.name, k.name))
    return target


def is_set(it, n):
    return it.syms[n].typ[1] == "set"


def pushed(it, s, rest, first):
    """What has been put in front of the rest of the worklist."""
    if first and len(rest) == 2 and rest[1] == Spread(REST):
        return rest[0]
    if not first and len(rest) == 2 and rest[0] == Spread(REST):
        return rest[1]
    return None


def is_operands(it, s, p, cur, backwards):
    v = Seq("list", (p,))
    ops = None
    for x in walk(v):
        if isinstance(x, Attr) and x.base == cur:
            ops = x
    if ops is None:
        return False
    return seqof(v, Model({ops: (1, 2, 1, 3)})) == ((3, 1, 2, 1) if backwards else (1, 2, 1, 3))


def entry(ctx, it, c, f, A):
    """The worklist starts with the operands in their order, the result with nothing."""
    for st, parts, n, first, others in it.entries:
        v = it.fz(Seq("list", tuple(parts)), st)
        for ops in [(1, 2), (1, 2, 3), (2, 1, 2), (3, 3, 1, 2), (4, 1, 4, 2)]:
            m = Model({A: ops})
            if not holds(st.log, m):
                continue
            got = seqof(v, m)
            got = got if got is None or first else got[::-1]
            if got is None:
                ctx.undecided("flatten", f, "worklist %s" % short(v))
            else:
                ctx.require(tuple(dict.fromkeys(got)) == tuple(dict.fromkeys(ops)), "flatten", f, "starts with the operands", "%s: the operands %s are treated as %s" % (c.name, ops, got), "flatten:%s:start" % c.name)
        for k, p in others.items():
            if k in [str(x.name)[1:] for x in it.syms.values()] and p:
                ctx.violation("flatten", f, "%s: the result does not start empty: %s" % (c.name, short(list(p))), "flatten:%s:full" % c.name)


def results(ctx, it, outs, c, f, A, repeats):
    for s, r in outs:
        if isinstance(r, Exc):
            ctx.violation("flatten", f, "%s cannot be built [%s]" % (c.name, short(fmt_guard(s.log), 200)), "flatten:%s:fails" % c.name)
            continue
        v = it.fz(r, s)
        how, seq = built(v, c)
        if seq is None:
            ctx.violation("flatten", f, "%s is built as %s" % (c.name, short(v)), "flatten:%s:built" % c.name)
            continue
        inloop = any(x in it.syms.values() for x in walk(v)) or any(x in it.syms.values() for g in s.log for x in walk(g[0]))
        # the operands as they are (no loop), or the collection that the loop fills
        for ops in ([(1, 2), (1, 1, 2), (3, 1, 2)] if inloop else []) + [(), (1,), (1, 1), (2, 2, 2), (1, 2), (2, 1, 2), (3, 1, 2)]:
            for res in ([(), (1,), (2, 1), (3, 1, 2)] + ([(1, 1), (2, 1, 2)] if repeats else []) if inloop else [None]):
                given = {A: ops}
                if inloop:
                    if len(set(ops)) < 2:
                        continue
                    given.update({x: res for x in it.syms.values()})
                m = Model(given)
                if not holds(s.log, m):
                    continue
                want = tuple(dict.fromkeys(res)) if inloop else tuple(dict.fromkeys(ops))
                got = seqof(seq, m)
                if got is None:
                    ctx.undecided("flatten", f, "operands %s" % short(seq))
                    continue
                if len(want) > 1 and not inloop:
                    ctx.violation("flatten", f, "%s of the operands %s is built without a look at the operands" % (c.name, ops), "flatten:%s:direct" % c.name)
                    continue
                if inloop and got == res and res != want:
                    ctx.violation("flatten", f, "an operand is added although it can be there already: %s" % repeats[0], "flatten:%s:repeated" % c.name)
                    continue
                ok = got == want and (how == "item") == (len(want) == 1)
                ctx.require(ok, "flatten", f, "%s of %d operands" % (c.name, len(want)),
                            "%s left with the operands %s becomes %s" % (c.name, want, "the first of %s" % (got,) if how == "item" else "%s%s" % (c.name, got)), "flatten:%s:end" % c.name)


def kept(ctx):
    """Constructors that take any number of operands keep them."""
    for c in value_classes(ctx):
        ps, var = init_params(c)
        if not var or not any(isinstance(k, ClassInfo) and k.find("operands") for k in c.mro()):
            continue
        ctx.guard("kept", c, keeps, ctx, c, ps, var)


def keeps(ctx, c, ps, var):
    A = Sym("operands", ("coll", "seq", None))
    it = Interp(ctx.prog, max_states=20000)
    it.attr_types = {}
    it.nstates = 0
    args = [One(Sym("arg_" + p, None)) for p in ps]
    outs = it.instantiate(c, args + [Spread(A)], {}, State(), None, skip_meta=True)
    f = c.find("__init__")[2]
    ctx.analysed.update(it.visited)
    for ops in [(1,), (1, 2), (2, 1), (1, 1), (3, 1, 2), (1, 2, 1), (2, 2, 1, 3)]:
        m = Model({A: ops})
        seen = False
        for s, r in outs:
            if not holds(s.log, m):
                continue
            if isinstance(r, Exc):
                continue
            for s2, v in it.getattr(r, "operands", s, None):
                if isinstance(v, Exc) or not holds(s2.log, m):
                    continue
                got = seqof(it.fz(v, s2), m)
                seen = True
                if got is None:
                    ctx.undecided("kept", c, "operands of %s: %s" % (c.name, short(it.fz(v, s2))))
                else:
                    ctx.require(got == ops, "kept", c, "%s keeps %d operands" % (c.name, len(ops)), "%s of the operands %s has the operands %s" % (c.name, ops, got), "kept:%s" % c.name)
        if not seen and len(ops) >= 2:
            ctx.undecided("kept", c, "%s of %d operands is never built" % (c.name, len(ops)))


def run(ctx):
    found = metas(ctx)
    base = ctx.prog.classes["pddl.logic.base.Formula"]
    for n in ("And", "Or"):
        c = ctx.prog.classes.get("pddl.logic.base." + n)
        hit = [f for k, f in found if k is c]
        if c is None:
            ctx.undecided("flatten", ("pddl/logic/base.py", 1), "no class %s" % n)
        elif hit:
            ctx.guard("flatten", hit[0], flattening, ctx, c, hit[0])
        else:
            ctx.violation("flatten", c, "%s is built as it is given: nothing is flattened" % n, "flatten:%s:none" % n)
    for c, f in found:
        if c.name not in ("And", "Or"):
            ctx.violation("kept", c, "%s is simplified when it is built" % c.name, "kept:%s" % c.name)
    ctx.guard("kept", base, kept, ctx)
