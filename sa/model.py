"""Small models of path facts.

The facts of a path speak of a few inputs (a set of requirements, a dictionary of types, the kinds of the members of a collection).  A `Model`
gives these inputs a value and tells whether each fact holds in it (True, False, or None when the fact is about something else).
`Table` goes through the cases: in a case that the rule accepts no rejecting path may remain possible, and in one that it refuses no accepting path.
"""
import operator

from .values import *
from .state import *
from .conds import strip


class _Unk:
    def __repr__(self):
        return "?"


UNK = _Unk()
CMP = {">": operator.gt, "<": operator.lt, ">=": operator.ge, "<=": operator.le, "eq": operator.eq, "==": operator.eq}


class Obj:
    """An object of a model: its class and the values of its attributes."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join("%s=%r" % kv for kv in sorted(self.fields.items())))


class Map(dict):
    """A dictionary of a model (hashable by identity, so that it can be bound)."""

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o or dict.__eq__(self, o)


def py(v):
    return v.v if isinstance(v, Const) else v


class Model:
    def __init__(self, values, calls=None, functions=None):
        """values: {symbolic value: its value}; calls: {qualified name: function of the values of the arguments};
        functions: {qualified name: its paths}, for pure functions that are called."""
        self.values, self.calls = values, calls or {}
        self.functions = functions
        self.memo, self.building = {}, []

    # -- values -----------------------------------------------------------------------
    def value(self, v, env=()):
        e = dict(env)
        if v in e:
            return e[v]
        if v in self.values:
            return self.values[v]
        if isinstance(v, Const):
            return v.v
        if isinstance(v, (Enum_, Cls)):
            return v
        if isinstance(v, AccP):
            return tuple(self.building[-1]) if v.id == "self" and self.building else UNK
        if isinstance(v, Attr):
            b = self.value(v.base, env)
            if isinstance(b, Obj):
                return b.fields.get(v.name, UNK)
            return UNK
        if isinstance(v, Pair):
            k, x = self.value(v.k, env), self.value(v.v, env)
            return UNK if k is UNK or x is UNK else (k, x)
        if isinstance(v, Seq):
            if v.kind == "dict" and any(isinstance(p, Spread) for p in v.parts):
                return self.merged(v.parts, env)
            items = self.parts(v.parts, env)
            if items is None:
                return UNK
            return self.make(v.kind, items)
        if isinstance(v, New):
            fields = {n: self.value(x, env) for n, x in v.fields}
            return Obj(v.cls, **fields)
        if isinstance(v, App):
            return self.app(v, env)
        return UNK

    def make(self, kind, items):
        if kind == "dict":
            return Map(items) if all(isinstance(x, tuple) and len(x) == 2 for x in items) else UNK
        if kind in ("set", "frozenset"):
            return tuple(sorted(dict.fromkeys(items), key=repr))
        return tuple(items)

    def merged(self, parts, env):
        """A dictionary that takes over the entries of others."""
        out = Map()
        for p in parts:
            if isinstance(p, Spread):
                m = self.value(p.src, env)
                m = m if m is not UNK else self.value(strip(p.src), env)
                if not isinstance(m, Map):
                    return UNK
            else:
                items = self.parts((p,), env)
                if items is None or not all(isinstance(x, tuple) and len(x) == 2 for x in items):
                    return UNK
                m = dict(items)
            out.update(m)
        return out

    def parts(self, parts, env, out=None):
        """The members; AccP("self"): what the enclosing sequence has accumulated so far."""
        if out is None:
            out = []
            if any(isinstance(p, Each) for p in parts) and not any(isinstance(p, AccP) for p in parts):
                self.building.append(out)
                try:
                    return self.parts(parts, env, out)
                finally:
                    self.building.pop()
        for p in parts:
            if isinstance(p, AccP) and p.id == "self" and self.building:
                out.extend(self.building[-1])
                continue
            if isinstance(p, One):
                x = self.value(p.v, env)
                if x is UNK:
                    return None
                out.append(x)
            elif isinstance(p, Spread):
                x = self.members(p.src, env)
                if x is None:
                    return None
                out.extend(x)
            elif isinstance(p, Each):
                bs = self.bindings(p.src, env)
                if bs is None:
                    return None
                for env2 in bs:
                    for g, ps in p.alts:
                        t = self.all(g, env2)
                        if t is None:
                            return None
                        if t:
                            if self.parts(ps, env2, out) is None:
                                return None
                            break
            else:
                return None
        return out

    def members(self, src, env=()):
        """The values an iteration over src goes through; None if unknown."""
        v = self.value(src, env)
        if v is UNK:
            s = strip(src)
            v = self.value(s, env) if s != src else UNK
        if isinstance(v, Map):
            return list(v)
        if isinstance(v, tuple):
            return list(v)
        return None

    def zipped(self, s, env):
        """What a parallel iteration binds."""
        all_ = [self.members(x, env) for x in s.args]
        if any(x is None for x in all_):
            return None
        used, out = {x for x, _ in env}, []
        depths = []
        for x in s.args:
            d = 0
            while Elem(strip(x), d) in used:
                d += 1
            used.add(Elem(strip(x), d))
            depths.append(d)
        for row in zip(*all_):
            e = list(env)
            for x, d, r in zip(s.args, depths, row):
                e.append((Elem(strip(x), d), r))
                if strip(x) != x:
                    e.append((Elem(x, d), r))
            out.append(tuple(e))
        return out

    def bindings(self, src, env):
        s = strip(src)
        if isinstance(s, App) and s.op == "zip":
            return self.zipped(s, env)
        ms = self.members(src, env)
        if ms is None:
            return None
        base = s
        if isinstance(s, App) and s.op in (".items", ".values", ".keys"):
            base = strip(s.args[0])
        used = {x for x, _ in env}
        d = 0
        while Elem(base, d) in used or Elem(s, d) in used:
            d += 1
        out = []
        for m in ms:
            e = list(env)
            if isinstance(s, App) and s.op == ".items":
                e.append((Elem(base, d), m[0]))
                e.append((App("item", (base, Elem(base, d))), m[1]))
                e.append((Elem(s, d), m))
            elif isinstance(s, App) and s.op == ".values":
                e.append((Elem(s, d), m))
            else:
                e.append((Elem(s, d), m))
                if base != s:
                    e.append((Elem(base, d), m))
            out.append(tuple(e))
        return out

    def app(self, v, env):
        op, a = v.op, v.args
        if op == "call" and isinstance(a[0], Fn):
            f = self.calls.get(a[0].f.qualname)
            xs = [self.value(x, env) for x in a[1:]]
            if any(x is UNK for x in xs):
                return UNK
            if f is None:
                return self.functions(self, a[0], xs) if self.functions is not None else UNK
            return f(*xs)
        if op == "sorted" and a:
            x = self.value(a[0], env)
            return tuple(sorted(x, key=repr))[::-1] if isinstance(x, tuple) else UNK
        if op == "reversed" and len(a) == 1:
            x = self.value(a[0], env)
            return x[::-1] if isinstance(x, tuple) else UNK
        if op == "acc" and len(a) == 1:
            return self.value(a[0], env)
        if op == "zip":
            xs = [self.members(x, env) for x in a]
            return UNK if any(x is None for x in xs) else tuple(zip(*xs))
        if op in ("name", "str", "tuple", "list", "set", "frozenset", "sorted", "iter", "dict", "unique", "permuted", "copyof") and len(a) == 1:
            x = self.value(a[0], env)
            if op in ("set", "frozenset") and isinstance(x, tuple):
                return self.make(op, x)
            if op == "unique" and isinstance(x, tuple):
                return tuple(dict.fromkeys(x))
            if op == "sorted" and isinstance(x, tuple):
                return tuple(sorted(x, key=repr))
            if op in ("name", "str"):
                return x if isinstance(x, str) else UNK
            return x
        if op in (".items", ".values", ".keys") and len(a) == 1:
            x = self.value(a[0], env)
            if not isinstance(x, Map):
                return UNK
            return tuple(x.items()) if op == ".items" else tuple(x.values()) if op == ".values" else tuple(x)
        if op in (".lower", ".upper", ".casefold", ".strip") and len(a) == 1:
            x = self.value(a[0], env)
            return getattr(x, op[1:])() if isinstance(x, str) else UNK
        if op in ("item", ".get"):
            d, k = self.value(a[0], env), self.value(a[1], env)
            if isinstance(d, Map) and k is not UNK and (k in d or op == ".get"):
                if k not in d and len(a) > 2:
                    return self.value(a[2], env)
                return d.get(k)
            if op == "item" and isinstance(d, tuple) and isinstance(k, int) and -len(d) <= k < len(d):
                return d[k]
            return UNK
        if op in ("|", "&", "-") and len(a) == 2:
            x, y = self.members(a[0], env), self.members(a[1], env)
            if x is None or y is None:
                return UNK
            if op == "|":
                return tuple(dict.fromkeys(x + y))
            return tuple(z for z in x if (z in y) == (op == "&"))
        if op == "callv" and isinstance(a[0], (Attr, Meth)):
            b = self.value(a[0].base if isinstance(a[0], Attr) else a[0].recv, env)
            xs = [self.value(y, env) for y in a[1:]]
            if isinstance(b, str) and all(isinstance(y, (str, int)) for y in xs) and a[0].name in ("startswith", "endswith", "lower", "upper", "strip", "isdigit", "isalpha", "casefold", "replace"):
                return getattr(b, a[0].name)(*xs)
            return UNK
        if op == "slice" and len(a) >= 2:
            x = self.value(a[0], env)
            xs = [self.value(y, env) for y in a[1:]]
            if isinstance(x, (tuple, str)) and all(y is None or isinstance(y, int) for y in xs):
                return x[slice(*xs)]
            return UNK
        if op == "len" and len(a) == 1:
            x = self.members(a[0], env)
            return UNK if x is None else len(x)
        if op == "type" and len(a) == 1:
            x = self.value(a[0], env)
            return Cls(x.cls) if isinstance(x, Obj) else UNK
        r = self.holds(v, env)
        return UNK if r is None else r

    # -- conditions -------------------------------------------------------------------
    def all(self, guard, env=()):
        res = True
        for c, b in guard:
            x = self.holds(c, env)
            if x is None:
                res = None
            elif x != b:
                return False
        return res

    def holds(self, c, env=()):
        if env:
            return self.holds0(c, env)
        if c not in self.memo:
            self.memo[c] = self.holds0(c, env)
        return self.memo[c]

    def holds0(self, c, env):
        if c in self.values and isinstance(self.values[c], bool):
            return self.values[c]
        if isinstance(c, Const):
            return bool(c.v)
        if not isinstance(c, App):
            return self.truth(self.value(c, env))
        op, a = c.op, c.args
        if op == "not":
            x = self.holds(a[0], env)
            return None if x is None else not x
        if op in ("and", "or"):
            xs = [self.holds(x, env) for x in a]
            if (op == "or") in xs:
                return op == "or"
            return None if None in xs else op == "and"
        if op == "exists":
            g = sorted(a[1], key=repr)
            bs = self.bindings(a[0], env)
            if bs is None:
                return None
            xs = [self.all(g, b) for b in bs]
            return True if True in xs else None if None in xs else False
        if op == "reach":
            bs = self.bindings(a[0], env)
            if bs is None:
                return None
            for e in bs:
                mine, others = self.all(sorted(a[1], key=repr), e), [self.all(sorted(g, key=repr), e) for g in sorted(a[2], key=repr)]
                if mine is None or None in others:
                    return None
                if mine or True in others:
                    return mine
            return False
        if op == "card":
            ms = self.members(a[0], env)
            return None if ms is None else min(len(ms), 2) in a[1]
        if op == "truthy":
            return self.truth(self.value(a[0], env))
        if op == "isnone":
            x = self.value(a[0], env)
            return None if x is UNK else x is None
        if op in ("eq", "is"):
            x, y = self.value(a[0], env), self.value(a[1], env)
            if x is UNK or y is UNK:
                return None
            if isinstance(x, tuple) and isinstance(y, tuple):
                return set(x) == set(y)
            return x == y
        if op == "in":
            x = self.value(a[0], env)
            if x is UNK:
                return None
            ms = self.members(a[1], env)
            if ms is None:
                return None
            return x in ms
        if op in ("isinst", "typeis"):
            x = self.value(a[0], env)
            k = a[1]
            if isinstance(x, Obj) and isinstance(k, Cls):
                return x.cls.is_subclass(k.c) if op == "isinst" else x.cls is k.c
            if isinstance(x, Obj) and op == "isinst" and isinstance(k, Ext):
                return None
            return None
        if op == "strp" and isinstance(a[0], Const):
            xs = [self.value(y, env) for y in a[1:]]
            if all(isinstance(y, (str, tuple)) for y in xs) and isinstance(xs[0], str):
                return getattr(xs[0], a[0].v)(*xs[1:])
            return None
        if op == "lenp":
            x, n = self.value(a[0], env), self.value(a[2], env)
            if isinstance(x, int) and isinstance(n, int) and a[1].v in CMP:
                return CMP[a[1].v](x, n)
            return None
        if op == "lt":
            x, y = self.value(a[0], env), self.value(a[1], env)
            if type(x) is type(y) and isinstance(x, (str, int)) or isinstance(x, int) and isinstance(y, int):
                return x < y
            return None
        if op == "subset":
            x, y = self.members(a[0], env), self.members(a[1], env)
            return None if x is None or y is None else set(x) <= set(y)
        return None

    def truth(self, x):
        if x is UNK:
            return None
        if isinstance(x, (str, int, float, bool, tuple, dict)) or x is None:
            return bool(x)
        return True


class Summaries:
    """Values of calls of pure functions: their paths are computed once, and the one whose facts hold is taken."""

    def __init__(self, interp):
        self.interp = interp     # () -> an interpreter
        self.memo = {}
        self.depth = 0

    def __call__(self, model, fn, xs):
        from .interp import Undecided

        f = fn.f
        if f.qualname not in self.memo:
            ps = [a.arg for a in f.node.args.args]
            syms = [Sym("$%s.%s" % (f.name, p), None) for p in ps]
            if f.node.args.vararg or f.node.args.kwarg or f.node.args.kwonlyargs or len(ps) != len(xs):
                self.memo[f.qualname] = None
            else:
                it = self.interp()
                it.opaque = it.opaque - {f.qualname}
                try:
                    self.memo[f.qualname] = (syms, [(s.log, k, it.fz(v, s) if k == "ret" else v) for s, k, v in it.run(f, list(syms), None, None, State())])
                except Undecided:
                    self.memo[f.qualname] = None
        got = self.memo[f.qualname]
        if got is None or self.depth > 6:
            return UNK
        syms, outs = got
        m = Model(dict(zip(syms, xs)), model.calls, self)
        self.depth += 1
        try:
            res = []
            for facts, k, v in outs:
                t = m.all(facts)
                if t is None:
                    return UNK
                if t:
                    res.append(m.value(v) if k == "ret" else UNK)
        finally:
            self.depth -= 1
        return res[0] if res and all(r == res[0] for r in res) else UNK


class Case:
    """A case of the rule; why: the reason for which it is refused ("" if it is accepted)."""

    def __init__(self, what, model, why):
        self.what, self.model, self.why, self.accept = what, model, why, not why


def table(ctx, rule, f, outs, cases, what, skip=lambda o: False):
    """Every case is accepted or rejected as the rule says."""
    outs = [o for o in outs if not skip(o)]
    wrong, open_ = {}, {}
    for k in cases:
        acc, rej = [], []
        for o in outs:
            t = k.model.all(o.facts)
            if t is not False:
                (acc if o.kind == "ret" else rej).append((t is None, o))
        side, verb = (rej, "rejected") if k.accept else (acc, "accepted")
        side.sort(key=lambda x: x[0])
        if not acc and not rej:
            open_.setdefault("none", "%s: no path for %s" % (what, k.what))
        elif side and side[0][0]:
            open_.setdefault(verb, "%s: cannot tell whether %s is %s" % (what, k.what, verb))
        elif side:
            wrong.setdefault((verb, k.why), (k, side[0][1]))
        else:
            ctx.ok(rule, f, "%s: %s" % (what, k.what))
    for m in open_.values():
        ctx.undecided(rule, f, m)
    for (verb, why), (k, o) in sorted(wrong.items(), key=lambda x: str(x[0])):
        ctx.violation(rule, f, "%s: %s is %s%s" % (what, k.what, verb, " with " + str(o.value)[:100] if verb == "rejected" else " although " + why), "%s:%s" % (verb, why))
