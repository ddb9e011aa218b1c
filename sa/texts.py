"""Interpretation of whole skeleton texts: the grammar says which callbacks run, in which order and with what, the names are symbols.

A skeleton is a text whose words are keywords of the grammar, numbers, or names written in upper case (A, B, ...): those stand for any names that
are pairwise different and mean nothing to the grammar.  The callbacks are interpreted in the order of the parser on one transformer.
"""
import re
import sys

from . import grammar as G
from .api import *
from .checks.c24 import Unroll
from .parsing import OPAQUE

sys.setrecursionlimit(20000)
WORD = re.compile(r"\?|\(|\)|[^\s()?]+")
PLACE = re.compile(r"[A-Z][A-Z0-9]*")


def word(name):
    return Sym("NAME." + name, ("py", "str"))


def bare(v):
    x = v
    while isinstance(x, App) and x.op in ("name", "str") and len(x.args) == 1:
        x = x.args[0]
    return v if isinstance(x, (New, Ref, Attr, Elem, Seq)) else x


def is_word(v):
    return isinstance(v, Sym) and v.name.startswith("NAME.")


SPLITS = (".split", ".rsplit", ".partition", ".rpartition")


class Words(Unroll):
    """Names of the skeleton are pairwise different and differ from every fixed text; objects are compared by what they hold."""

    def textual(self, v):
        return isinstance(v, (Fmt, Join)) or isinstance(v, App) and (v.op in ("str", "name", "indent", ".strip", ".lstrip", ".rstrip") or v.op == "item" and self.split(v))

    def split(self, v):
        """Part of a text that is cut at separators?"""
        return len(v.args) == 2 and isinstance(v.args[1], Const) and isinstance(v.args[1].v, int) and isinstance(v.args[0], App) and v.args[0].op in SPLITS and v.args[0].args \
            and all(isinstance(a, Const) for a in v.args[0].args[1:])

    def c_eq(self, a, b, st):
        x, y = bare(self.res(a, st)), bare(self.res(b, st))
        if isinstance(x, App) and isinstance(y, App) and x.op == y.op and x.op in (".lower", ".upper", ".casefold") and len(x.args) == len(y.args) == 1 and is_word(bare(x.args[0])) and is_word(bare(y.args[0])):
            x, y = bare(x.args[0]), bare(y.args[0])    # names differ in more than case
        if (self.textual(x) or self.textual(y)) and not (isinstance(x, (New, Ref)) or isinstance(y, (New, Ref)) or NONE in (x, y)):
            p, q = self.render(x, st), self.render(y, st)
            if p is not None and q is not None:
                return Const(p == q)
        if is_word(x) and (is_word(y) or isinstance(y, Const)) or is_word(y) and isinstance(x, Const):
            return Const(x == y)
        fx, fy = (self.fz(x, st), self.fz(y, st)) if isinstance(x, (New, Ref)) and isinstance(y, (New, Ref)) else (None, None)
        if isinstance(fx, New) and isinstance(fy, New):
            memo = self.__dict__.setdefault("compared", {})
            if (fx, fy) not in memo:
                memo[(fx, fy)] = self.equal(fx, fy)
            if memo[(fx, fy)] is not None:
                return Const(memo[(fx, fy)])
        if self.seqkind(x, st) == "set" == self.seqkind(y, st):
            same = self.same_elements(x, y, st)
            if same is not None:
                return Const(same)
        return super().c_eq(a, b, st)

    def equal(self, x, y):
        """What the comparison of two objects says; None if that is not known."""
        f = own_method(x.cls, "__eq__")
        if f is None:
            return None
        res = set()
        for s, v in self.call_func(f, x, [One(y)], {}, State(), None):
            d = self.truth(v, s) if not isinstance(v, Exc) else ()
            if isinstance(v, Ext) and v.name.endswith("NotImplemented"):
                d = [(s, False)] if x.cls is not y.cls else ()
            res |= {b for _, b in d} or {None}
        return res.pop() if len(res) == 1 else None

    def same_elements(self, x, y, st):
        """Do two collections hold equal elements?"""
        ps, qs = self.parts_of(x, st), self.parts_of(y, st)
        if ps is None or qs is None or not all(isinstance(p, One) and not isinstance(p.v, Pair) for p in ps + qs):
            return None
        for l, r in ((ps, qs), (qs, ps)):
            for p in l:
                cs = [self.decide(self.c_eq(p.v, q.v, st), st) for q in r]
                if True not in cs:
                    return None if None in cs else False
        return True

    def c_in(self, x, coll, st):
        y = bare(self.res(x, st))
        if is_word(y):
            ps = self.parts_of(coll, st)
            if ps is not None and self.seqkind(coll, st) is not None and all(isinstance(p, One) and not isinstance(p.v, Pair) for p in ps):
                cs = [self.c_eq(y, p.v, st) for p in ps]
                if all(isinstance(c, Const) for c in cs):
                    return Const(any(c.v for c in cs))
        return super().c_in(x, coll, st)

    recursion = 16
    bound = 200
    descending = False      # the order assumed among the names

    def c_lt(self, a, b, st):
        x, y = bare(self.res(a, st)), bare(self.res(b, st))
        if is_word(x) and is_word(y):
            # names are compared by the letters of the skeleton (or the other way round)
            return Const(x.name > y.name if self.descending else x.name < y.name)
        if is_word(x) and isinstance(y, Const) and isinstance(y.v, str) or is_word(y) and isinstance(x, Const) and isinstance(x.v, str):
            # a fixed text stands among the names as one of its own letters would
            p, q = (v.v.upper() if isinstance(v, Const) else v.name.split(".")[-1] for v in (x, y))
            return Const(p > q if self.descending else p < q)
        if self.textual(x) or self.textual(y):
            p, q = self.render(x, st, True), self.render(y, st, True)
            if p is not None and q is not None:
                return Const(p < q)
        px, py = self.parts_of(x, st), self.parts_of(y, st)
        if px is not None and py is not None and all(isinstance(p, One) for p in px + py) and self.seqkind(x, st) == "seq" and self.seqkind(y, st) == "seq":
            for p, q in zip(px, py):
                e = self.decide(self.c_eq(p.v, q.v, st), st)
                if e is None:
                    return super().c_lt(a, b, st)
                if not e:
                    return self.c_lt(p.v, q.v, st)
            return Const(len(px) < len(py))
        if isinstance(x, (New, Ref)) and isinstance(y, (New, Ref)):
            t = self.type_of(x, st)
            if t and t[0] == "inst" and t[2]:
                f = own_method(t[1], "__lt__")
                if f is not None:
                    r = self.call_func(f, x, [One(y)], {}, st.clone(), None)
                    if len(r) == 1 and not isinstance(r[0][1], Exc):
                        d = self.truth(r[0][1], r[0][0])
                        if len(d) == 1:
                            return Const(d[0][1])
                    raise Undecided("the order of two objects: %s" % short(r[0][1] if r else None, 60))
        return super().c_lt(a, b, st)

    def cond_of(self, v, st):
        if is_word(bare(v)):
            return Const(True)
        return super().cond_of(v, st)

    # -- texts ---------------------------------------------------------------------------
    def render(self, v, st, order=False):
        """The text a value prints as, with the names as in the skeleton (or, for order, as representatives of the assumed order); None if it is not known."""
        if isinstance(v, str):
            return v
        v = self.fz(v, st) if isinstance(v, Ref) else v
        key = (v, order)
        memo = self.__dict__.setdefault("rendered", {})
        if key not in memo:
            memo[key] = self.render_(v, st, order)
        return memo[key]

    def render_(self, v, st, order):
        if is_word(v):
            n = v.name[5:]
            return "".join(chr(ord("a") + ord("Z") - ord(c)) if c.isalpha() else c for c in n) + "~" if order and self.descending else n
        if isinstance(v, Const):
            return str(v.v) if not isinstance(v.v, tuple) else None
        if isinstance(v, Enum_):
            f = v.cls.find("__str__")
            if f and f[1] == "method":
                return self.printed(f[2], v, st, order)
            return None
        if isinstance(v, Fmt):
            ts = [self.render(p, st, order) for p in v.parts]
            return None if None in ts else "".join(ts)
        if isinstance(v, Join):
            if not all(isinstance(p, One) for p in v.parts):
                ps = []
                for p in v.parts:
                    q = self.parts_of(p.src, st) if isinstance(p, Spread) else [p] if isinstance(p, One) else None
                    if q is None or not all(isinstance(x, One) for x in q):
                        return None
                    ps += q
                v = Join(v.sep, tuple(ps))
            sep = self.render(v.sep, st, order)
            ts = [self.render(p.v, st, order) for p in v.parts]
            return None if sep is None or None in ts else sep.join(ts)
        if isinstance(v, New):
            f = own_method(v.cls, "__str__")
            return self.printed(f, v, st, order) if f is not None else None
        if isinstance(v, App) and v.op in ("str", "name", "indent") and v.args:
            return self.render(v.args[0], st, order)
        if isinstance(v, App) and v.op in (".strip", ".lstrip", ".rstrip") and v.args and all(isinstance(a, Const) and isinstance(a.v, str) for a in v.args[1:]):
            t = self.render(v.args[0], st, order)
            return None if t is None else getattr(t, v.op[1:])(*[a.v for a in v.args[1:]])
        if isinstance(v, App) and v.op == "item" and self.split(v):
            t = self.render(v.args[0].args[0], st, order)
            seps = [a.v for a in v.args[0].args[1:]]
            # a name is never split
            if t is not None and not any(c.isalnum() for x in seps[:1] if isinstance(x, str) for c in x):
                try:
                    return getattr(t, v.args[0].op[1:])(*seps)[v.args[1].v]
                except (IndexError, TypeError, ValueError):
                    return None
        if isinstance(v, App) and v.op == "slice" and all(isinstance(a, Const) and (a.v is None or isinstance(a.v, int)) for a in v.args[1:]):
            t = self.render(v.args[0], st, order)
            if t is not None:
                u = t[slice(*[a.v for a in v.args[1:]])]
                # what is cut off must not be part of a name
                if sum(c.isalnum() for c in t) == sum(c.isalnum() for c in u):
                    return u
        return None

    def opaque_part(self, v, st):
        """The innermost part that keeps a text from being known."""
        v = self.fz(v, st) if isinstance(v, Ref) else v
        for p in v.parts if isinstance(v, (Fmt, Join)) else v.args if isinstance(v, App) and v.op in ("str", "name", "indent") else ():
            x = (p.v if isinstance(p, One) else p) if isinstance(v, Join) else p
            if isinstance(x, (V, str)) and self.render(x, st) is None:
                return self.opaque_part(x, st)
        if isinstance(v, App) and v.args and v.op.startswith("."):
            return self.opaque_part(v.args[0], st) if isinstance(v.args[0], (App, Fmt, Join)) and self.render(v.args[0], st) is None else v
        if isinstance(v, New) and own_method(v.cls, "__str__"):
            r = self.run(own_method(v.cls, "__str__"), [], None, v, st.clone())
            if len(r) == 1 and r[0][1] == "ret":
                return self.opaque_part(r[0][2], r[0][0])
            return "%d outcomes of printing %s: %s" % (len(r), short(v, 80), [short(x[0].log, 200) for x in r[:3]])
        return v

    def printed(self, f, v, st, order):
        n, self.nstates = self.nstates, 0
        try:
            r = self.run(f, [], None, v, st.clone())
        finally:
            self.nstates = n
        if len(r) != 1 or r[0][1] != "ret":
            return None
        return self.render(r[0][2], r[0][0], order)

    def heap_meth(self, recv, name, parts, kwargs, st, node):
        h = st.heap[recv.id]
        if name in ("remove", "index", "count") and h.kind == "list" and len(parts) == 1 and isinstance(parts[0], One) and all(isinstance(p, One) for p in h.parts):
            same = [self.decide(self.c_eq(p.v, parts[0].v, st), st) for p in h.parts]
            if None not in same:
                if name == "count":
                    return [(st, Const(same.count(True)))]
                if True not in same:
                    return [(st, self.exc("ValueError", node, Const("not in list")))]
                i = same.index(True)
                if name == "index":
                    return [(st, Const(i))]
                s = st.clone()
                s.heap[recv.id] = h.with_parts(h.parts[:i] + h.parts[i + 1:])
                return [(s, NONE)]
        return super().heap_meth(recv, name, parts, kwargs, st, node)

    def len_bounds(self, v, st):
        lo, hi = super().len_bounds(v, st)
        if hi is None or lo == hi:
            return lo, hi
        ps = self.parts_of(v, st)
        if ps is None or not all(isinstance(p, One) for p in ps):
            return lo, hi
        apart = []
        for k in [p.v.k if isinstance(p.v, Pair) else p.v for p in ps]:
            known = [self.decide(self.c_eq(k, x, st), st) for x in apart]
            if any(b is None for b in known):
                return lo, hi
            if not any(known):
                apart.append(k)
        return len(apart), len(apart)

    def x_copy(self, parts, kwargs, st, node):
        r = super().x_copy(parts, kwargs, st, node)
        # a copy of an object whose parts are known holds the same
        return [(s, v.args[0] if isinstance(v, App) and v.op == "copyof" and isinstance(v.args[0], New) else v) for s, v in r]

    x_deepcopy = x_copy

    def x_sorted(self, parts, kwargs, st, node):
        if isinstance(parts[0], One):
            v = self.as_keys(parts[0].v, st)
            ps = self.parts_of(v, st)
            if ps is not None and all(isinstance(p, One) for p in ps):
                items = [p.v for p in self.iter_parts(v, st)]
                key = kwargs.get("key")
                ks, s = [], st
                for x in items:
                    if key is None or key == NONE:
                        ks.append(x)
                        continue
                    r = self.call(key, [One(x)], {}, s, node)
                    if len(r) != 1 or isinstance(r[0][1], Exc):
                        return super().x_sorted(parts, kwargs, st, node)
                    s, k = r[0]
                    ks.append(k)
                out = []
                back = kwargs.get("reverse")
                for x, k in zip(items, ks):
                    i = len(out)
                    while i > 0:
                        c = self.c_lt(out[i - 1][1], k, s) if back == Const(True) else self.c_lt(k, out[i - 1][1], s)
                        d = self.decide(c, s)
                        if d is None:
                            return super().x_sorted(parts, kwargs, st, node)
                        if not d:
                            break
                        i -= 1
                    out.insert(i, (x, k))
                s = s.clone()
                return [(s, self.alloc(s, HSeq("list", tuple(One(x) for x, _ in out))))]
        return super().x_sorted(parts, kwargs, st, node)


def parse(g, start, text):
    """The parse tree of a skeleton: (rule, [children]), leaves (terminal, word); the first one found."""
    toks = WORD.findall(text)
    lits = {}

    def fits(t, w):
        lit = g.literal(t)
        if lit is not None:
            return lit == w
        r = g.regex(t)
        if r is None or w in words:
            return False
        return re.fullmatch(r, w) is not None
    words = {g.literal(x) for r in g.reachable(start) for alt in g.rules[r].alts for x in g.symbols(alt) if isinstance(x, G.T)}
    memo = {}

    def rule(name, i):
        if (name, i) in memo:
            return memo[(name, i)]
        memo[(name, i)] = []
        out = []
        for alt in g.rules[name].alts:
            for v in g.variants(alt):
                for j, ch in seq(v, i):
                    if not any(j == k for k, _ in out):
                        out.append((j, (name, ch)))
        memo[(name, i)] = out
        return out

    def seq(items, i):
        res = [(i, [])]
        for x in items:
            new = []
            for j, ch in res:
                for k, c in item(x, j):
                    if not any(k == q for q, _ in new):
                        new.append((k, ch + c))
            res = new
            if not res:
                break
        return res

    def item(x, i):
        if x is None:
            return [(i, [None])]
        if isinstance(x, G.T):
            if i < len(toks) and fits(x, toks[i]):
                return [(i + 1, [(x, toks[i])])]
            return []
        if isinstance(x, G.N):
            return [(j, [t]) for j, t in rule(x.name, i)]
        if isinstance(x, G.Rep):
            out, live = ([] if x.lo else [(i, [])]), [(i, [])]
            while live:
                nxt = []
                for j, ch in live:
                    for a in x.body:
                        for v in g.variants(a):
                            for k, c in seq(v, j):
                                if k > j and not any(k == q for q, _ in nxt):
                                    nxt.append((k, ch + c))
                out += [y for y in nxt if not any(y[0] == q for q, _ in out)]
                live = nxt
            return sorted(out, key=lambda y: -y[0])
        raise AnalysisError("symbol of the grammar")
    for j, t in rule(start, 0):
        if j == len(toks):
            return t
    return None


class Reader:
    """Interprets the callbacks of a transformer along the tree of a skeleton."""

    def __init__(self, ctx, g, tr, max_states=20000):
        self.ctx, self.g, self.tr, self.k = ctx, g, tr, 0
        self.it = Words(ctx.prog, no_inline=lambda f: f.qualname in OPAQUE, max_states=max_states, max_depth=120)
        self.it.attr_types = {}
        self.seen = []      # (state, rule, value) of every callback, in order

    def fresh(self):
        """[(state, transformer)]: transformers that have read nothing."""
        self.it.nstates = 0
        return [(s, r) for s, r in self.it.instantiate(self.tr, [], {}, State(), None) if not isinstance(r, Exc)]

    def leaf(self, t, w):
        if PLACE.fullmatch(w):
            return word(w)
        return Const(w)

    def read(self, start, text, state=None, self_=None):
        """[(state, value or Exc)]"""
        tree = parse(self.g, start, text)
        if tree is None:
            raise AnalysisError("the grammar does not read the skeleton %s" % text)
        if self_ is None:
            out = []
            for s, r in self.fresh():
                out += self.node(tree, s, r)
            return out
        return self.node(tree, state, self_)

    def node(self, t, st, me):
        if t is None:
            return [(st, NONE)]
        if isinstance(t[0], G.T):
            return [(st, self.leaf(*t))]
        name, ch = t
        ch = [c for c in ch if not (isinstance(c, tuple) and isinstance(c[0], G.T) and not c[0].keep)]
        live = [(st, [])]
        done = []
        for c in ch:
            nxt = []
            for s, vs in live:
                for s2, v in self.node(c, s, me):
                    if isinstance(v, Exc):
                        done.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            live = nxt
        f = own_method(self.tr, name)
        for s, vs in live:
            if f is None:
                if self.g.rules[name].inline and len(vs) == 1:
                    done.append((s, vs[0]))
                    continue
                self.k += 1
                v = Sym("tree.%s%d" % (name, self.k), None)
                s = s.clone()
                s.over[(v, "children")] = Seq("list", tuple(One(x) for x in vs))
                done.append((s, v))
                continue
            self.it.nstates = 0
            s = s.clone()
            arg = self.it.alloc(s, HSeq("list", tuple(One(x) for x in vs)))
            for s2, k, v in self.it.run(f, [arg], None, me, s):
                done.append((s2, v))
        return done


def conditions(log):
    return [(c, b) for c, b in log]
