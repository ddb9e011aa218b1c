"""Abstract semantics of Python builtins and of methods of strings and containers."""
import re

from .program import ClassInfo
from .state import *

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "update", "discard",
            "difference_update", "intersection_update", "symmetric_difference_update", "setdefault", "popitem",
            "__setitem__", "__delitem__", "__iadd__", "__setattr__", "__delattr__"}
OPAQUE_ORDER = {"set", "frozenset"}


class Builtins:
    # -- helpers -------------------------------------------------------------------
    def exc(self, cls, node=None, *args):
        return Exc(ExcV(cls, tuple(args)), node, self.stack[-1][0] if self.stack else None)

    def vals(self, parts, node, what):
        if not all(isinstance(p, One) for p in parts):
            self.undecided("unknown arguments of %s" % what, node)
        return [p.v for p in parts]

    def opaque_ext(self, name, parts, kwargs, st, node, event=True):
        s = st.clone()
        a = tuple(self.fz(p.v, s) if isinstance(p, One) else self.fz(p, s) for p in parts)
        a += tuple(Pair(Const(k), self.fz(v, s)) for k, v in sorted(kwargs.items()))
        if event:
            self.event(s, "ext", name, a, node)
        return [(s, App("ext:" + name, a))]

    def is_str(self, v, st):
        if isinstance(v, Fmt):
            return True
        if isinstance(v, Const):
            return isinstance(v.v, str)
        if isinstance(v, App) and v.op in ("str", "repr", "format", "name", "strcat"):
            return True
        t = self.type_of(v, st)
        return bool(t and t == ("py", "str"))

    def concat(self, values, st):
        out = []
        for v in values:
            ps = v.parts if isinstance(v, Fmt) else (v.v if isinstance(v.v, str) else v,) if isinstance(v, Const) else (self.fz(v, st),)
            for p in ps:
                if isinstance(p, Fmt):
                    for q in p.parts:
                        self._addpart(out, q)
                else:
                    self._addpart(out, p)
        if not out:
            return Const("")
        if len(out) == 1 and isinstance(out[0], str):
            return Const(out[0])
        if len(out) == 1 and not isinstance(out[0], (Join, AccP)):
            return out[0]
        return Fmt(tuple(out))

    def _addpart(self, out, p):
        if isinstance(p, Const) and isinstance(p.v, str):
            p = p.v
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)

    def to_str(self, v, st, node=None):
        v = self.res(v, st)
        if isinstance(v, Const):
            return [(st, Const(str(v.v)))]
        if isinstance(v, Fmt) or self.is_str(v, st):
            return [(st, v)]
        if isinstance(v, Enum_):
            m = v.cls.find("__str__")
            if m and m[1] == "method":
                return self.call_func(m[2], v, [], {}, st, node)
            return [(st, Const("%s.%s" % (v.cls.name, v.member)))]
        if isinstance(v, ExcV) and len(v.args) == 1:
            return self.to_str(v.args[0], st, node)
        if getattr(self, "inline_str", None) and self.inline_str(v, st):
            t = self.type_of(v, st)
            m = t[1].find("__str__")
            return self.call_func(m[2], v, [], {}, st, node)
        return [(st, App("str", (self.fz(v, st),)))]

    def percent(self, fmt, b, st):
        args = [p.v for p in b.parts] if isinstance(b, Seq) and b.kind == "tuple" and all(isinstance(p, One) for p in b.parts) else [b]
        pieces = re.split(r"(%[sdr%])", fmt)
        out, i = [], 0
        for x in pieces:
            if x == "%%":
                out.append(Const("%"))
            elif re.fullmatch(r"%[sd]", x):
                if i >= len(args):
                    return App("percent", (Const(fmt), self.fz(b, st)))
                out.append(self.to_str(args[i], st)[0][1])
                i += 1
            elif x == "%r":
                out.append(App("repr", (self.fz(args[i], st),)))
                i += 1
            else:
                if "%" in x:
                    return App("percent", (Const(fmt), self.fz(b, st)))
                out.append(Const(x))
        return self.concat(out, st)

    def join(self, sep, parts, st):
        """sep.join(...) for a constant separator."""
        parts = tuple(parts)
        if all(isinstance(p, One) for p in parts):
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.append(Const(sep))
                out.append(p.v)
            return self.concat(out, st)
        if len(parts) == 1 and not sep.strip() and sep:
            p = parts[0]
            if isinstance(p, Each) and self.lines(p) == "kept" or isinstance(p, Spread) and isinstance(p.src, App) and p.src.op in (".splitlines", ".split"):
                if splits(p.src):
                    return p.src.args[0]
        return Fmt((Join(sep, tuple(self.fz(p, st) for p in parts)),))

    def is_lines(self, src):
        return splits(src)

    def lines(self, p):
        """For the parts made from the lines of a text: "kept" if every line that is not blank is kept, "lost" if some such line may be lost,
        None if this cannot be told (or these are not the lines of a text)."""
        src = p.src
        if not splits(src):
            return None
        emits = [(g, ps) for g, ps in p.alts if ps]
        verdicts = []
        for g, ps in emits:
            if len(ps) != 1 or not isinstance(ps[0], One) or not (isinstance(trimmed(ps[0].v), Elem) and trimmed(ps[0].v).src == src):
                return None
            e = trimmed(ps[0].v)
            vs = [line_guard(c, b, e) for c, b in g]
            verdicts.append(None if None in vs else all(v is True for v in vs))
        if True in verdicts:
            return "kept"
        if not verdicts or all(v is False for v in verdicts) and len(verdicts) == 1:
            return "lost"
        return None

    # -- groups (dict of lists) --------------------------------------------------------
    def group_parts(self, parts, k, st):
        """Parts of the list stored under key k in a dict built by grouping; None if not a group dict."""
        out, hit = [], []
        for p in parts:
            if isinstance(p, One):
                c = self.c_eq(p.v.k, k, st)
                d = self.decide(c, st)
                vs = (One(p.v.v.v),) if isinstance(p.v.v, Grp) else self.parts_of(p.v.v, st)
                if vs is None:
                    vs = (Spread(self.fz(p.v.v, st)),)
                if d is False:
                    continue
                if d is True:
                    out.extend(vs)
                    continue
                return None
            elif isinstance(p, Each):
                alts = []
                for g, ps in p.alts:
                    for q in ps:
                        if not isinstance(q, One) or not isinstance(q.v, Pair):
                            return None
                        v = self.fz(q.v.v, st)
                        bound = self.count_keys(strip_(p.src))
                        if any(st.depth.get(x) for x in bound):
                            # the elements of p are being iterated over: k belongs to the element at hand
                            fk = self.fz(k, st)
                            if isinstance(v, Grp) and self.fz(q.v.k, st) == fk and any(isinstance(x, Elem) for x in walk(fk)):
                                own = Each(App("grp", (v.v, v.k)), (((), (One(v.v),)),))
                                if own not in hit:
                                    hit.append(own)
                                continue
                            if self.decide(self.c_eq(q.v.k, k, st), st) is not False:
                                return None
                            continue
                        c = self.c_eq(q.v.k, k, st)
                        if c == FALSE:
                            continue
                        vs = (One(v.v),) if isinstance(v, Grp) else v.parts if isinstance(v, Seq) else (Spread(v),)
                        alts.append((tuple(g) + (((c, True),) if c != TRUE else ()), tuple(vs)))
                if alts:
                    out.append(Each(p.src, tuple(alts)))
            else:
                return None
        if hit:
            return tuple(hit) if len(hit) == 1 and not out else None
        return tuple(out)

    def is_group(self, parts):
        for p in parts:
            qs = [p] if isinstance(p, One) else [q for _, ps in p.alts for q in ps] if isinstance(p, Each) else []
            for q in qs:
                if isinstance(q, One) and isinstance(q.v, Pair) and isinstance(q.v.v, Grp):
                    return True
        return False

    def filter_parts(self, parts, cond, val, st):
        """Restrict parts to the elements v for which cond(v) has value val."""
        out = []
        for p in parts:
            if isinstance(p, One):
                d = self.decide(cond(p.v), st)
                if d is None:
                    out.append(Each(Seq("tuple", (self.fz(p, st),)), ((((cond(p.v), val),), (self.fz(p, st),)),)))
                elif d == val:
                    out.append(p)
            elif isinstance(p, Spread):
                e = self.elem(p.src, st)
                out.append(Each(p.src, ((((cond(e), val),), (One(e),)),)))
            elif isinstance(p, Each):
                alts = []
                for g, ps in p.alts:
                    if len(ps) != 1 or not isinstance(ps[0], One):
                        return (AccP("filtered"),)
                    c = cond(ps[0].v)
                    if isinstance(c, Const):
                        if bool(c.v) == val:
                            alts.append((g, ps))
                        continue
                    alts.append((tuple(g) + ((c, val),), ps))
                if alts:
                    out.append(Each(p.src, tuple(alts)))
            else:
                return (AccP("filtered"),)
        return tuple(out)

    def pairs_of(self, parts, st):
        """Dict parts -> parts of (key, value) tuples; None when not representable."""
        def conv(p):
            if isinstance(p, One):
                return One(Seq("tuple", (One(p.v.k), One(p.v.v))))
            if isinstance(p, Spread):
                return Spread(App(".items", (strip_(p.src),)))
            if isinstance(p, Each):
                return Each(p.src, tuple((g, tuple(conv(q) for q in ps)) for g, ps in p.alts))
            return p
        return tuple(conv(p) for p in parts)

    def keys_of(self, parts):
        def conv(p):
            if isinstance(p, One) and isinstance(p.v, Pair):
                return One(p.v.k)
            if isinstance(p, Each):
                return Each(p.src, tuple((g, tuple(conv(q) for q in ps)) for g, ps in p.alts))
            return p
        return tuple(conv(p) for p in parts)

    def values_of(self, parts):
        def conv(p):
            if isinstance(p, One) and isinstance(p.v, Pair):
                return One(p.v.v)
            if isinstance(p, Spread):
                return Spread(App(".values", (strip_(p.src),)))
            if isinstance(p, Each):
                return Each(p.src, tuple((g, tuple(conv(q) for q in ps)) for g, ps in p.alts))
            return p
        return tuple(conv(p) for p in parts)

    def to_dict_parts(self, v, st, node):
        """Parts of dict(v)."""
        ps = self.parts_of(v, st)
        if self.kind_of(v, st) == "dict":
            return ps if ps is not None else (Spread(self.fz(v, st)),)
        if ps is None:
            t = self.type_of(v, st)
            return (Spread(self.fz(v, st)),)

        def conv(p):
            if isinstance(p, One):
                qs = self.parts_of(p.v, st)
                if qs is not None and len(qs) == 2 and all(isinstance(q, One) for q in qs):
                    return One(Pair(qs[0].v, qs[1].v))
                f = self.fz(p.v, st)
                return One(Pair(App("item", (f, Const(0))), App("item", (f, Const(1)))))
            if isinstance(p, Spread):
                b = strip_(p.src)
                if isinstance(b, App) and b.op == ".items":
                    return Spread(b.args[0])
                if isinstance(b, App) and b.op == "zip" and len(b.args) == 2:
                    k = self.elem(b.args[0], st)
                    return Each(b, (((), (One(Pair(self.elem(b.args[0], st), self.elem(b.args[1], st))),)),))
                e = self.elem(p.src, st)
                return Each(p.src, (((), (One(Pair(App("item", (e, Const(0))), App("item", (e, Const(1))))),)),))
            if isinstance(p, Each):
                return Each(p.src, tuple((g, tuple(conv(q) for q in xs)) for g, xs in p.alts))
            return p
        return self.merged(conv(p) for p in ps)

    def merged(self, parts):
        """Entries of a dictionary in the order they are put in: a later one with the same key takes the place of the first."""
        out = []
        for p in parts:
            if isinstance(p, One) and isinstance(p.v, Pair):
                out = self.dict_put(out, p.v.k, p.v.v)
            else:
                out.append(p)
        return tuple(out)

    def kind_of(self, v, st):
        if isinstance(v, Ref):
            h = st.heap[v.id]
            return h.kind if not hasattr(h, "cls") else None
        if isinstance(v, Seq):
            return v.kind
        t = self.type_of(v, st)
        if t and t[0] == "opt":
            t = t[1]
        if t and t[0] == "map":
            return "dict"
        return None


def strip_(v):
    from .conds import strip
    return strip(v)


def splits(src):
    """src is the list of the lines (or words) of a text."""
    return isinstance(src, App) and (src.op == ".splitlines" and len(src.args) == 1
                                     or src.op == ".split" and (len(src.args) == 1 or len(src.args) == 2 and isinstance(src.args[1], Const)
                                                                and isinstance(src.args[1].v, str) and not src.args[1].v.strip()))


def trimmed(x):
    while isinstance(x, App) and x.op in (".strip", ".rstrip", ".lstrip") and len(x.args) == 1:
        x = x.args[0]
    return x


def line_guard(c, b, e):
    """The condition c with outcome b on the line e: True if every line that is not blank meets it, False if some such line does not, None if unknown."""
    if not isinstance(c, App) or not c.args:
        return None
    if c.op == "not":
        return line_guard(c.args[0], not b, e)
    x = trimmed(c.args[0])
    if c.op == "in" and len(c.args) == 2 and isinstance(c.args[0], Const) and trimmed(c.args[1]) == e:
        return False
    if c.op == "eq" and isinstance(c.args[0], Const) and len(c.args) == 2:
        c = App("eq", (c.args[1], c.args[0]))
        x = trimmed(c.args[0])
    if c.op == "truthy":
        if isinstance(x, App) and x.op == "strp" and trimmed(x.args[1]) == e:
            return not b if x.args[0] == Const("isspace") else False
        return b if x == e else None
    if c.op == "eq" and isinstance(x, App) and x.op in ("item", "slice") and trimmed(x.args[0]) == e and isinstance(c.args[1], Const):
        return False
    if x != e:
        return None
    if c.op == "eq" and isinstance(c.args[1], Const) and isinstance(c.args[1].v, str):
        return not b if not c.args[1].v.strip() else False
    if c.op == "card":
        s = set(c.args[1]) if b else {0, 1, 2} - set(c.args[1])
        return {1, 2} <= s
    if c.op == "lenp" and isinstance(c.args[1], Const) and isinstance(c.args[2], Const):
        import operator
        f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "eq": operator.eq, "==": operator.eq, "lt": operator.lt,
             "le": operator.le, "gt": operator.gt, "ge": operator.ge}.get(c.args[1].v)
        return None if f is None else all(f(n, c.args[2].v) == b for n in range(1, 300))
    if c.op in (".startswith", ".endswith"):
        return False
    return None
