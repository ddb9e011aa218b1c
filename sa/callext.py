"""Calls of external functions."""
import math

from .builtins_ import *

PURE = {"int", "float", "bool", "hash", "repr", "abs", "round", "sum", "min", "max", "id", "ord", "chr", "divmod", "format",
        "Decimal", "vars", "dir", "callable", "slice", "object", "str"}
NUMERIC = {"math." + f.__name__: f for f in (math.isinf, math.isnan, math.isfinite, math.floor, math.ceil, math.trunc)}


class CallExt:
    def call_ext(self, name, parts, kwargs, st, node):
        last = name.split(".")[-1]
        m = getattr(self, "x_" + name.replace(".", "_"), None) or getattr(self, "x_" + last, None)
        if m is not None and (name.startswith(("builtins.", "super.", "typing.", "functools.", "copy.", "textwrap.", "itertools.", "collections.")) ):
            return m(parts, kwargs, st, node)
        if name.startswith("super."):
            return self.x_super(name[6:], parts, kwargs, st, node)
        if name.startswith("builtins.object."):
            if last == "__init__":
                return [(st, NONE)]
            return self.opaque_ext(name, parts, kwargs, st, node)
        if name.startswith("builtins.str.") or name.startswith("builtins.dict.") or name.startswith("builtins.list.") or name.startswith("builtins.set.") or name.startswith("builtins.frozenset."):
            if last == "fromkeys":
                return self.x_fromkeys(parts, kwargs, st, node)
            if parts and isinstance(parts[0], One):
                return self.call_meth(parts[0].v, last, parts[1:], kwargs, st, node)
        cls = getattr(__import__("builtins"), last, None) if name.startswith("builtins.") else None
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return [(st, ExcV(last, tuple(self.fz(p.v, st) if isinstance(p, One) else self.fz(p, st) for p in parts)))]
        if last.endswith(("Error", "Exception")) and last[0].isupper():
            return [(st, ExcV(name, tuple(self.fz(p.v, st) if isinstance(p, One) else self.fz(p, st) for p in parts)))]
        if name in NUMERIC and len(parts) == 1 and isinstance(parts[0], One):
            v = self.fz(parts[0].v, st)
            if isinstance(v, Const) and isinstance(v.v, (int, float)):
                try:
                    return [(st, Const(NUMERIC[name](v.v)))]
                except (ValueError, OverflowError) as e:
                    return [(st, self.exc(type(e).__name__))]
        if last in PURE or name.split(".")[0] in ("re", "decimal", "math"):
            return self.opaque_ext(name if not name.startswith("builtins.") else last, parts, kwargs, st, node, event=False)
        return self.opaque_ext(name, parts, kwargs, st, node)

    def x_super(self, attr, parts, kwargs, st, node):
        if attr in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
            return [(st, Ext("builtins.NotImplemented"))]
        if attr in ("__init__", "__init_subclass__"):
            return [(st, NONE)]
        return self.opaque_ext("super." + attr, parts, kwargs, st, node)

    def x_isinstance(self, parts, kwargs, st, node):
        v, k = self.vals(parts, node, "isinstance")
        return [(st, self.isinst_any(v, k, st, node))]

    def isinst_any(self, v, k, st, node):
        ps = self.parts_of(k, st) if not isinstance(k, Cls) else None
        if ps is not None:
            return self.c_or([self.isinst_any(v, p.v, st, node) for p in ps if isinstance(p, One)])
        if isinstance(k, Cls):
            return self.c_isinst(v, k.c, st)
        if isinstance(k, Ext):
            return self.c_isinst(v, k.name.split(".")[-1], st)
        if isinstance(k, App) and k.op == "type":
            return App("isinst", (self.fz(v, st), self.fz(k, st)))
        self.undecided("isinstance with an unknown class", node)

    def x_issubclass(self, parts, kwargs, st, node):
        a, b = self.vals(parts, node, "issubclass")
        if isinstance(a, Cls) and isinstance(b, Cls):
            return [(st, Const(a.c.is_subclass(b.c)))]
        return [(st, App("issub", (self.fz(a, st), self.fz(b, st))))]

    def x_len(self, parts, kwargs, st, node):
        (v,) = self.vals(parts, node, "len")
        if isinstance(v, Const) and isinstance(v.v, (str, tuple)):
            return [(st, Const(len(v.v)))]
        lo, hi = self.len_bounds(v, st)
        if hi is not None and lo == hi:
            return [(st, Const(lo))]
        return [(st, App("len", (self.counted(self.fz(v, st), st),)))]

    def x_sorted(self, parts, kwargs, st, node):
        v = parts[0].v if isinstance(parts[0], One) else self.undecided("sorted", node)
        ps = self.parts_of(v, st)
        if ps is not None and all(isinstance(p, One) for p in ps) and len(ps) <= 1:
            s = st.clone()
            return [(s, self.alloc(s, HSeq("list", ps)))]
        args = [self.fz(self.as_keys(v, st), st)]
        key = kwargs.get("key")
        if key is not None and key != NONE:
            e = self.elem(args[0], st)
            try:
                r = self.call(key, [e], {}, st.clone(), node)
                kv = self.fz(r[0][1], r[0][0]) if len(r) == 1 and not isinstance(r[0][1], Exc) else App("key", (self.fz(key, st),))
            except Undecided:
                kv = App("key", (self.fz(key, st),))
            args.append(kv)
        return [(st, App("sorted", tuple(args)))]

    def as_keys(self, v, st):
        if isinstance(v, Ref) and self.kind_of(v, st) == "dict" or isinstance(v, Seq) and v.kind == "dict":
            return Seq("list", self.keys_of(self.parts_of(v, st)))
        return v

    def _coll(self, kind, parts, kwargs, st, node):
        if not parts:
            ps = ()
        else:
            (v,) = self.vals(parts, node, kind)
            ps = self.parts_of(v, st)
            if ps is None:
                if kind == "set":
                    s = st.clone()
                    return [(s, self.alloc(s, HSeq("set", (Spread(self.fz(strip_(v), st)),))))]
                if kind == "list":
                    s = st.clone()
                    return [(s, self.alloc(s, HSeq("list", (Spread(self.fz(v, st)),))))]
                return [(st, App(kind, (self.fz(v, st),)))]
            ps = self.iter_parts(v, st)
        if kind in ("list", "set"):
            s = st.clone()
            if kind == "set":
                ps = tuple(dict.fromkeys(ps))
            return [(s, self.alloc(s, HSeq(kind, ps)))]
        return [(st, Seq(kind, tuple(ps)))]

    def x_list(self, p, k, st, n):
        return self._coll("list", p, k, st, n)

    def x_set(self, p, k, st, n):
        return self._coll("set", p, k, st, n)

    def x_tuple(self, p, k, st, n):
        return self._coll("tuple", p, k, st, n)

    def x_frozenset(self, p, k, st, n):
        return self._coll("frozenset", p, k, st, n)

    def x_dict(self, parts, kwargs, st, node):
        ps = ()
        s = st.clone()
        if parts:
            (v,) = self.vals(parts, node, "dict")
            ps = self.to_dict_parts(v, s, node)
        out = list(ps)
        for k, v in kwargs.items():
            out = self.dict_put(out, Const(k), v)
        return [(s, self.alloc(s, HSeq("dict", out)))]

    x_OrderedDict = x_dict

    def x_fromkeys(self, parts, kwargs, st, node):
        v = parts[0].v
        val = parts[1].v if len(parts) > 1 else NONE
        s = st.clone()

        def conv(p):
            if isinstance(p, One):
                return One(Pair(p.v, val))
            if isinstance(p, Spread):
                e = self.elem(p.src, s)
                return Each(p.src, (((), (One(Pair(e, val)),)),))
            if isinstance(p, Each):
                return Each(p.src, tuple((g, tuple(conv(q) for q in xs)) for g, xs in p.alts))
            return p
        return [(s, self.alloc(s, HSeq("dict", self.merged(conv(p) for p in self.iter_parts(v, s)))))]

    def x_map(self, parts, kwargs, st, node):
        f, its = parts[0].v, self.vals(parts[1:], node, "map")
        if len(its) == 1:
            src = self.iter_parts(its[0], st)
        else:
            r = self.x_zip([One(x) for x in its], {}, st, node)
            src = self.iter_parts(r[0][1], st)

        def body(s, v):
            args = [v] if len(its) == 1 else [p.v for p in self.parts_of(v, s)]
            return [(s2, r if isinstance(r, Exc) else (One(r),)) for s2, r in self.call(f, args, {}, s, node)]
        return self.then(self.flatmap(src, body, st), lambda s, ps: [(s, Seq("gen", tuple(ps)))])

    def x_filter(self, parts, kwargs, st, node):
        f, it = self.vals(parts, node, "filter")

        def body(s, v):
            out = []
            rs = [(s, v)] if f == NONE else self.call(f, [v], {}, s, node)
            for s2, r in rs:
                if isinstance(r, Exc):
                    out.append((s2, r))
                    continue
                for s3, b in self.truth(r, s2):
                    out.append((s3, (One(v),) if b else ()))
            return out
        return self.then(self.flatmap(self.iter_parts(it, st), body, st), lambda s, ps: [(s, Seq("gen", tuple(ps)))])

    def x_zip(self, parts, kwargs, st, node):
        its = self.vals(parts, node, "zip")
        pss = [self.iter_parts(x, st) for x in its]
        if all(all(isinstance(p, One) for p in ps) for ps in pss):
            return [(st, Seq("gen", tuple(One(Seq("tuple", tuple(One(p.v) for p in row))) for row in zip(*pss))))]
        return [(st, App("zip", tuple(copied(self.fz(x, st)) for x in its)))]

    def x_enumerate(self, parts, kwargs, st, node):
        it = parts[0].v
        ps = self.iter_parts(it, st)
        start = kwargs.get("start", parts[1].v if len(parts) > 1 else Const(0))
        if all(isinstance(p, One) for p in ps) and isinstance(start, Const):
            return [(st, Seq("gen", tuple(One(Seq("tuple", (One(Const(i + start.v)), One(p.v)))) for i, p in enumerate(ps))))]
        return [(st, App("enumerate", (self.fz(it, st),)))]

    def x_range(self, parts, kwargs, st, node):
        vs = self.vals(parts, node, "range")
        if all(isinstance(v, Const) for v in vs):
            r = range(*(v.v for v in vs))
            if len(r) <= 64:
                return [(st, Seq("gen", tuple(One(Const(i)) for i in r)))]
        return [(st, App("range", tuple(self.fz(v, st) for v in vs)))]

    def x_reversed(self, parts, kwargs, st, node):
        (v,) = self.vals(parts, node, "reversed")
        ps = self.parts_of(v, st)
        if ps is not None and all(isinstance(p, One) for p in ps):
            return [(st, Seq("gen", tuple(reversed(ps))))]
        return [(st, App("reversed", (self.fz(v, st),)))]

    def x_iter(self, parts, kwargs, st, node):
        return [(st, parts[0].v)]

    def x_next(self, parts, kwargs, st, node):
        vs = self.vals(parts, node, "next")
        ps = self.parts_of(vs[0], st)
        if ps:
            if isinstance(ps[0], One):
                return [(st, ps[0].v)]
            if len(vs) == 2 and len(ps) == 1 and isinstance(ps[0], Each) and len(ps[0].alts) == 1 and len(ps[0].alts[0][1]) == 1 and isinstance(ps[0].alts[0][1][0], One):
                g, (q,) = ps[0].alts[0]
                c = self.c_exists(ps[0].src, g, st)
                out = []
                for s in self.assume(c, True, st):
                    out.append((s, App("firstof", (self.fz(ps[0], s),))))
                for s in self.assume(c, False, st):
                    out.append((s, vs[1]))
                return out
        if ps == () and len(vs) == 2:
            return [(st, vs[1])]
        return [(st, App("next", tuple(self.fz(v, st) for v in vs)))]

    def any_cond(self, parts, st, want, node):
        """Condition: some element has truth value want."""
        cs = []
        for p in parts:
            if isinstance(p, One):
                c = self.cond_of(p.v, st)
                cs.append(c if want else self.c_not(c))
            elif isinstance(p, Spread):
                b = strip_(p.src)
                e = self.elem(b, st)
                cs.append(self.c_exists(b, ((self.cond_of(e, st), want),), st))
            elif isinstance(p, Each):
                for g, ps in p.alts:
                    for q in ps:
                        if isinstance(q, One):
                            c = self.cond_of(q.v, st)
                            cs.append(self.c_exists(p.src, tuple(g) + ((c, want),), st))
                        else:
                            inner = self.any_cond((q,), st, want, node)
                            cs.append(self.c_exists(p.src, tuple(g) + ((inner, True),), st))
            else:
                return App("anyof", (self.fz(Seq("list", tuple(parts)), st), Const(want)))
        return self.c_or(list(dict.fromkeys(cs)))

    def x_any(self, parts, kwargs, st, node):
        return [(st, self.any_cond(self.iter_parts(parts[0].v, st), st, True, node))]

    def x_all(self, parts, kwargs, st, node):
        return [(st, self.c_not(self.any_cond(self.iter_parts(parts[0].v, st), st, False, node)))]

    def x_bool(self, parts, kwargs, st, node):
        if not parts:
            return [(st, FALSE)]
        return [(st, self.cond_of(parts[0].v, st))]

    def x_str(self, parts, kwargs, st, node):
        if not parts:
            return [(st, Const(""))]
        return self.to_str(parts[0].v, st, node)

    def x_repr(self, parts, kwargs, st, node):
        v = self.fz(parts[0].v, st)
        if isinstance(v, Const):
            return [(st, Const(repr(v.v)))]
        return [(st, App("repr", (v,)))]

    def x_int(self, parts, kwargs, st, node):
        return self._num("int", parts, st)

    def x_float(self, parts, kwargs, st, node):
        return self._num("float", parts, st)

    def _num(self, op, parts, st):
        v = self.fz(parts[0].v, st) if parts else Const(0)
        if isinstance(v, Const):
            try:
                return [(st, Const({"int": int, "float": float}[op](v.v)))]
            except (TypeError, ValueError):
                return [(st, self.exc("ValueError"))]
        return [(st, App(op, (v,)))]

    def x_hash(self, parts, kwargs, st, node):
        v = parts[0].v
        return [(st, App("hash", (self.fz(v, st),)))]

    def x_type(self, parts, kwargs, st, node):
        vs = self.vals(parts, node, "type")
        if len(vs) != 1:
            self.undecided("dynamic class creation", node)
        v = vs[0]
        t = self.type_of(v, st)
        if t and t[0] == "inst" and t[2]:
            return [(st, Cls(t[1]))]
        if isinstance(v, Const):
            return [(st, Ext("builtins." + type(v.v).__name__))]
        return [(st, App("type", (self.fz(v, st),)))]

    def x_hasattr(self, parts, kwargs, st, node):
        o, n = self.vals(parts, node, "hasattr")
        t = self.type_of(o, st)
        if isinstance(n, Const) and t and t[0] == "inst":
            if t[1].find(n.v):
                return [(st, TRUE)]
            if isinstance(o, Ref):
                return [(st, Const(n.v in st.heap[o.id].fields))]
        return [(st, App("hasattr", (self.fz(o, st), self.fz(n, st))))]

    def x_getattr(self, parts, kwargs, st, node):
        vs = self.vals(parts, node, "getattr")
        if isinstance(vs[1], Const):
            if len(vs) == 2:
                return self.getattr(vs[0], vs[1].v, st, node)
            t = self.type_of(vs[0], st)
            if t and t[0] == "inst" and (t[1].find(vs[1].v) or isinstance(vs[0], Ref) and vs[1].v in st.heap[vs[0].id].fields):
                return self.getattr(vs[0], vs[1].v, st, node)
            if isinstance(vs[0], Ref) and isinstance(st.heap[vs[0].id], HInst):
                return [(st, vs[2])]
            if isinstance(vs[0], New) and not vs[0].cls.find(vs[1].v):
                own = [x for n, x in vs[0].fields if n in (vs[1].v, self.prog.canon(vs[1].v))]
                if own:
                    return [(st, own[0])]
                if not vs[0].cls.find("__getattr__"):
                    return [(st, vs[2])]
        return [(st, App("getattr", tuple(self.fz(v, st) for v in vs)))]

    def x_setattr(self, parts, kwargs, st, node):
        o, n, v = self.vals(parts, node, "setattr")
        if isinstance(n, Const):
            return [(s, r if r is not None else NONE) for s, r in self.setattr(o, n.v, v, st, node)]
        s = st.clone()
        self.event(s, "write", "?", [o, v], node)
        return [(s, NONE)]

    def x_delattr(self, parts, kwargs, st, node):
        o, n = self.vals(parts, node, "delattr")
        s = st.clone()
        self.event(s, "write", n.v if isinstance(n, Const) else "?", [o, App("deleted", ())], node)
        return [(s, NONE)]

    def x_cast(self, parts, kwargs, st, node):
        return [(st, parts[1].v)]

    def x_partial(self, parts, kwargs, st, node):
        return [(st, Partial(parts[0].v, tuple(parts[1:]), tuple(sorted(kwargs.items()))))]

    def x_reduce(self, parts, kwargs, st, node):
        f, it = parts[0].v, parts[1].v
        ps = self.iter_parts(it, st)
        if all(isinstance(p, One) for p in ps):
            res = [(st, parts[2].v if len(parts) > 2 else ps[0].v)]
            for p in ps[0 if len(parts) > 2 else 1:]:
                res = self.then(res, lambda s, acc: self.call(f, [acc, p.v], {}, s, node))
            return res
        return [(st, App("reduce", tuple(self.fz(p.v, st) for p in parts)))]

    def x_indent(self, parts, kwargs, st, node):
        vs = [p.v for p in parts] + list(kwargs.values())
        if len(vs) >= 2 and isinstance(vs[1], Const) and not vs[1].v.strip():
            return [(st, vs[0])]
        return [(st, App("indent", tuple(self.fz(v, st) for v in vs)))]

    def x_dedent(self, parts, kwargs, st, node):
        return [(st, parts[0].v)]

    def x_copy(self, parts, kwargs, st, node):
        v = parts[0].v
        if isinstance(v, Ref):
            s = st.clone()
            return [(s, self.alloc(s, s.heap[v.id]))]
        return [(st, App("copyof", (self.fz(v, st),)))]

    x_deepcopy = x_copy

    def x_chain(self, parts, kwargs, st, node):
        ps = ()
        for p in parts:
            ps += tuple(self.iter_parts(p.v, st)) if isinstance(p, One) else (p,)
        return [(st, Seq("gen", ps))]

    def x_from_iterable(self, parts, kwargs, st, node):
        def body(s, v):
            return [(s, tuple(self.iter_parts(v, s)))]
        return self.then(self.flatmap(self.iter_parts(parts[0].v, st), body, st), lambda s, ps: [(s, Seq("gen", tuple(ps)))])

    def x_islice(self, parts, kwargs, st, node):
        vs = self.vals(parts, node, "islice")
        a = [NONE, vs[1], NONE] if len(vs) == 2 else [vs[1], vs[2], vs[3] if len(vs) > 3 else NONE]
        ps = self.iter_parts(vs[0], st)
        r = self.slice_parts(ps, App("slice", tuple(a)), st)
        return [(st, Seq("gen", r) if r is not None else App("slice", (self.fz(vs[0], st),) + tuple(a)))]

    def x_starmap(self, parts, kwargs, st, node):
        f, it = self.vals(parts, node, "starmap")

        def body(s, v):
            return [(s2, r if isinstance(r, Exc) else (One(r),)) for s2, r in self.call(f, list(self.iter_parts(v, s)), {}, s, node)]
        return self.then(self.flatmap(self.iter_parts(it, st), body, st), lambda s, ps: [(s, Seq("gen", tuple(ps)))])

    def x_defaultdict(self, parts, kwargs, st, node):
        s = st.clone()
        r = self.alloc(s, HSeq("dict", ()))
        self.__dict__.setdefault("defaultdicts", {})[r.id] = parts[0].v if parts else NONE
        return [(s, r)]

    def x_print(self, parts, kwargs, st, node):
        s = st.clone()
        named = [Pair(Const(k), v) for k, v in sorted(kwargs.items()) if isinstance(v, V)] if kwargs else []
        self.event(s, "ext", "print", [p.v if isinstance(p, One) else p for p in parts] + named, node)
        return [(s, NONE)]

    def x_max(self, parts, kwargs, st, node):
        return [(st, App("max", tuple(self.fz(p.v, st) if isinstance(p, One) else self.fz(p, st) for p in parts)))]

    def x_min(self, parts, kwargs, st, node):
        return [(st, App("min", tuple(self.fz(p.v, st) if isinstance(p, One) else self.fz(p, st) for p in parts)))]

    def x_attrgetter(self, parts, kwargs, st, node):
        self.undecided("attrgetter", node)


def copied(v):
    """The collection itself, without the copies that keep the order; an order of its own stays."""
    while isinstance(v, App) and v.op in ("tuple", "list", "iter", "name", "remaining") and len(v.args) == 1:
        v = v.args[0]
    while isinstance(v, Seq) and v.kind not in ("set", "frozenset", "dict") and len(v.parts) == 1 and isinstance(v.parts[0], Spread):
        v = copied(v.parts[0].src)
    return v
