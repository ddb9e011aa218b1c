"""Calls of methods of strings and containers."""
from .builtins_ import *


class CallMeth:
    def call_meth(self, recv, name, parts, kwargs, st, node):
        recv = self.res(recv, st)
        if isinstance(recv, Slot):
            return self.slot_meth(recv, name, parts, kwargs, st, node)
        if isinstance(recv, Ref) and isinstance(st.heap[recv.id], HSeq):
            r = self.position(recv, parts, kwargs, st, node) if name == "index" else None
            if r is not None:
                return r
            r = self.heap_meth(recv, name, parts, kwargs, st, node)
            if r is not None:
                return r
        if self.is_str(recv, st):
            r = self.str_meth(recv, name, parts, kwargs, st, node)
            if r is not None:
                return r
        if name == "index":
            r = self.position(recv, parts, kwargs, st, node)
            if r is not None:
                return r
        k = self.kind_of(recv, st)
        if k == "dict":
            r = self.dict_read(recv, name, parts, kwargs, st, node)
            if r is not None:
                return r
        r = self.set_read(recv, name, parts, kwargs, st, node)
        if r is not None:
            return r
        s = st.clone()
        fr = self.fz(recv, s)
        a = tuple(self.fz(p.v, s) if isinstance(p, One) else self.fz(p, s) for p in parts) + tuple(Pair(Const(k), self.fz(v, s)) for k, v in sorted(kwargs.items()))
        if name in MUTATORS:
            self.event(s, "mutate", name, (fr,) + a, node)
        else:
            self.event(s, "callm", name, (fr,) + a, node)
        return [(s, App("." + name, (fr,) + a))]

    def position(self, recv, parts, kwargs, st, node):
        """Where an element is in a sequence whose elements are all known to be it or not."""
        h = st.heap[recv.id] if isinstance(recv, Ref) else recv
        vs = [p.v for p in parts if isinstance(p, One)]
        if not (isinstance(h, (HSeq, Seq)) and h.kind in ("list", "tuple")) or kwargs or len(vs) != len(parts) or not 1 <= len(vs) <= 3:
            return None
        if not all(isinstance(p, One) for p in h.parts) or not all(isinstance(v, Const) and isinstance(v.v, int) for v in vs[1:]):
            return None
        lo, hi, _ = slice(*([v.v for v in vs[1:]] + [None] * (2 - len(vs[1:])))).indices(len(h.parts)) if len(vs) > 1 else (0, len(h.parts), 1)
        for i in range(lo, hi):
            b = self.decide(self.c_eq(h.parts[i].v, vs[0], st), st)
            if b is None:
                return None
            if b:
                return [(st, Const(i))]
        return [(st, self.exc("ValueError", node))]

    # -- strings ---------------------------------------------------------------------
    def str_meth(self, recv, name, parts, kwargs, st, node):
        if name == "join":
            (it,) = self.vals(parts, node, "join")
            if isinstance(recv, Const):
                return [(st, self.join(recv.v, self.iter_parts(it, st), st))]
            return [(st, App(".join", (self.fz(recv, st), self.fz(it, st))))]
        vs = [p.v for p in parts if isinstance(p, One)]
        if isinstance(recv, Const) and len(vs) == len(parts) and all(isinstance(v, Const) for v in vs) and not kwargs and name not in MUTATORS:
            try:
                r = getattr(recv.v, name)(*(v.v for v in vs))
            except Exception:
                r = None
            if isinstance(r, (str, int, bool)):
                return [(st, Const(r))]
            if isinstance(r, list):
                s = st.clone()
                return [(s, self.alloc(s, HSeq("list", tuple(One(Const(x)) for x in r))))]
        if name == "format" and isinstance(recv, Const):
            return self.str_format(recv.v, parts, kwargs, st, node)
        if name in ("strip", "rstrip", "lstrip") and isinstance(recv, Fmt) and not parts:
            return [(st, recv)]
        if name == "expandtabs":
            return [(st, recv)]
        if name == "replace" and len(vs) == 2 and all(isinstance(v, Const) and not v.v.strip() for v in vs) and vs[0].v and vs[1].v:
            return [(st, recv)]  # white space only
        fr = self.fz(recv, st)
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isidentifier", "isspace"):
            return [(st, App("strp", (Const(name), fr) + tuple(self.fz(v, st) for v in vs)))]
        return [(st, App("." + name, (fr,) + tuple(self.fz(v, st) for v in vs) + tuple(Pair(Const(k), self.fz(v, st)) for k, v in sorted(kwargs.items()))))]

    def str_format(self, fmt, parts, kwargs, st, node):
        import string
        out, auto = [], 0
        s = st
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            self.undecided("format string", node)
        for lit, field, spec, conv in fields:
            if lit:
                out.append(Const(lit))
            if field is None:
                continue
            if spec or not (field == "" or field.isdigit() or field.isidentifier()):
                self.undecided("format specification", node)
            if field == "":
                field, auto = str(auto), auto + 1
            if field.isdigit():
                i = int(field)
                if i >= len(parts) or not all(isinstance(p, One) for p in parts[: i + 1]):
                    return [(st, self.exc("IndexError", node))]
                v = parts[i].v
            else:
                if field not in kwargs:
                    return [(st, self.exc("KeyError", node))]
                v = kwargs[field]
            if conv == "r":
                out.append(App("repr", (self.fz(v, s),)))
                continue
            r = self.to_str(v, s, node)
            if len(r) != 1 or isinstance(r[0][1], Exc):
                self.undecided("format argument", node)
            s = r[0][0]
            out.append(r[0][1])
        return [(s, self.concat(out, s))]

    # -- mutable containers -------------------------------------------------------------
    def heap_meth(self, recv, name, parts, kwargs, st, node):
        h = st.heap[recv.id]
        vs = [p.v for p in parts if isinstance(p, One)]
        ok = len(vs) == len(parts)

        def put(ps, ret=NONE):
            s = st.clone()
            s.heap[recv.id] = h.with_parts(ps)
            return [(s, ret)]
        if (recv, "#work") in st.over and name in ("remove", "discard", "pop", "popleft"):
            cur = st.over[(recv, "#work")]
            if cur == Const("removed") or name in ("remove", "discard") and (not ok or self.fz(vs[0], st) != cur):
                self.undecided("removal from a list that is being worked off", node)
            s = st.clone()
            s.over[(recv, "#work")] = Const("removed")
            return [(s, cur if name.startswith("pop") else NONE)]
        if name in ("append", "add") and ok:
            p = One(vs[0])
            if name == "add" and p in h.parts:
                return [(st, NONE)]
            return put(h.parts + (p,))
        if name == "appendleft" and ok:
            return put((One(vs[0]),) + h.parts)
        if name == "insert" and ok:
            if vs[0] == Const(0):
                return put((One(vs[1]),) + h.parts)
            return put((AccP("insert%d" % recv.id),))
        if name in ("extend", "update", "union") and h.kind in ("list", "set"):
            ps = h.parts
            for p in parts:
                if isinstance(p, One):
                    ps = ps + tuple(self.iter_parts(p.v, st))
                else:
                    ps = ps + (self.flat_part(p, st, node),)
            if h.kind == "set":
                ps = tuple(dict.fromkeys(ps))
            if name == "union":
                s = st.clone()
                return [(s, self.alloc(s, HSeq("set", ps)))]
            return put(ps)
        if h.kind == "dict" and name == "update":
            ps = list(h.parts)
            if ok and vs:
                for q in self.to_dict_parts(vs[0], st, node):
                    if isinstance(q, One):
                        ps = self.dict_put(ps, q.v.k, q.v.v)
                    else:
                        ps.append(q)
            elif not ok:
                self.undecided("dict.update", node)
            for k, v in kwargs.items():
                ps = self.dict_put(ps, Const(k), v)
            return put(ps)
        if h.kind == "dict" and name == "setdefault" and ok:
            k = vs[0]
            d = vs[1] if len(vs) > 1 else NONE
            dp = self.parts_of(d, st)
            if dp == ():
                return [(st, Slot(recv, self.fz(k, st)))]
            for p in h.parts:
                if isinstance(p, One) and self.decide(self.c_eq(p.v.k, k, st), st) is True:
                    return [(st, p.v.v)]
            s = st.clone()
            s.heap[recv.id] = h.with_parts(tuple(h.parts) + (One(Pair(k, d)),))
            return [(s, d)]
        if h.kind == "dict" and name == "pop" and ok:
            k = vs[0]
            if all(isinstance(p, One) for p in h.parts):
                for i, p in enumerate(h.parts):
                    d = self.decide(self.c_eq(p.v.k, k, st), st)
                    if d is True:
                        return put(h.parts[:i] + h.parts[i + 1:], p.v.v)
                    if d is None:
                        self.undecided("dict.pop", node)
                return [(st, vs[1] if len(vs) > 1 else self.exc("KeyError", node, self.fz(k, st)))]
            if self.is_group(h.parts):
                got = self.group_parts(h.parts, k, st)
                if got is not None:
                    rest = self.filter_parts_pairs(h.parts, k, st)
                    s = st.clone()
                    s.heap[recv.id] = h.with_parts(rest)
                    return [(s, self.alloc(s, HSeq("list", got)))]
            return put((AccP("pop%d" % recv.id),), App("item", (self.fz(recv, st), self.fz(k, st))))
        if name in ("discard", "remove") and h.kind == "set" and ok:
            v = vs[0]
            return put(self.filter_parts(h.parts, lambda x: self.c_eq(x, v, st), False, st))
        if name == "difference_update" and h.kind == "set" and ok:
            v = vs[0]
            return put(self.filter_parts(h.parts, lambda x: self.c_in(x, v, st), False, st))
        if name == "pop" and h.kind == "list":
            i = vs[0] if vs else Const(-1)
            if isinstance(i, Const) and h.parts and all(isinstance(p, One) for p in h.parts) and -len(h.parts) <= i.v < len(h.parts):
                ps = list(h.parts)
                x = ps.pop(i.v)
                return put(ps, x.v)
            if i == Const(-1) and h.parts and isinstance(h.parts[-1], One):
                return put(h.parts[:-1], h.parts[-1].v)
            if i == Const(0) and h.parts and isinstance(h.parts[0], One):
                return put(h.parts[1:], h.parts[0].v)
            self.next_id += 1
            return put((AccP("popped%d" % recv.id),), App("popped", (self.fz(recv, st),)))
        if name in ("sort",):
            s = st.clone()
            r = self.call_ext("builtins.sorted", [One(Seq("list", h.parts))], kwargs, s, node)
            s2, v = r[0]
            s2 = s2.clone()
            s2.heap[recv.id] = h.with_parts(self.iter_parts(v, s2))
            return [(s2, NONE)]
        if name == "reverse":
            if all(isinstance(p, One) for p in h.parts):
                return put(tuple(reversed(h.parts)))
            return put(self.wrap_parts("reversed", h.parts, App("reversed", (Seq("list", h.parts),)), st))
        if name == "clear":
            return put(())
        if name == "copy":
            s = st.clone()
            return [(s, self.alloc(s, h))]
        if name in MUTATORS:
            return put((AccP("mut%d" % recv.id),), App("." + name, (self.fz(recv, st),)))
        if h.kind == "dict":
            return self.dict_read(recv, name, parts, kwargs, st, node)
        if h.kind == "list" and name in ("index", "count") and ok:
            return [(st, App("." + name, (self.fz(recv, st),) + tuple(self.fz(v, st) for v in vs)))]
        return None

    def flat_part(self, p, st, node):
        """*spread of a collection of collections, as one part of their union."""
        if isinstance(p, Spread):
            e = self.elem(p.src, st)
            return Each(p.src, (((), (Spread(e),)),))
        if isinstance(p, Each):
            return Each(p.src, tuple((g, tuple(Spread(q.v) if isinstance(q, One) else self.undecided("nested spread", node) for q in ps)) for g, ps in p.alts))
        self.undecided("spread argument", node)

    def filter_parts_pairs(self, parts, k, st):
        return self.filter_parts(parts, lambda x: self.c_eq(x.k, k, st), False, st)

    def slot_meth(self, slot, name, parts, kwargs, st, node):
        if name in ("append", "add") and isinstance(slot.ref, Ref):
            h = st.heap[slot.ref.id]
            s = st.clone()
            s.heap[slot.ref.id] = h.with_parts(h.parts + (One(Pair(slot.k, Grp(self.fz(parts[0].v, s), self.fz(slot.k, s)))),))
            return [(s, NONE)]
        if name in ("extend", "update") and isinstance(slot.ref, Ref):
            h = st.heap[slot.ref.id]
            s = st.clone()
            add = []
            for q in self.iter_parts(parts[0].v, s):
                if isinstance(q, One):
                    add.append(One(Pair(slot.k, Grp(self.fz(q.v, s), self.fz(slot.k, s)))))
                elif isinstance(q, Spread):
                    add.append(Each(q.src, (((), (One(Pair(slot.k, Grp(self.elem(q.src, s), self.fz(slot.k, s)))),)),)))
                elif isinstance(q, Each) and all(isinstance(x, One) for _, xs in q.alts for x in xs):
                    add.append(Each(q.src, tuple((g, tuple(One(Pair(slot.k, Grp(x.v, self.fz(slot.k, s)))) for x in xs)) for g, xs in q.alts)))
                else:
                    self.undecided("grouping", node)
            s.heap[slot.ref.id] = h.with_parts(h.parts + tuple(add))
            return [(s, NONE)]
        ps = self.parts_of(slot, st)
        if ps is None:
            self.undecided("method %s of a dict entry" % name, node)
        s = st.clone()
        return self.call_meth(self.alloc(s, HSeq("list", ps)), name, parts, kwargs, s, node)

    # -- reading -------------------------------------------------------------------------
    def dict_read(self, recv, name, parts, kwargs, st, node):
        ps = self.parts_of(recv, st)
        fr = self.fz(recv, st)
        vs = [p.v for p in parts if isinstance(p, One)]
        if name == "items":
            return [(st, Seq("gen", self.pairs_of(ps, st)) if ps is not None else App(".items", (strip_(fr),)))]
        if name == "keys":
            return [(st, Seq("gen", self.keys_of(ps)) if ps is not None else App(".keys", (strip_(fr),)))]
        if name == "values":
            return [(st, Seq("gen", self.values_of(ps)) if ps is not None else App(".values", (strip_(fr),)))]
        if name == "copy":
            s = st.clone()
            return [(s, self.alloc(s, HSeq("dict", ps if ps is not None else (Spread(fr),))))]
        if name == "get":
            k = vs[0]
            d = vs[1] if len(vs) > 1 else NONE
            if ps is None:
                c = self.c_in(k, recv, st)
                out = [(s, App("item", (strip_(fr), self.fz(k, s)))) for s in self.assume(c, True, st)]
                out += [(s, d) for s in self.assume(c, False, st)]
                return out
            if self.is_group(ps):
                got = self.group_parts(ps, k, st)
                if got is not None:
                    s = st.clone()
                    return [(s, self.alloc(s, HSeq("list", got)))]
            out = []
            if all(isinstance(p, One) for p in ps) and (len(ps) <= 8 or sum(self.decide(self.c_eq(p.v.k, k, st), st) is None for p in ps) <= 8):
                sts = [st]
                for p in ps:
                    c = self.c_eq(p.v.k, k, st)
                    nxt = []
                    for s in sts:
                        out.extend((s2, p.v.v) for s2 in self.assume(c, True, s))
                        nxt.extend(self.assume(c, False, s))
                    sts = nxt
                return out + [(s, d) for s in sts]
            c = self.c_in(k, recv, st)
            out = [(s, App("item", (fr, self.fz(k, s)))) for s in self.assume(c, True, st)]
            return out + [(s, d) for s in self.assume(c, False, st)]
        return None

    def set_read(self, recv, name, parts, kwargs, st, node):
        vs = [p.v for p in parts if isinstance(p, One)]
        ok = len(vs) == len(parts)
        if name == "issubset" and ok:
            return [(st, self.c_subset(recv, vs[0], st))]
        if name == "issuperset" and ok:
            return [(st, self.c_subset(vs[0], recv, st))]
        if name == "isdisjoint" and ok:
            return [(st, self.c_not(self.cond_of(self.setop("&", recv, vs[0], st), st)))]
        if name in ("union", "intersection", "difference") and ok:
            v = recv
            for x in vs:
                v = self.setop({"union": "|", "intersection": "&", "difference": "-"}[name], v, x, st)
            return [(st, v)]
        if name == "copy" and not parts:
            t = self.type_of(recv, st)
            if t and t[0] == "coll" and t[1] in ("set", "seq"):
                s = st.clone()
                return [(s, self.alloc(s, HSeq("set" if t[1] == "set" else "list", (Spread(self.fz(recv, s)),))))]
        if name == "items" and not parts:
            return [(st, App(".items", (strip_(self.fz(recv, st)),)))]
        if name == "keys" and not parts:
            return [(st, App(".keys", (strip_(self.fz(recv, st)),)))]
        if name == "values" and not parts:
            return [(st, App(".values", (strip_(self.fz(recv, st)),)))]
        if name in ("__hash__", "__str__", "__repr__"):
            return [(st, App({"__hash__": "hash", "__str__": "str", "__repr__": "repr"}[name], (self.fz(recv, st),)))]
        if name in ("__eq__",) and ok:
            return [(st, self.c_eq(recv, vs[0], st))]
        if name in ("__lt__",) and ok:
            return [(st, self.c_lt(recv, vs[0], st))]
        if name in ("__contains__",) and ok:
            return [(st, self.c_in(vs[0], recv, st))]
        return None
