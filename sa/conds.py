"""Canonical conditions, facts, and types of abstract values."""
import ast
import builtins

from .program import ClassInfo, dotted, ext_ancestors
from .state import *

CARD_ALL = frozenset((0, 1, 2))
WRAP = {"unique", "permuted", "tuple", "list", "frozenset", "set", "sorted", "iter", "reversed", "name", "remaining"}
BOOL_OPS = {"not", "and", "or", "eq", "lt", "in", "isinst", "typeis", "isnone", "truthy", "card", "exists", "first", "bool", "is"}
COLL_NAMES = {"Sequence": "seq", "List": "seq", "list": "seq", "Tuple": "seq", "tuple": "seq", "Collection": "coll",
              "AbstractSet": "set", "Set": "set", "FrozenSet": "set", "set": "set", "frozenset": "set", "Iterable": "coll",
              "Iterator": "coll"}
MAP_NAMES = {"Dict", "Mapping", "dict", "MutableMapping", "OrderedDict"}


def strip(v, keep_sorted=False):
    """Strip order/copy wrappers of a collection value."""
    while isinstance(v, App) and v.op in WRAP and v.args and not (keep_sorted and v.op == "sorted"):
        v = v.args[0]
    while isinstance(v, Seq) and len(v.parts) == 1 and isinstance(v.parts[0], Spread):
        v = strip(v.parts[0].src)
    return v


def nlen(parts):
    """(min, max) number of elements of sequence parts; max None if unbounded."""
    lo, hi = 0, 0
    for p in parts:
        if isinstance(p, One):
            lo += 1
            hi = None if hi is None else hi + 1
        else:
            hi = None
    return lo, hi


class Conds:
    # -- types ---------------------------------------------------------------
    def ann_type(self, module, node):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.ann_type(module, ast.parse(node.value, mode="eval").body)
                except SyntaxError:
                    return None
            if node.value is None:
                return ("none",)
            return None
        if isinstance(node, ast.Subscript):
            dn = (dotted(node.value) or "").split(".")[-1]
            sl = node.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if dn == "Optional":
                t = self.ann_type(module, args[0])
                return ("opt", t)
            if dn in ("Tuple", "tuple") and len(args) > 1 and not isinstance(args[-1], ast.Constant):
                return ("coll", "seq", None, tuple(self.ann_type(module, a) for a in args))
            if dn in COLL_NAMES:
                return ("coll", COLL_NAMES[dn], self.ann_type(module, args[0]) if dn not in ("Tuple", "tuple") or len(args) == 1 or isinstance(args[-1], ast.Constant) else None)
            if dn in MAP_NAMES:
                return ("map", self.ann_type(module, args[0]), self.ann_type(module, args[1]) if len(args) > 1 else None)
            return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr_class(module, node)
            if isinstance(r, ClassInfo):
                if any(x == "str" for x in ext_ancestors(r)):
                    return ("py", "str")
                return ("inst", r, False)
            last = (r or "").split(".")[-1]
            if last in ("str", "namelike"):
                return ("py", "str")
            if last in ("int", "float", "bool"):
                return ("py", last)
            if last in COLL_NAMES:
                return ("coll", COLL_NAMES[last], None)
            if last in MAP_NAMES:
                return ("map", None, None)
        return None

    def type_of(self, v, st):
        t = self._type_of(v, st)
        if st is not None and isinstance(v, V) and not isinstance(v, (Const, Ref)):
            for (c, b) in st.atoms.items():
                if b and c.op in ("isinst", "typeis") and c.args[0] == v and isinstance(c.args[1], Cls):
                    k = c.args[1].c
                    ex = c.op == "typeis"
                    if isinstance(k, ClassInfo) and (t is None or t[0] != "inst" or k.is_subclass(t[1]) or ex):
                        if not (t and t[0] == "inst" and t[1] is k and t[2]):
                            t = ("inst", k, ex or (t is not None and t[0] == "inst" and t[1] is k and t[2]))
        return t

    def _type_of(self, v, st):
        if isinstance(v, Sym):
            return v.typ
        if isinstance(v, Const):
            return ("py", type(v.v).__name__)
        if isinstance(v, Fmt):
            return ("py", "str")
        if isinstance(v, Enum_):
            return ("inst", v.cls, True)
        if isinstance(v, New):
            return ("inst", v.cls, True)
        if isinstance(v, Cls):
            return ("cls", v.c)
        if isinstance(v, Ref) and st is not None:
            h = st.heap[v.id]
            if isinstance(h, HInst):
                return ("inst", h.cls, True)
            return {"list": ("coll", "seq", None), "set": ("coll", "set", None), "dict": ("map", None, None)}[h.kind]
        if isinstance(v, Seq):
            return ("coll", "set" if v.kind in ("set", "frozenset") else "seq", None) if v.kind != "dict" else ("map", None, None)
        if isinstance(v, Attr):
            hint = self.attr_types.get((v.base, v.name))
            if hint is not None:
                return hint
            bt = self.type_of(v.base, st)
            if bt and bt[0] == "opt":
                bt = bt[1]
            if bt and bt[0] == "inst":
                r = bt[1].find(v.name)
                if r and r[1] == "method" and r[2].kind == "property":
                    return self.ann_type(r[2].module, r[2].node.returns)
                return self.field_type(bt[1], v.name)
            return None
        if isinstance(v, Elem):
            t = self.type_of(v.src, st)
            if t and t[0] == "opt":
                t = t[1]
            if t and t[0] == "coll":
                return t[2]
            if t and t[0] == "map":
                return t[1]
            return None
        if isinstance(v, App):
            if v.op in ("tuple", "list", "sorted", "iter", "reversed", "unique", "permuted"):
                t = self.type_of(v.args[0], st)
                if t and t[0] == "opt":
                    t = t[1]
                return ("coll", "seq", t[2] if t and t[0] == "coll" else t[1] if t and t[0] == "map" else None)
            if v.op in ("frozenset", "set"):
                t = self.type_of(v.args[0], st)
                if t and t[0] == "opt":
                    t = t[1]
                return ("coll", "set", t[2] if t and t[0] == "coll" else t[1] if t and t[0] == "map" else None)
            if v.op in ("|", "&", "-") :
                return self.type_of(v.args[0], st) or self.type_of(v.args[1], st)
            if v.op in ("name", "str", "repr", "numtext", ".strip", ".rstrip", ".lstrip", ".lower", ".upper", ".join"):
                return ("py", "str")
            if v.op in (".splitlines", ".split"):
                return ("coll", "seq", ("py", "str"))
            if v.op == "slice":
                return self.type_of(v.args[0], st)
            if v.op in ("len", "int", "ext:int", "ext:builtins.int"):
                return ("py", "int")
            if v.op in ("float", "ext:float", "ext:builtins.float"):
                return ("py", "float")
            if v.op == "call" and isinstance(v.args[0], Fn):
                return self.ann_type(v.args[0].f.module, getattr(v.args[0].f.node, "returns", None))
            if v.op == "item" and len(v.args) == 2 and isinstance(v.args[1], Const) and isinstance(v.args[1].v, int):
                t = self.type_of(v.args[0], st)
                if t and t[0] == "coll" and len(t) > 3 and v.args[1].v < len(t[3]):
                    return t[3][v.args[1].v]
            if v.op == "item":
                t = self.type_of(v.args[0], st)
                if t and t[0] == "opt":
                    t = t[1]
                if t and t[0] == "map":
                    return t[2]
                if t and t[0] == "coll":
                    return t[2]
            if v.op in (".get",):
                t = self.type_of(v.args[0], st)
                if t and t[0] == "map":
                    return ("opt", t[2])
        return None

    def field_type(self, cls, field):
        """Annotated type of an instance field, from the assignments in the class's __init__ functions."""
        key = (cls.qualname, field)
        cache = self.__dict__.setdefault("_field_types", {})
        if key in cache:
            return cache[key]
        res = None
        for c in cls.mro():
            if not isinstance(c, ClassInfo):
                continue
            for f in c.functions:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and self.prog.canon(n.target.attr) == self.prog.canon(field):
                        res = res or self.ann_type(f.module, n.annotation)
                    if isinstance(n, ast.Assign) and res is None:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and self.prog.canon(t.attr) == self.prog.canon(field) and isinstance(n.value, ast.Call):
                                k = self.prog.resolve_expr_class(f.module, n.value.func)
                                if isinstance(k, ClassInfo):
                                    res = ("inst", k, True)
        if res is None:
            res = self._plain_field_type(cls, field)
        cache[key] = res
        return res

    def _plain_field_type(self, cls, field):
        """From `self._x = parameter` in a constructor, or a property that returns the field."""
        want = self.prog.canon(field)
        for c in cls.mro():
            if not isinstance(c, ClassInfo):
                continue
            for f in c.functions:
                a = f.node.args
                anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
                if f.name == "__init__":
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in anns \
                                and any(isinstance(t, ast.Attribute) and self.prog.canon(t.attr) == want for t in n.targets):
                            return self.ann_type(f.module, anns[n.value.id])
                elif f.kind == "property" and f.node.returns is not None:
                    body = [n for n in f.node.body if not isinstance(n, ast.Expr)]
                    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and self.prog.canon(body[0].value.attr) == want:
                        return self.ann_type(f.module, f.node.returns)
        return None

    # -- condition constructors ------------------------------------------------
    def c_not(self, c):
        if isinstance(c, Const):
            return Const(not c.v)
        if isinstance(c, App) and c.op == "not":
            return c.args[0]
        return App("not", (c,))

    def c_and(self, cs):
        out = []
        for c in cs:
            if c == TRUE:
                continue
            if c == FALSE:
                return FALSE
            out.append(c)
        return TRUE if not out else out[0] if len(out) == 1 else App("and", tuple(out))

    def c_or(self, cs):
        out = []
        for c in cs:
            if c == FALSE:
                continue
            if c == TRUE:
                return TRUE
            out.append(c)
        return FALSE if not out else out[0] if len(out) == 1 else App("or", tuple(out))

    def c_card(self, v, s, st):
        lo, hi = self.len_bounds(v, st)
        poss = frozenset(k for k in (0, 1, 2) if (k >= min(lo, 2)) and (hi is None or k <= min(hi, 2)))
        s = frozenset(s) & poss
        if not s:
            return FALSE
        if s == poss:
            return TRUE
        v = strip(v)
        while isinstance(v, App) and v.op in (".items", ".keys", ".values") and len(v.args) == 1:
            v = strip(v.args[0])
        return App("card", (self.fz(v, st), s))

    def len_bounds(self, v, st):
        v = strip(v)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], HSeq):
            return nlen(st.heap[v.id].parts) if st.heap[v.id].kind == "list" else self._setlen(st.heap[v.id].parts)
        if isinstance(v, Seq):
            return nlen(v.parts) if v.kind in ("tuple", "list", "gen") else self._setlen(v.parts)
        if isinstance(v, Const) and isinstance(v.v, (str, tuple)):
            return len(v.v), len(v.v)
        return 0, None

    def _setlen(self, parts):
        lo, hi = nlen(parts)
        if lo and not all(isinstance(p, One) and isinstance(p.v.k if isinstance(p.v, Pair) else p.v, (Const, Enum_)) for p in parts):
            lo = 1
        return lo, hi

    def c_eq(self, a, b, st):
        a, b = self.res(a, st), self.res(b, st)
        if isinstance(b, App) and b.op == "len" and not (isinstance(a, App) and a.op == "len"):
            a, b = b, a
        if isinstance(a, App) and a.op == "len" and isinstance(b, Const):
            return self.len_cmp(a.args[0], lambda n: n == b.v, b.v, st, "eq")
        if isinstance(a, App) and a.op == "idx0":
            pass
        if isinstance(a, Idx) and b == Const(0):
            return App("first", (a.src,))
        if isinstance(b, Idx) and a == Const(0):
            return App("first", (b.src,))
        if a == NONE:
            a, b = b, a
        if b == NONE:
            return self.c_isnone(a, st)
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a.v == b.v)
        lit = (Const, Enum_, Cls, Fn, Ext)
        if isinstance(a, lit) and isinstance(b, lit):
            return Const(a == b)
        # boolean value compared with a constant
        if isinstance(b, Const) and isinstance(b.v, bool) and isinstance(a, App) and a.op in BOOL_OPS:
            return a if b.v else self.c_not(a)
        if isinstance(a, Const) and isinstance(a.v, bool) and isinstance(b, App) and b.op in BOOL_OPS:
            return b if a.v else self.c_not(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == "type" and isinstance(y, Cls):
                return self.c_typeis(x.args[0], y.c, st)
        if isinstance(a, App) and a.op == "type" and isinstance(b, App) and b.op == "type":
            ta = self.type_of(a.args[0], st)
            tb = self.type_of(b.args[0], st)
            if ta and ta[0] == "inst" and ta[2]:
                return self.c_typeis(b.args[0], ta[1], st)
            if tb and tb[0] == "inst" and tb[2]:
                return self.c_typeis(a.args[0], tb[1], st)
        pa, pb = self.parts_of(a, st), self.parts_of(b, st)
        if pa is not None and pb is not None and all(isinstance(p, One) for p in pa + pb) and self.seqkind(a, st) == "seq" and self.seqkind(b, st) == "seq":
            if len(pa) != len(pb):
                return FALSE
            return self.c_and([self.c_eq(x.v, y.v, st) for x, y in zip(pa, pb)])
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and (isinstance(x, Seq) or isinstance(x, Ref) and isinstance(st.heap.get(x.id), HSeq)):
                return FALSE
        fa, fb = self.fz(a, st), self.fz(b, st)
        if fa == fb:
            return TRUE
        fa, fb = self.strip_eq(fa, st), self.strip_eq(fb, st)
        if fa == fb:
            return TRUE
        if isinstance(fa, New) and isinstance(fb, lit) or isinstance(fb, New) and isinstance(fa, lit):
            return FALSE
        x, y = sorted((fa, fb))
        return App("eq", (x, y))

    def c_is(self, a, b, st):
        """Identity; the same as equality for singletons."""
        a, b = self.res(a, st), self.res(b, st)
        single = (Cls, Enum_, Fn, Ext, Mod)
        for x in (a, b):
            if isinstance(x, single) or isinstance(x, Const) and x.v in (None, True, False):
                return self.c_eq(a, b, st)
            if isinstance(x, App) and x.op == "type":
                return self.c_eq(a, b, st)
        if a == b:
            return TRUE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return FALSE
        return App("is", tuple(sorted((self.fz(a, st), self.fz(b, st)))))

    def strip_eq(self, v, st):
        """Strip the wrappers of v that do not change what v is equal to."""
        while isinstance(v, App) and len(v.args) == 1 and v.op in ("name", "tuple", "list", "set", "frozenset"):
            if v.op != "name":
                isset = self._is_set(self.type_of(v.args[0], st))
                if isset != (v.op in ("set", "frozenset")):
                    break
            v = v.args[0]
        if isinstance(v, Seq) and len(v.parts) == 1 and isinstance(v.parts[0], Spread):
            isset = self._is_set(self.type_of(v.parts[0].src, st))
            if isset == (v.kind in ("set", "frozenset")):
                return self.strip_eq(v.parts[0].src, st)
        return v

    def seqkind(self, v, st):
        if isinstance(v, Ref):
            h = st.heap[v.id]
            return "seq" if isinstance(h, HSeq) and h.kind == "list" else "set"
        if isinstance(v, Seq):
            return "seq" if v.kind in ("tuple", "list", "gen") else "set"
        return None

    def len_cmp(self, coll, pred, n, st, op):
        """Condition pred(len(coll)); n is the constant compared with."""
        if isinstance(n, int) and 0 <= n <= 2:
            s = set()
            ok = True
            for k in (0, 1):
                if pred(k):
                    s.add(k)
            vals = [pred(k) for k in range(2, 6)]
            if all(vals):
                s.add(2)
            elif any(vals):
                ok = False
            lo, hi = self.len_bounds(coll, st)
            if hi is not None and hi == lo:
                return Const(pred(lo))
            if lo >= 2 and not any(pred(k) for k in range(lo, lo + 5)):
                return FALSE
            if lo > 0 and all(pred(k) for k in range(lo, lo + 6)) and (hi is None or True):
                return TRUE
            if ok:
                return self.c_card(coll, s, st)
        lo, hi = self.len_bounds(coll, st)
        if hi is not None and hi == lo:
            return Const(pred(lo))
        if hi is None:
            top = max(lo, n if isinstance(n, int) else 0) + 3
            vals = [pred(k) for k in range(lo, top)]
            if all(vals):
                return TRUE
            if not any(vals):
                return FALSE
        x = App("len", (self.counted(self.fz(coll, st), st),))
        if op == "eq":
            return App("eq", tuple(sorted((x, Const(n)))))
        return App("lenp", (x, Const(op), Const(n)))

    def counted(self, v, st):
        """The collection without the wrappers that keep its length."""
        while True:
            if isinstance(v, App) and v.op in WRAP and v.args:
                inner, isset = v.args[0], v.op in ("set", "frozenset", "unique")
            elif isinstance(v, Seq) and len(v.parts) == 1 and isinstance(v.parts[0], Spread):
                inner, isset = v.parts[0].src, v.kind in ("set", "frozenset")
            else:
                return v
            if isset:
                t = self.type_of(inner, st)
                if not self._is_set(t) and not (t and t[0] == "map") and not (isinstance(inner, App) and inner.op in (".keys", ".items")):
                    return v
            v = inner

    def c_lt(self, a, b, st):
        a, b = self.res(a, st), self.res(b, st)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const(a.v < b.v)
            except TypeError:
                return App("lt", (a, b))
        if isinstance(b, App) and b.op == "len" and isinstance(a, Const):
            return self.len_cmp(b.args[0], lambda k: a.v < k, a.v, st, ">")
        if isinstance(a, App) and a.op == "len" and isinstance(b, Const):
            return self.len_cmp(a.args[0], lambda k: k < b.v, b.v, st, "<")
        if a == Const(0) and isinstance(b, Idx):
            return self.c_not(App("first", (b.src,)))
        if isinstance(a, Idx) and b == Const(1):
            return App("first", (a.src,))
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        if self._is_set(ta) or self._is_set(tb):
            return self.c_and([self.c_subset(a, b, st), self.c_not(self.c_eq(a, b, st))])
        return App("lt", (self.fz(a, st), self.fz(b, st)))

    def _is_set(self, t):
        if t and t[0] == "opt":
            t = t[1]
        return bool(t and t[0] == "coll" and t[1] == "set")

    def c_le(self, a, b, st):
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        if self._is_set(ta) or self._is_set(tb):
            return self.c_subset(a, b, st)
        return self.c_not(self.c_lt(b, a, st))

    def c_subset(self, a, b, st):
        parts = self.parts_of(a, st)
        if parts is None:
            parts = (Spread(self.fz(strip(a), st)),)
        cs = []
        for p in parts:
            if isinstance(p, One):
                cs.append(self.c_in(p.v, b, st))
            elif isinstance(p, Spread):
                e = self.elem(p.src, st)
                cs.append(self.c_not(self.c_exists(p.src, ((self.c_in(e, b, st), False),), st)))
            elif isinstance(p, Each):
                for g, ps in p.alts:
                    for q in ps:
                        if not isinstance(q, One):
                            return App("subset", (self.fz(a, st), self.fz(b, st)))
                        cs.append(self.c_not(self.c_exists(p.src, tuple(g) + ((self.c_in(q.v, b, st), False),), st)))
            else:
                return App("subset", (self.fz(a, st), self.fz(b, st)))
        return self.c_and(cs)

    def elem(self, src, st):
        b = strip(src)
        if isinstance(b, App) and b.op == "zip":
            return Seq("tuple", tuple(One(self.elem(x, st)) for x in b.args))
        if isinstance(b, App) and b.op == "enumerate":
            return Seq("tuple", (One(Idx(strip(b.args[0]), st.depth.get(strip(b.args[0]), 0))), One(self.elem(b.args[0], st))))
        if isinstance(b, App) and b.op == ".items":
            k = Elem(strip(b.args[0]), st.depth.get(strip(b.args[0]), 0))
            return Seq("tuple", (One(k), One(App("item", (strip(b.args[0]), k)))))
        if isinstance(b, App) and b.op == ".keys":
            return Elem(strip(b.args[0]), st.depth.get(strip(b.args[0]), 0))
        if isinstance(b, App) and b.op == ".values":
            k = Elem(strip(b.args[0]), st.depth.get(strip(b.args[0]), 0))
            return App("item", (strip(b.args[0]), k))
        return Elem(b, st.depth.get(b, 0))

    def c_exists(self, src, guards, st):
        """There is an element of src for which all the guards hold."""
        src = strip(self.fz(src, st))
        if isinstance(src, App) and src.op == ".keys":
            src = strip(src.args[0])
        g = []
        for c, b in guards:
            if isinstance(c, App) and c.op == "not":
                c, b = c.args[0], not b
            if isinstance(c, Const):
                if bool(c.v) != b:
                    return FALSE
                continue
            if isinstance(c, App) and (c.op == "and" and b or c.op == "or" and not b):
                g.extend((x.args[0], not b) if isinstance(x, App) and x.op == "not" else (x, b) for x in c.args)
                continue
            g.append((c, b))
        if not g:
            return self.c_card(src, {1, 2}, st)
        if len(g) == 1 and g[0][1] and isinstance(g[0][0], App) and g[0][0].op == "eq":
            e = self.elem(src, st)
            for x, y in (g[0][0].args, g[0][0].args[::-1]):
                if x == e and e not in set(walk(y)):
                    return App("in", (y, src))
        if len(g) == 1 and isinstance(g[0][0], App) and (g[0][0].op == "or" and g[0][1] or g[0][0].op == "and" and not g[0][1]):
            return self.c_or([self.c_exists(src, ((x, g[0][1]),), st) for x in g[0][0].args])
        return App("exists", (src, frozenset(g)))

    def c_in(self, a, b, st):
        b0 = b
        b = self.res(strip(b), st)
        fa = strip(self.fz(self.res(a, st), st), True)
        if isinstance(b, App) and b.op == "|":
            return self.c_or([self.c_in(a, x, st) for x in b.args])
        if isinstance(b, App) and b.op == "&":
            return self.c_and([self.c_in(a, x, st) for x in b.args])
        if isinstance(b, App) and b.op == "-":
            return self.c_and([self.c_in(a, b.args[0], st), self.c_not(self.c_in(a, b.args[1], st))])
        if isinstance(b, App) and b.op == ".keys":
            return self.c_in(a, b.args[0], st)
        if isinstance(b, App) and b.op == ".values":
            d = strip(b.args[0])
            return self.c_exists(d, ((self.c_eq(a, App("item", (d, Elem(d, 0))), st), True),), st)
        if isinstance(b, Const) and isinstance(b.v, str) and isinstance(fa, Const):
            return Const(fa.v in b.v)
        if isinstance(b, Cls) and b.c.is_enum:
            return Const(isinstance(fa, Enum_) and fa.cls is b.c) if isinstance(fa, (Enum_, Const)) else App("in", (fa, b))
        parts = self.parts_of(b, st)
        if parts is None:
            return App("in", (fa, strip(self.fz(b, st))))
        ones = [p for p in parts if isinstance(p, One)]
        cs = []
        big = len(ones) > 6 and not isinstance(fa, (Const, Enum_))
        if big and all(isinstance(self.c_eq(a, p.v.k if isinstance(p.v, Pair) else p.v, st), Const) for p in ones):
            big = False
        if big:
            cs.append(App("in", (fa, Seq("set", tuple(One(x) for x in sorted(self.fz(p.v.k if isinstance(p.v, Pair) else p.v, st) for p in ones))))))
        for p in parts:
            if isinstance(p, One):
                if not big:
                    v = p.v.k if isinstance(p.v, Pair) else p.v
                    cs.append(self.c_eq(a, v, st))
            elif isinstance(p, Spread):
                if isinstance(fa, Elem) and fa.src == strip(p.src):
                    return TRUE
                if isinstance(p.src, Seq):
                    cs.append(self.c_in(a, p.src, st))
                else:
                    cs.append(App("in", (fa, strip(p.src))))
            elif isinstance(p, Each):
                for g, ps in p.alts:
                    for q in ps:
                        if isinstance(q, Spread):
                            cs.append(App("exists", (strip(p.src), frozenset(tuple(g) + ((App("in", (fa, strip(q.src))), True),)))))
                            continue
                        if not isinstance(q, One):
                            return App("in", (fa, self.fz(b, st)))
                        v = q.v.k if isinstance(q.v, Pair) else q.v
                        cs.append(self.c_exists(p.src, tuple(g) + ((self.c_eq(a, v, st), True),), st))
            else:
                cs.append(App("in", (fa, p)))
        return self.c_or(cs)

    def c_isnone(self, v, st):
        v = self.res(v, st)
        if isinstance(v, Const):
            return Const(v.v is None)
        if isinstance(v, (Seq, Ref, New, Cls, Fn, Fmt, Enum_, ExcV, Mod, Slot, Meth, Partial)):
            return FALSE
        if isinstance(v, App) and v.op in (WRAP | BOOL_OPS | {"len", "str", "hash", "|", "&", "zip", "enumerate", "type"}):
            return FALSE
        t = self.type_of(v, None)
        if t and (t[0] == "inst" and t[2] or isinstance(v, Sym) and t[0] in ("inst", "py", "coll", "map")):
            return FALSE
        return App("isnone", (v,))

    def c_typeis(self, v, k, st):
        t = self.type_of(v, st)
        if t and t[0] == "inst":
            if t[2]:
                return Const(t[1] is k)
            if isinstance(k, ClassInfo) and not k.is_subclass(t[1]):
                return FALSE
        if t and t[0] == "py" and isinstance(k, ClassInfo):
            return FALSE
        return App("typeis", (self.fz(v, st), Cls(k) if isinstance(k, ClassInfo) else Ext(k)))

    def c_isinst(self, v, k, st):
        """k: ClassInfo | external dotted name."""
        v = self.res(v, st)
        t = self.type_of(v, st)
        last = k.split(".")[-1] if isinstance(k, str) else None
        if isinstance(v, Const):
            if isinstance(k, ClassInfo):
                return FALSE
            py = getattr(builtins, last, None)
            if isinstance(py, type):
                return Const(isinstance(v.v, py))
        if t and t[0] == "union":
            res = set()
            for m in t[1]:
                y = Sym("member", m)
                if any(not b and c.op == "isinst" and c.args[0] == v and self.c_isinst(y, c.args[1].c if isinstance(c.args[1], Cls) else c.args[1].name, st) == TRUE
                       for c, b in st.atoms.items() if isinstance(c, App) and c.op == "isinst" and isinstance(c.args[1], (Cls, Ext))):
                    continue
                res.add(self.c_isinst(y, k, st))
            if len(res) == 1 and res <= {TRUE, FALSE}:
                return res.pop()
        if t and t[0] == "inst":
            if isinstance(k, ClassInfo):
                if t[1].is_subclass(k):
                    return TRUE
                if t[2] or not any(k in s.mro() for s in self.prog.subclasses(t[1])):
                    return FALSE
            else:
                if last == "object" or t[1].is_subclass(last) or t[1].is_subclass(k):
                    return TRUE
                if last in ("str", "int", "float", "list", "dict", "tuple", "set", "frozenset", "bool"):
                    return FALSE
        if t and t[0] == "py":
            if isinstance(k, ClassInfo):
                return FALSE
            if last == t[1] or last == "object":
                return TRUE
            if last in ("str", "int", "float", "list", "dict", "tuple", "set", "frozenset", "bool", "Mapping", "Set", "AbstractSet") and not (t[1] == "bool" and last == "int"):
                return FALSE
        if t and t[0] in ("coll", "map"):
            if isinstance(k, ClassInfo) or last in ("str", "int", "float", "bool"):
                return FALSE
            kind = {"list": "list", "tuple": "tuple", "frozenset": "frozenset", "set": "set", "dict": "dict"}
            if isinstance(v, Ref):
                if last in kind:
                    return Const(st.heap[v.id].kind == last)
                if last in ("AbstractSet", "Set"):
                    return Const(st.heap[v.id].kind == "set")
            if isinstance(v, Seq):
                if last in kind:
                    return Const(v.kind == last)
                if last in ("AbstractSet", "Set"):
                    return Const(v.kind in ("set", "frozenset"))
            if last in ("Iterable", "Collection"):
                return TRUE
            if t[0] == "coll" and t[1] == "set" and last in ("AbstractSet", "Set"):
                return TRUE
            if t[0] == "map" and last in ("dict", "Mapping"):
                return TRUE
        if isinstance(v, ExcV):
            return Const(self.exc_matches(v, k))
        return App("isinst", (self.fz(v, st), Cls(k) if isinstance(k, ClassInfo) else Ext(last)))

    # -- facts -------------------------------------------------------------------
    def decide(self, c, st):
        if isinstance(c, Const):
            return bool(c.v)
        if c.op == "not":
            r = self.decide(c.args[0], st)
            return None if r is None else not r
        if c.op in ("and", "or"):
            rs = [self.decide(x, st) for x in c.args]
            if c.op == "and":
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if c in st.atoms:
            return st.atoms[c]
        if c.op == "card":
            cur = st.cards.get(c.args[0], CARD_ALL)
            if cur <= c.args[1]:
                return True
            if not (cur & c.args[1]):
                return False
            return None
        if c.op == "truthy":
            if st.atoms.get(App("isnone", c.args)) is True:
                return False
            cur = st.cards.get(strip(c.args[0]))
            if cur is not None:
                if 0 not in cur:
                    return True
                if cur == {0}:
                    return False
        if c.op == "isnone":
            if st.atoms.get(App("truthy", c.args)) is True:
                return False
            if 0 not in st.cards.get(strip(c.args[0]), CARD_ALL):
                return False
            for k, b in st.atoms.items():
                if b and k.op in ("isinst", "typeis") and k.args[0] == c.args[0]:
                    return False
                if b and k.op == "eq" and c.args[0] in k.args and any(isinstance(x, (Const, Enum_)) and x != NONE for x in k.args):
                    return False
        if c.op in ("isinst", "typeis"):
            k = c.args[1]
            for f, b in st.atoms.items():
                if f.op not in ("isinst", "typeis") or f.args[0] != c.args[0]:
                    continue
                k2 = f.args[1]
                if not (isinstance(k, Cls) and isinstance(k2, Cls)):
                    if b and isinstance(k, Cls) != isinstance(k2, Cls):
                        e = k if isinstance(k, Ext) else k2
                        if e.name in ("str", "int", "float", "list", "dict", "tuple", "set", "frozenset", "bool", "NoneType"):
                            return False
                    continue
                if b:
                    if c.op == "isinst" and k2.c.is_subclass(k.c):
                        return True
                    if not k.c.is_subclass(k2.c) and not k2.c.is_subclass(k.c) and not any(k.c in s.mro() and k2.c in s.mro() for s in self.prog.classes.values()):
                        return False
                    if f.op == "typeis" and not k2.c.is_subclass(k.c):
                        return False
                else:
                    if f.op == "isinst" and k.c.is_subclass(k2.c):
                        return False
            if st.atoms.get(App("isnone", (c.args[0],))) is True:
                return False
        if c.op == "eq":
            a, b = c.args
            lits = (Const, Enum_, Cls)
            for x, y in ((a, b), (b, a)):
                if isinstance(y, lits):
                    if st.atoms.get(App("isnone", (x,))) is True:
                        return y == NONE
                    for f, t in st.atoms.items():
                        if t and f.op == "eq" and x in f.args:
                            o = f.args[0] if f.args[1] == x else f.args[1]
                            if isinstance(o, lits) and o != y:
                                return False
                        if t and f.op == "in" and f.args[0] == x and isinstance(f.args[1], Seq) and all(isinstance(p, One) and isinstance(p.v, lits) for p in f.args[1].parts):
                            if One(y) not in f.args[1].parts:
                                return False
        if c.op in ("in", "exists"):
            if st.cards.get(strip(c.args[1] if c.op == "in" else c.args[0])) == {0}:
                return False
        if c.op == "in" and isinstance(c.args[0], Elem) and c.args[0].src == c.args[1]:
            return True
        return None

    def assume(self, c, val, st):
        """States in which c has truth value val (c and st are not modified)."""
        if isinstance(c, Const):
            return [st] if bool(c.v) == val else []
        if c.op == "not":
            return self.assume(c.args[0], not val, st)
        if c.op in ("and", "or"):
            want = c.op == "and"
            if val == want:
                sts = [st]
                for x in c.args:
                    sts = [s2 for s in sts for s2 in self.assume(x, val, s)]
                return sts
            out, sts = [], [st]
            for x in c.args:
                nxt = []
                for s in sts:
                    out.extend(self.assume(x, val, s))
                    nxt.extend(self.assume(x, not val, s))
                sts = nxt
            return out
        d = self.decide(c, st)
        if d is not None:
            return [st] if d == val else []
        s = st.clone()
        s.log = s.log + ((c, val),)
        if c.op == "card":
            cur = s.cards.get(c.args[0], CARD_ALL)
            s.cards[c.args[0]] = cur & c.args[1] if val else cur - c.args[1]
        else:
            s.atoms[c] = val
            if c.op == "in" and val:
                k = strip(c.args[1])
                s.cards[k] = s.cards.get(k, CARD_ALL) - {0}
            if c.op == "exists" and val:
                s.cards[c.args[0]] = s.cards.get(c.args[0], CARD_ALL) - {0}
            if c.op == "truthy" and not val and isinstance(self.type_of(c.args[0], s), tuple) and self.type_of(c.args[0], s)[0] in ("coll", "map"):
                s.cards[strip(c.args[0])] = frozenset({0})
        self.nstates += 1
        if self.nstates > self.max_states:
            raise Undecided("too many abstract states")
        return [s]

    def cond_of(self, v, st):
        """The truth value of v as a condition."""
        v = self.res(v, st)
        if isinstance(v, Const):
            return Const(bool(v.v))
        if isinstance(v, App):
            if v.op in BOOL_OPS or v.op in ("lenp", "subset"):
                return v
            if v.op == "&":
                a, b = v.args
                for x, y in ((a, b), (b, a)):
                    ps = self.parts_of(x, st)
                    if ps is not None and all(isinstance(p, One) for p in ps):
                        return self.c_or([self.c_in(p.v, y, st) for p in ps])
                return App("exists", (strip(a), frozenset({(App("in", (Elem(strip(a), 0), strip(b))), True)})))
            if v.op == "|":
                return self.c_or([self.cond_of(x, st) for x in v.args])
            if v.op == "-" and self._is_set(self.type_of(v, st)):
                return self.c_not(self.c_subset(v.args[0], v.args[1], st))
            if v.op in WRAP and v.op != "name":
                return self.c_card(v, {1, 2}, st)
            if v.op in ("isect", ".intersection"):
                return self.cond_of(App("&", v.args), st)
        if isinstance(v, (Cls, Fn, Enum_, Mod, Ext, ExcV, Meth, Partial)):
            return TRUE
        if isinstance(v, Fmt):
            return TRUE if any(isinstance(p, str) and p for p in v.parts) else App("truthy", (v,))
        if isinstance(v, Idx):
            return self.c_not(App("first", (v.src,)))
        if isinstance(v, (Seq,)):
            return self.parts_truth(v.parts, v, st)
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if isinstance(h, HSeq):
                return self.parts_truth(h.parts, v, st)
            if h.cls.find("__bool__") or h.cls.find("__len__"):
                raise Undecided("truth value of %s" % h.cls.name)
            return TRUE
        t = self.type_of(v, st)
        if t and t[0] == "inst" and not any(s.find("__bool__") or s.find("__len__") for s in self.prog.subclasses(t[1])):
            return self.c_not(self.c_isnone(v, st))
        if t and t[0] == "opt" and t[1] and t[1][0] == "inst" and not any(s.find("__bool__") or s.find("__len__") for s in self.prog.subclasses(t[1][1])):
            return self.c_not(self.c_isnone(v, st))
        if t and t[0] in ("coll", "map"):
            return self.c_card(v, {1, 2}, st)
        return App("truthy", (self.fz(v, st),))

    def parts_truth(self, parts, v, st):
        lo, hi = nlen(parts)
        if lo > 0:
            return TRUE
        if not parts:
            return FALSE
        cs = []
        for p in parts:
            if isinstance(p, Spread):
                cs.append(self.c_card(p.src, {1, 2}, st))
            elif isinstance(p, Each):
                for g, ps in p.alts:
                    if ps:
                        cs.append(self.c_exists(p.src, g, st))
            else:
                return App("truthy", (self.fz(v, st),))
        return self.c_or(cs)

    def truth(self, v, st):
        """[(state, bool)] for the truth value of v."""
        c = self.cond_of(v, st)
        d = self.decide(c, st)
        if d is not None:
            return [(st, d)]
        return [(s, True) for s in self.assume(c, True, st)] + [(s, False) for s in self.assume(c, False, st)]
