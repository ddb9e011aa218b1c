"""Abstract interpreter: value-provenance dataflow over the syntax tree, with function inlining and
summarised iteration.  It never runs the analysed code and uses no solver: conditions are canonical terms,
facts are looked up syntactically."""
import ast
import builtins

from .builtins_ import Builtins
from .callext import CallExt
from .callmeth import CallMeth
from .conds import *
from .program import AnalysisError, FuncInfo, Program, walk_own


NUMBERS = {"math.inf": float("inf"), "math.pi": 3.141592653589793, "math.e": 2.718281828459045, "sys.float_info.max": 1.7976931348623157e308}


def external(name):
    return Const(NUMBERS[name]) if name in NUMBERS else Ext(name)


class Interp(Conds, Builtins, CallExt, CallMeth):
    recursion = 1       # a function that is already under way is called this often before its calls stay as they are
    backwards = False   # frozen sets list their members the other way round

    def __init__(self, prog, opaque=(), max_states=20000, max_depth=40, no_inline=None):
        self.prog = prog
        self.opaque = set(opaque)       # qualified names of functions that are not entered
        self.attr_types = {}            # (value, attribute) -> type known to the caller
        self.no_inline = no_inline      # predicate on FuncInfo
        self.max_states, self.max_depth = max_states, max_depth
        self.nstates = 0
        self.stack = []                 # (FuncInfo, key)
        self.ctx = []                   # class context for super()
        self.next_id = 0
        self.visited = set()            # functions interpreted
        self.sites = set()              # call sites interpreted
        self._exprcache = {}

    # -- utilities ---------------------------------------------------------------
    def res(self, v, st):
        return v

    def alloc(self, st, obj):
        self.next_id += 1
        st.heap[self.next_id] = obj
        return Ref(self.next_id)

    def fz(self, v, st, _d=0):
        """Freeze: replace heap references by their content."""
        if _d > 30:
            return App("deep", ())
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if h is None:
                return v
            if isinstance(h, HInst):
                return New(h.cls, tuple(sorted((self.prog.canon(k), self.fz(x, st, _d + 1)) for k, x in h.fields.items())))
            parts = tuple(self.fz(p, st, _d + 1) for p in h.parts)
            if h.kind == "set":
                parts = tuple(sorted(set(parts), reverse=self.backwards))
            return self._mkseq(h.kind, parts)
        if isinstance(v, (Const, Enum_, Cls, Fn, Mod, Ext, Sym)):
            return v
        if isinstance(v, Seq):
            parts = tuple(self.fz(p, st, _d) for p in v.parts)
            if v.kind == "frozenset":
                parts = tuple(sorted(set(parts), reverse=self.backwards))
            return self._mkseq(v.kind, parts)
        if isinstance(v, V):
            return type(v)(*(self.fz(getattr(v, f), st, _d) for f in type(v).FIELDS))
        if isinstance(v, tuple):
            return tuple(self.fz(x, st, _d) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self.fz(x, st, _d) for x in v)
        return v

    def _mkseq(self, kind, parts):
        return Seq(kind, parts)

    def parts_of(self, v, st):
        """Parts of an iterable value with known structure, else None."""
        if isinstance(v, Seq):
            return v.parts
        if isinstance(v, Ref):
            h = st.heap[v.id]
            return h.parts if isinstance(h, HSeq) else None
        if isinstance(v, App) and v.op in WRAP and v.op != "name" and v.args:
            inner = v.args[0]
            ps = self.parts_of(inner, st)
            if ps is None:
                return None
            if v.op in ("sorted", "reversed"):
                return self.wrap_parts(v.op, ps, v, st)
            return ps
        if isinstance(v, Cls) and v.c.is_enum:
            return tuple(One(Enum_(v.c, n)) for n in v.c.order)
        if isinstance(v, Slot):
            ps = self.parts_of(v.ref, st)
            return self.group_parts(ps, v.k, st) if ps is not None else None
        if isinstance(v, Grp):
            return (Each(App("grp", (v.v, v.k)), (((), (One(v.v),)),)),)
        return None

    def wrap_parts(self, op, ps, v, st):
        out = []
        if len(ps) == 1:
            p = ps[0]
            if isinstance(p, Spread):
                return (Spread(App(op, (strip(p.src),) if op == "sorted" and len(v.args) == 1 else (p.src,) + tuple(v.args[1:]))),)
            if isinstance(p, Each):
                return (Each(App(op, (p.src,) + tuple(v.args[1:] if op == "sorted" else ())), p.alts),)
            return ps
        if all(isinstance(p, One) for p in ps):
            if op == "reversed":
                return tuple(reversed(ps))
            if all(isinstance(p.v, Const) for p in ps) and len(v.args) == 1:
                try:
                    return tuple(One(Const(x)) for x in sorted(p.v.v for p in ps))
                except TypeError:
                    pass
        if not ps:
            return ()
        return (Spread(App(op, (Seq("list", tuple(self.fz(p, st) for p in ps)),))),)

    def iter_parts(self, v, st):
        ps = self.parts_of(v, st)
        if ps is not None:
            kind = self.kind_of(v, st)
            if kind == "dict":
                return self.distinct(self.keys_of(ps), st, "unique")
            return self.distinct(ps, st) if kind in ("set", "frozenset") else ps
        if isinstance(v, Const) and isinstance(v.v, str):
            return tuple(One(Const(c)) for c in v.v)
        return (Spread(self.fz(v, st)),)

    def distinct(self, ps, st, op="set"):
        """The elements of a set or dict built from sequences: repetitions are gone, and so is the order of a set."""
        out = []
        for p in ps:
            if isinstance(p, (Spread, Each)) and not (isinstance(p.src, App) and p.src.op in ("set", "frozenset", "permuted", ".keys", ".items", op)):
                t = self.type_of(strip(p.src), st)
                if t and t[0] == "opt":
                    t = t[1]
                if t and t[0] == "coll" and t[1] == "seq":
                    p = Spread(App(op, (p.src,))) if isinstance(p, Spread) else Each(App(op, (p.src,)), p.alts)
            out.append(p)
        return tuple(out)

    def event(self, st, kind, name, args, node=None):
        fn = self.stack[-1][0] if self.stack else None
        st.events = st.events + (Event(kind, name, tuple(self.fz(a, st) for a in args), node, fn),)

    def undecided(self, msg, node=None):
        raise Undecided(msg, node, self.stack[-1][0] if self.stack else None)

    # -- entry points --------------------------------------------------------------
    def run(self, f, args, kwargs=None, self_=None, st=None):
        """Interpret function f; returns [(state, 'ret'|'exc', value)]."""
        st = st or State()
        self.nstates = 0
        out = []
        for s, r in self.call_func(f, self_, list(args), dict(kwargs or {}), st, None):
            out.append((s, "exc", r) if isinstance(r, Exc) else (s, "ret", r))
        return out

    # -- calls -----------------------------------------------------------------------
    def bind(self, f, args, kwargs, st, module_env):
        """Bind arguments; returns [(st, locals)] or Exc."""
        a = f.node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        parts = list(args)  # list of One/Spread-like parts
        i = 0
        spread_tail = None
        for p in pos:
            if i < len(parts):
                if isinstance(parts[i], One):
                    loc[p] = parts[i].v
                    i += 1
                    continue
                # positional parameter taken from a spread: item of the spread
                self.undecided("positional parameter %s bound from an unknown sequence" % p, f.node)
            if p in kwargs:
                loc[p] = kwargs.pop(p)
        rest = parts[i:]
        if a.vararg:
            loc[a.vararg.arg] = Seq("tuple", tuple(rest))
            rest = []
        if rest:
            if all(isinstance(r, Spread) for r in rest):
                self.undecided("too many arguments (unknown)", f.node)
            return Exc(ExcV("TypeError", (Const("too many arguments for %s" % f.qualname),)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
        if a.kwarg:
            parts = tuple(One(Pair(Const(k) if isinstance(k, str) else k, v)) for k, v in kwargs.items())
            loc[a.kwarg.arg] = self.alloc(st, HSeq("dict", parts))
            kwargs = {}
        if kwargs:
            return Exc(ExcV("TypeError", (Const("unexpected keyword %s for %s" % (sorted(map(str, kwargs)), f.qualname)),)))
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in loc:
                if p not in defaults:
                    return Exc(ExcV("TypeError", (Const("missing argument %s of %s" % (p, f.qualname)),)))
                loc[p] = self.eval_in(defaults[p], f.module, f.cls, st)
        return loc

    def eval_in(self, node, module, cls, st):
        """Evaluate a module/class level expression (deterministic, no forking)."""
        fi = FuncInfo("<expr>", module.name + ".<expr>", ast.Lambda(args=_noargs(), body=node), module, cls)
        fi.node.lineno = getattr(node, "lineno", 0)
        saved = st.locals
        st.locals = dict(self.class_env(cls)) if cls is not None else {}
        self.stack.append((fi, None))
        try:
            r = self.ev(node, st)
        finally:
            self.stack.pop()
            st.locals = saved
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Undecided("module-level expression is not deterministic in %s" % module.name)
        s, v = r[0]
        if s is not st:
            st.heap, st.events = s.heap, s.events
        return v

    def class_env(self, cls):
        return {}

    def call_func(self, f, self_, args, kwargs, st, node, env=None):
        """args: list of values or One/Spread/Each parts. Returns [(st, value|Exc)]."""
        parts = [a if isinstance(a, (One, Spread, Each, AccP)) else One(a) for a in args]
        if self_ is not None:
            parts = [One(self_)] + parts
        if f.qualname in self.opaque or (self.no_inline and self.no_inline(f)):
            return [self.opaque_call(f, parts, kwargs, st, node)]
        depth = sum(1 for g, _ in self.stack if g is f)
        if depth >= self.recursion and f.name not in ("<lambda>", "<expr>", "__init__", "__new__", "__call__") or depth >= max(4, self.recursion) or len(self.stack) > self.max_depth:
            return [self.opaque_call(f, parts, kwargs, st, node)]
        self.visited.add(f.qualname)
        s0 = st.clone()
        loc = self.bind(f, parts, dict(kwargs), s0, None)
        if isinstance(loc, Exc):
            loc.node, loc.fn = node, self.stack[-1][0] if self.stack else None
            return [(st, loc)]
        s0.locals = dict(env or {})
        s0.locals.update(loc)
        self.stack.append((f, None))
        try:
            if isinstance(f.node, ast.Lambda):
                res = [(s, v if isinstance(v, Exc) else ("ret", v)) for s, v in self.ev(f.node.body, s0)]
            elif f.is_generator:
                s0.locals["$yield"] = self.alloc(s0, HSeq("list", ()))
                res = []
                for s, c in self.block(f.node.body, s0):
                    if isinstance(c, Exc):
                        res.append((s, c))
                    else:
                        res.append((s, ("ret", Seq("gen", s.heap[s.locals["$yield"].id].parts))))
            else:
                res = self.block(f.node.body, s0)
        finally:
            self.stack.pop()
        out = []
        for s, c in res:
            s2 = s.clone()
            s2.locals = dict(st.locals)
            if isinstance(c, Exc):
                out.append((s2, c))
            elif c is None:
                out.append((s2, NONE))
            elif c[0] == "ret":
                out.append((s2, c[1]))
            else:
                self.undecided("break/continue outside of a loop")
        return out

    def opaque_call(self, f, parts, kwargs, st, node):
        s = st.clone()
        fp = tuple(self.fz(p.v, s) if isinstance(p, One) else self.fz(p, s) for p in parts)
        kw = tuple(sorted((k, self.fz(v, s)) for k, v in kwargs.items()))
        # normalise keyword arguments to positions
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if kw and not any(isinstance(p, (Spread, Each)) for p in parts):
            kd = dict(kw)
            fpl = list(fp)
            for n in names[len(fpl):]:
                if n in kd:
                    fpl.append(kd.pop(n))
                else:
                    break
            fp, kw = tuple(fpl), tuple(sorted(kd.items()))
        args = fp + tuple(Pair(Const(k), v) for k, v in kw)
        self.event(s, "call", f.qualname, args, node)
        return s, App("call", (Fn(f, None, None),) + args)

    def call(self, fv, args, kwargs, st, node):
        """Call value fv. args: parts. Returns [(st, value|Exc)]."""
        parts = [a if isinstance(a, (One, Spread, Each, AccP)) else One(a) for a in args]
        if node is not None and self.stack:
            self.sites.add((self.stack[-1][0].qualname, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        if isinstance(fv, Fn):
            return self.call_fn(fv, parts, kwargs, st, node)
        if isinstance(fv, Cls):
            return self.instantiate(fv.c, parts, kwargs, st, node)
        if isinstance(fv, Partial):
            kw = dict(fv.kwargs)
            kw.update(kwargs)
            return self.call(fv.fn, list(fv.args) + parts, kw, st, node)
        if isinstance(fv, Ext):
            return self.call_ext(fv.name, parts, kwargs, st, node)
        if isinstance(fv, Meth):
            return self.call_meth(fv.recv, fv.name, parts, kwargs, st, node)
        if isinstance(fv, App) and fv.op == "type" and True:
            return [(st, self.opaque_new(App("newtype", (fv.args[0],)), parts, kwargs, st))]
        if isinstance(fv, Ref) and isinstance(st.heap[fv.id], HInst):
            m = st.heap[fv.id].cls.find("__call__")
            if m and m[1] == "method":
                return self.call_func(m[2], fv, parts, kwargs, st, node)
        t = self.type_of(fv, st)
        if t and t[0] == "inst":
            m = t[1].find("__call__")
            if m and m[1] == "method":
                return self.call_func(m[2], fv, parts, kwargs, st, node)
        s = st.clone()
        a = tuple(self.fz(p.v, s) if isinstance(p, One) else self.fz(p, s) for p in parts) + tuple(Pair(Const(k), self.fz(v, s)) for k, v in sorted(kwargs.items()))
        self.event(s, "callv", self.fz(fv, s), a, node)
        return [(s, App("callv", (self.fz(fv, s),) + a))]

    def opaque_new(self, head, parts, kwargs, st):
        a = tuple(self.fz(p.v, st) if isinstance(p, One) else self.fz(p, st) for p in parts) + tuple(Pair(Const(k), self.fz(v, st)) for k, v in sorted(kwargs.items()))
        return App("apply", (head,) + a)

    def call_fn(self, fv, parts, kwargs, st, node):
        f = fv.f
        if f.kind == "generic":
            return self.call_generic(fv, parts, kwargs, st, node)
        return self.call_func(f, fv.self_, parts, kwargs, st, node, env=dict(fv.env) if fv.env else None)

    def registered(self, f):
        """[(class|ext name|None, FuncInfo)] implementations of a single-dispatch generic."""
        regs = [f2 for f2 in (f.cls.functions if f.cls else f.module.generics.get(f.name, [])) if f2.generic_of and f2.generic_of.split(".")[-1] == f.name]
        out = []
        for r in regs:
            ann = None
            for d in r.node.decorator_list:
                if isinstance(d, ast.Call) and d.args:
                    ann = d.args[0]
            if ann is None:
                params = r.node.args.posonlyargs + r.node.args.args
                k = 1 if r.cls is not None else 0
                if len(params) > k:
                    ann = params[k].annotation
            c = self.prog.resolve_expr_class(r.module, ann) if ann is not None else None
            if c is None and isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                c = self.prog.resolve_expr_class(r.module, ast.parse(ann.value, mode="eval").body)
            out.append((c, r))
        return out

    def dispatch(self, f, cls):
        """Implementation of generic f for a value of exact class cls (ClassInfo or external kind)."""
        regs = self.registered(f)
        if isinstance(cls, ClassInfo):
            for k in cls.mro():
                for c, r in reversed(regs):
                    if c is not None and (c is k or (not isinstance(k, ClassInfo) and not isinstance(c, ClassInfo) and str(c).split(".")[-1] == str(k).split(".")[-1])):
                        return r
            return f
        for c, r in reversed(regs):
            if c is not None and not isinstance(c, ClassInfo) and str(c).split(".")[-1] == cls:
                return r
        if cls in ("list", "tuple", "set", "frozenset", "dict", "coll", "gen", "str"):
            for want in ("Sequence", "Collection", "Iterable", "AbstractSet", "Set"):
                for c, r in regs:
                    if c is not None and not isinstance(c, ClassInfo) and str(c).split(".")[-1] == want:
                        return r
        return f

    def call_generic(self, fv, parts, kwargs, st, node):
        f = fv.f
        if f.qualname in self.opaque or sum(1 for g, _ in self.stack if g is f or (g.generic_of and g.generic_of.split(".")[-1] == f.name and g.cls is f.cls)) >= self.recursion:
            return [self.opaque_call(f, ([One(fv.self_)] if fv.self_ is not None else []) + parts, kwargs, st, node)]
        if not parts or not isinstance(parts[0], One):
            self.undecided("dispatch on unknown argument", node)
        v = parts[0].v
        t = self.type_of(v, st)
        impl = None
        if t and t[0] == "inst":
            impls = {id(self.dispatch(f, s)): self.dispatch(f, s) for s in ([t[1]] if t[2] else self.prog.subclasses(t[1]))}
            if len(impls) == 1:
                impl = next(iter(impls.values()))
        elif t and t[0] in ("coll", "map"):
            impl = self.dispatch(f, "coll")
        elif t and t[0] == "py":
            impl = self.dispatch(f, t[1])
        if impl is None:
            return [self.opaque_call(f, ([One(fv.self_)] if fv.self_ is not None else []) + parts, kwargs, st, node)]
        return self.call_func(impl, fv.self_, parts, kwargs, st, node)

    # -- instantiation -----------------------------------------------------------------
    def instantiate(self, c, parts, kwargs, st, node, skip_meta=False):
        if c.is_enum:
            a = self.fz(parts[0].v, st) if parts and isinstance(parts[0], One) else App("?", ())
            if isinstance(a, Const):
                for m in c.attrs:
                    if m.startswith("_"):
                        continue
                    for _, v in self.enum_attr(Enum_(c, m), "value", st, node):
                        if not isinstance(v, Const):
                            return [(st, App("enum", (Cls(c), a)))]
                        if v == a:
                            return [(st, Enum_(c, m))]
                return [(st, Exc(ExcV("ValueError", (a,))))]
            return [(st, App("enum", (Cls(c), a)))]
        if any(x.endswith(("Exception", "Error")) for x in ext_ancestors(c)):
            return [(st, ExcV(c, tuple(self.fz(p.v, st) if isinstance(p, One) else self.fz(p, st) for p in parts) + tuple(self.fz(v, st) for v in kwargs.values())))]
        if any(x == "str" for x in ext_ancestors(c)):
            s = st.clone()
            self.event(s, "new", c.qualname, [p.v for p in parts if isinstance(p, One)], node)
            v = parts[0].v if parts and isinstance(parts[0], One) else App("?", ())
            fzv = self.fz(v, s)
            if isinstance(fzv, App) and fzv.op == "name":
                return [(s, fzv)]
            return [(s, App("name", (fzv,)))]
        if any(x == "type" for x in ext_ancestors(c)):
            self.undecided("dynamic class creation", node)
        meta = c.meta()
        if isinstance(meta, ClassInfo) and not skip_meta and meta.find("__call__"):
            r = self.meta_call(c, meta, parts, kwargs, st, node)
            if r is not None:
                return r
        init = c.find("__init__")
        s = st.clone()
        obj = self.alloc(s, HInst(c, {}))
        if init is None or init[1] != "method":
            return [(s, obj)]
        if init[2].qualname in self.opaque or (self.no_inline and self.no_inline(init[2])):
            # only the arguments are recorded
            names = [a.arg for a in init[2].node.args.args][1:]
            fields = {}
            for n, p in enumerate(parts):
                fields["arg:%s" % (names[n] if isinstance(p, One) and n < len(names) else "*%d" % n)] = p.v if isinstance(p, One) else self.fz(p, s)
            for k, v in kwargs.items():
                fields["arg:%s" % k] = v
            self.event(s, "new", c.qualname, [self.fz(v, s) for v in fields.values()], node)
            return [(s, New(c, tuple(sorted((k, self.fz(v, s)) for k, v in fields.items()))))]
        out = []
        for s2, r in self.call_func(init[2], obj, parts, dict(kwargs), s, node):
            out.append((s2, r if isinstance(r, Exc) else obj))
        return out

    def meta_call(self, c, meta, parts, kwargs, st, node):
        """Constructor of a class whose metaclass overrides __call__: an uninterpreted, class-labelled term."""
        s = st.clone()
        ops = tuple(self.fz(p, s) for p in parts)
        obj = New(c, (("operands", Seq("tuple", ops)), ("simplified", TRUE)))
        self.event(s, "new", c.qualname, [p.v if isinstance(p, One) else p for p in parts], node)
        return [(s, obj)]

    def exc_matches(self, exc, k):
        c = exc.cls
        last = k.split(".")[-1] if isinstance(k, str) else None
        if isinstance(c, ClassInfo):
            if isinstance(k, ClassInfo):
                return k in c.mro()
            return last in [x.split(".")[-1] for x in ext_ancestors(c)]
        if isinstance(k, ClassInfo):
            return False
        a = getattr(builtins, str(c).split(".")[-1], None)
        b = getattr(builtins, last, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if last in ("Exception", "BaseException"):
            return True
        return str(c).split(".")[-1] == last

    # -- names --------------------------------------------------------------------------
    def name(self, n, st, node=None):
        if n in st.locals:
            return st.locals[n]
        f = self.stack[-1][0]
        if f.name == "<expr>" and f.cls is not None and n in f.cls.attrs and f.cls.attrs[n] is not f.node.body:
            return self.class_attr_value(f.cls, n, st)
        return self.module_name(f.module, n, st, node)

    def module_name(self, module, n, st, node=None):
        r = self.prog.lookup(module, n)
        if r is None:
            if hasattr(builtins, n):
                return Ext("builtins." + n)
            if n == "__name__":
                return Const(module.name)
            self.undecided("unresolved name %s" % n, node)
        if r[0] == "func":
            return Fn(r[1], None, None)
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "mod":
            return Mod(r[1]) if r[1] in self.prog.modules else Ext(r[1])
        if r[0] == "ext":
            return external(r[1])
        if r[0] == "expr":
            key = (r[1].name, id(r[2]))
            if key not in self._exprcache:
                tmp = State()
                self._exprcache[key] = self.fz(self.eval_in(r[2], r[1], None, tmp), tmp)
            return self._exprcache[key]
        self.undecided("unresolved name %s" % n, node)

    # -- attributes ------------------------------------------------------------------------
    def getattr(self, base, attr, st, node=None):
        """[(st, value|Exc)]"""
        if isinstance(base, Mod):
            m = self.prog.modules[base.name]
            return [(st, self.module_name(m, attr, st, node))]
        if isinstance(base, Ext):
            return [(st, external(base.name + "." + attr))]
        if isinstance(base, Cls):
            return self.class_attr(base.c, attr, st, node)
        if isinstance(base, Enum_):
            return self.enum_attr(base, attr, st, node)
        if isinstance(base, Ref) and isinstance(st.heap[base.id], HInst):
            h = st.heap[base.id]
            if attr in h.fields:
                return [(st, h.fields[attr])]
            return self.inst_attr(base, h.cls, attr, st, node, exact=True)
        if isinstance(base, New):
            f = base.get(self.prog.canon(attr))
            m = base.cls.find(attr) if f is not None else None
            if f is not None and not (m and m[1] == "method" and (m[2].kind != "property" or attr in self.prog.field_to_public.values() and m[2].qualname not in self.prog.trivial)):
                return [(st, f)]
            return self.inst_attr(base, base.cls, attr, st, node, exact=True)
        if isinstance(base, ExcV):
            if attr == "args":
                return [(st, Seq("tuple", tuple(One(a) for a in base.args)))]
            return [(st, Attr(base, attr))]
        if isinstance(base, Const) and isinstance(base.v, str) and attr == "value":
            return [(st, base)]  # lark tokens
        if attr == "__class__":
            t = self.type_of(base, st)
            return [(st, Cls(t[1]) if t and t[0] == "inst" and t[2] else App("type", (self.fz(base, st),)))]
        if attr == "__dict__":
            return [(st, Attr(self.fz(base, st), "__dict__"))]
        if isinstance(base, (Const, Fmt, Ref, Seq, Slot, Fn, Partial)):
            if attr in ("__name__", "__qualname__") and isinstance(base, Fn):
                return [(st, Const(base.f.name))]
            return [(st, Meth(base, attr))]
        if isinstance(base, App) and base.op == "super":
            return self.super_attr(base, attr, st, node)
        t = self.type_of(base, st)
        b = self.fz(base, st)
        key = (b, self.prog.canon(attr))
        if key in st.over:
            return [(st, st.over[key])]
        if t and t[0] == "cls":
            return self.class_attr(t[1], attr, st, node)
        if t and t[0] == "inst":
            return self.inst_attr(base, t[1], attr, st, node, exact=t[2])
        if t and t[0] in ("py", "coll", "map", "opt") and not (t[0] == "opt" and t[1] and t[1][0] == "inst"):
            if attr == "value" and t == ("py", "str"):
                return [(st, base)]
            return [(st, Meth(base, attr))]
        if t and t[0] == "opt":
            return self.inst_attr(base, t[1][1], attr, st, node, exact=False)
        if isinstance(b, App) and (b.op in WRAP or b.op.startswith(".") or b.op in ("zip", "enumerate", "|", "&", "-", "len")):
            return [(st, Meth(base, attr))]
        return [(st, Attr(b, self.prog.canon(attr)))]

    def inst_attr(self, base, cls, attr, st, node, exact):
        b = self.fz(base, st) if not isinstance(base, Ref) else base
        key = (b, self.prog.canon(attr))
        if key in st.over:
            return [(st, st.over[key])]
        if attr == "__class__":
            return [(st, Cls(cls) if exact else App("type", (b,)))]
        r = cls.find(attr)
        if r is None:
            if attr.startswith("__") and attr.endswith("__") and attr != "__dict__":
                return [(st, Meth(base, attr))]
            if isinstance(base, Ref):
                if attr == "__dict__":
                    return [(st, Attr(b, attr))]
                return [(st, Exc(ExcV("AttributeError", (Const(attr),)), node, self.stack[-1][0] if self.stack else None))]
            ext = [x for x in cls.mro() if not isinstance(x, ClassInfo) and x not in ("object", "abc.ABC", "ABC")]
            if isinstance(base, New) and exact and not ext and not attr.startswith("_") and not cls.find("__getattr__"):
                return [(st, Exc(ExcV("AttributeError", (Const(attr),)), node, self.stack[-1][0] if self.stack else None))]
            a = Attr(b, self.prog.canon(attr))
            return [(st, a)]
        owner, kind, thing = r
        if kind == "attr":
            if not exact and any(attr in s.attrs or attr in s.methods for s in self.prog.subclasses(owner, strict=True)):
                return [(st, Attr(b, attr))]
            return [(st, self.class_attr_value(owner, attr, st))]
        if not exact:
            over = [s for s in self.prog.subclasses(cls, strict=True) if attr in s.methods]
            abstract = any(d.split(".")[-1] == "abstractmethod" for d in thing.decorators)
            if over or abstract:
                if thing.kind == "property":
                    return [(st, Attr(b, self.prog.canon(attr)))]
                return [(st, Meth(base, attr))]
        if thing.kind == "property":
            return self.call_func(thing, base, [], {}, st, node)
        if thing.kind == "classmethod":
            return [(st, Fn(thing, Cls(cls), None))]
        if thing.kind == "staticmethod":
            return [(st, Fn(thing, None, None))]
        return [(st, Fn(thing, base, None))]

    def class_attr_value(self, owner, attr, st):
        key = (owner.qualname, attr)
        if key not in self._exprcache:
            tmp = State()
            v = self.eval_class_expr(owner, owner.attrs[attr], tmp)
            self._exprcache[key] = self.fz(v, tmp)
        return self._exprcache[key]

    def eval_class_expr(self, owner, node, st):
        # names of the class body are visible
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in owner.attrs and owner.attrs[n.id] is not node:
                st.locals[n.id] = self.class_attr_value(owner, n.id, st)
        saved = dict(st.locals)
        fi = FuncInfo("<expr>", owner.qualname + ".<expr>", ast.Lambda(args=_noargs(), body=node), owner.module, owner)
        fi.node.lineno = getattr(node, "lineno", 0)
        self.stack.append((fi, None))
        try:
            r = self.ev(node, st)
        finally:
            self.stack.pop()
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Undecided("class attribute of %s is not deterministic" % owner.name)
        st.heap = r[0][0].heap
        return r[0][1]

    def class_attr(self, c, attr, st, node):
        if attr == "__name__":
            return [(st, Const(c.name))]
        if attr == "__init__":
            r = c.find(attr)
            if r is None:
                return [(st, Ext("builtins.object.__init__"))]
        r = c.find(attr)
        if c.is_enum and r and r[1] == "attr":
            return [(st, Enum_(c, attr))]
        if r is None:
            meta = c.meta()
            if isinstance(meta, ClassInfo) and meta.find(attr):
                k, kind, thing = meta.find(attr)
                if kind == "attr":
                    return [(st, self.class_attr_value(k, attr, st))]
                return [(st, Fn(thing, Cls(c), None))]
            if attr in ("__call__", "__new__", "__members__", "__hash__", "__eq__", "__mro__", "__dict__", "__subclasses__", "__getstate__", "__setstate__"):
                return [(st, Ext("builtins.object." + attr))]
            return [(st, Attr(Cls(c), attr))]
        owner, kind, thing = r
        if kind == "attr":
            return [(st, self.class_attr_value(owner, attr, st))]
        if thing.kind == "classmethod":
            return [(st, Fn(thing, Cls(c), None))]
        return [(st, Fn(thing, None, None))]

    def enum_attr(self, e, attr, st, node):
        if attr == "name":
            return [(st, Const(e.member))]
        if attr == "value":
            node_ = e.cls.attrs.get(e.member)
            key = (e.cls.qualname, e.member, "value")
            if key not in self._exprcache:
                tmp = State()
                v = self.eval_class_expr(e.cls, node_, tmp)
                self._exprcache[key] = self.fz(v, tmp)
            return [(st, self._exprcache[key])]
        return self.inst_attr(e, e.cls, attr, st, node, exact=True)

    def super_attr(self, sup, attr, st, node):
        owner, obj = sup.args[0].c, sup.args[1]
        if isinstance(obj, Cls):   # metaclass / classmethod
            c = obj.c
            if owner in c.mro():
                r = c.find(attr, after=owner)
                if r and r[1] == "method":
                    return [(st, Fn(r[2], obj if r[2].kind == "classmethod" else None, None))]
            if attr == "__call__":
                return [(st, Partial(Ext("super.__call__"), (One(obj),), ()))]
            if attr == "__new__":
                return [(st, Ext("super.__new__"))]
            return [(st, Ext("builtins.object." + attr))]
        t = self.type_of(obj, st)
        c = t[1] if t and t[0] == "inst" else owner
        r = c.find(attr, after=owner)
        if r and r[1] == "method":
            f = r[2]
            if f.kind == "property":
                return self.call_func(f, obj, [], {}, st, node)
            return [(st, Fn(f, obj, None))]
        return [(st, Partial(Ext("super." + attr), (One(obj),), ()))]

    def setattr(self, base, attr, v, st, node):
        """[(st, None|Exc)]"""
        if isinstance(base, Ref) and isinstance(st.heap[base.id], HInst):
            h = st.heap[base.id]
            setter = h.cls.find_setter(attr)
            if setter:
                return [(s, r if isinstance(r, Exc) else None) for s, r in self.call_func(setter, base, [v], {}, st, node)]
            s = st.clone()
            s.heap[base.id] = h.set(attr, v)
            return [(s, None)]
        t = self.type_of(base, st)
        if t and t[0] == "inst":
            setter = t[1].find_setter(attr)
            if setter:
                return [(s, r if isinstance(r, Exc) else None) for s, r in self.call_func(setter, base, [v], {}, st, node)]
        s = st.clone()
        b = self.fz(base, s)
        s.over[(b, self.prog.canon(attr))] = v
        self.event(s, "write", self.prog.canon(attr), [b, v], node)
        return [(s, None)]

    # -- expressions -----------------------------------------------------------------------
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.undecided("expression %s" % type(n).__name__, n)
        return m(n, st)

    def ev1(self, nodes, st):
        """Evaluate several expressions in order: [(st, [values]|Exc)]."""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            res = nxt
        return res

    def then(self, results, fn):
        out = []
        for s, v in results:
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(fn(s, v))
        return out

    def e_Constant(self, n, st):
        return [(st, Const(n.value))]

    def e_Name(self, n, st):
        return [(st, self.name(n.id, st, n))]

    def e_Attribute(self, n, st):
        return self.then(self.ev(n.value, st), lambda s, b: self.getattr(b, n.attr, s, n))

    def e_NamedExpr(self, n, st):
        def f(s, v):
            s = s.clone()
            s.locals[n.target.id] = v
            return [(s, v)]
        return self.then(self.ev(n.value, st), f)

    def e_Lambda(self, n, st):
        f = self.stack[-1][0]
        fi = FuncInfo("<lambda>", f.qualname + ".<lambda>", n, f.module, f.cls)
        return [(st, Fn(fi, None, tuple(st.locals.items())))]

    def e_IfExp(self, n, st):
        out = []
        for s, c in self.ev(n.test, st):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            for s2, b in self.truth(c, s):
                out.extend(self.ev(n.body if b else n.orelse, s2))
        return out

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        out = []

        def go(i, s):
            for s1, v in self.ev(n.values[i], s):
                if isinstance(v, Exc) or i == len(n.values) - 1:
                    out.append((s1, v))
                    continue
                for s2, b in self.truth(v, s1):
                    if b == is_and:
                        go(i + 1, s2)
                    else:
                        c = self.cond_of(v, s1)
                        isb = isinstance(v, App) and v.op in BOOL_OPS or isinstance(v, Const) and isinstance(v.v, bool)
                        out.append((s2, Const(b) if isb else v))
        go(0, st)
        return out

    def e_UnaryOp(self, n, st):
        def f(s, v):
            if isinstance(n.op, ast.Not):
                return [(s, self.c_not(self.cond_of(v, s)))]
            if isinstance(n.op, ast.USub) and isinstance(v, Const):
                return [(s, Const(-v.v))]
            if isinstance(n.op, ast.Invert):
                r = self.dunder(v, "__invert__", [], s, n)
                if r is not None:
                    return r
            return [(s, App(type(n.op).__name__, (self.fz(v, s),)))]
        return self.then(self.ev(n.operand, st), f)

    def dunder(self, v, name, args, st, node):
        t = self.type_of(v, st)
        if t and t[0] == "inst":
            r = t[1].find(name)
            if r and r[1] == "method":
                return self.call_func(r[2], v, args, {}, st, node)
        return None

    def e_Compare(self, n, st):
        def f(s, vs):
            cs = []
            for a, op, b in zip(vs, n.ops, vs[1:]):
                cs.append(self.compare(op, a, b, s, n))
            return [(s, self.c_and(cs))]
        return self.then(self.ev1([n.left] + n.comparators, st), f)

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Eq,)):
            return self.c_eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return self.c_not(self.c_eq(a, b, st))
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.c_is(a, b, st)
            return c if isinstance(op, ast.Is) else self.c_not(c)
        if isinstance(op, ast.In):
            return self.c_in(a, b, st)
        if isinstance(op, ast.NotIn):
            return self.c_not(self.c_in(a, b, st))
        if isinstance(op, ast.Lt):
            return self.c_lt(a, b, st)
        if isinstance(op, ast.Gt):
            return self.c_lt(b, a, st)
        if isinstance(op, ast.LtE):
            return self.c_le(a, b, st)
        if isinstance(op, ast.GtE):
            return self.c_le(b, a, st)
        self.undecided("comparison", node)

    def e_BinOp(self, n, st):
        return self.then(self.ev1([n.left, n.right], st), lambda s, ab: self.binop(n.op, ab[0], ab[1], s, n))

    def binop(self, op, a, b, st, node):
        if isinstance(op, ast.Add):
            if self.is_str(a, st) or self.is_str(b, st):
                return [(st, self.concat([a, b], st))]
            pa, pb = self.parts_of(a, st), self.parts_of(b, st)
            if pa is not None or pb is not None:
                pa = pa if pa is not None else (Spread(self.fz(a, st)),)
                pb = pb if pb is not None else (Spread(self.fz(b, st)),)
                kind = a.kind if isinstance(a, Seq) else st.heap[a.id].kind if isinstance(a, Ref) and isinstance(st.heap[a.id], HSeq) else "list"
                if kind == "list":
                    s = st.clone()
                    return [(s, self.alloc(s, HSeq("list", pa + pb)))]
                return [(st, Seq("tuple", pa + pb))]
            if isinstance(a, Const) and isinstance(b, Const):
                return [(st, Const(a.v + b.v))]
        if isinstance(op, ast.Mult) and isinstance(a, Const) and isinstance(b, Const):
            return [(st, Const(a.v * b.v))]
        if isinstance(op, ast.Mod) and isinstance(a, Const) and isinstance(a.v, str):
            return [(st, self.percent(a.v, b, st))]
        sym = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-"}.get(type(op))
        if sym:
            dn = {"|": "__or__", "&": "__and__"}.get(sym)
            t = self.type_of(a, st)
            if t and t[0] == "inst" and dn:
                r = self.dunder(a, dn, [b], st, node)
                if r is not None:
                    return r
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, int):
                return [(st, Const({"|": a.v | b.v, "&": a.v & b.v, "-": a.v - b.v}[sym]))]
            return [(st, self.setop(sym, a, b, st))]
        return [(st, App(type(op).__name__, (self.fz(a, st), self.fz(b, st))))]

    def setop(self, sym, a, b, st):
        pa, pb = self.parts_of(a, st), self.parts_of(b, st)
        if sym == "|" and (pa is not None or pb is not None):
            pa = pa if pa is not None else (Spread(strip(self.fz(a, st))),)
            pb = pb if pb is not None else (Spread(strip(self.fz(b, st))),)
            return Seq("frozenset", tuple(dict.fromkeys(pa + pb)))
        if sym in ("&", "-") and pa is not None and all(isinstance(p, One) for p in pa) and pb is not None:
            ds = [(p, self.decide(self.c_in(p.v, b, st), st)) for p in pa]
            if all(d is not None for _, d in ds):
                return Seq("frozenset", tuple(p for p, d in ds if d == (sym == "&")))
        fa, fb = strip(self.fz(a, st)), strip(self.fz(b, st))
        if sym != "-":
            fa, fb = sorted((fa, fb))
        return App(sym, (fa, fb))

    def e_Tuple(self, n, st):
        return self.then(self.ev_parts(n.elts, st), lambda s, ps: [(s, Seq("tuple", tuple(ps)))])

    def e_List(self, n, st):
        def f(s, ps):
            s = s.clone()
            return [(s, self.alloc(s, HSeq("list", ps)))]
        return self.then(self.ev_parts(n.elts, st), f)

    def e_Set(self, n, st):
        def f(s, ps):
            s = s.clone()
            return [(s, self.alloc(s, HSeq("set", dict.fromkeys(ps))))]
        return self.then(self.ev_parts(n.elts, st), f)

    def e_Dict(self, n, st):
        res = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, ps in res:
                if isinstance(ps, Exc):
                    nxt.append((s, ps))
                    continue
                if k is None:
                    for s2, x in self.ev(v, s):
                        nxt.append((s2, x if isinstance(x, Exc) else ps + list(self.dict_parts(x, s2))))
                    continue
                for s2, kv in self.ev1([k, v], s):
                    nxt.append((s2, kv if isinstance(kv, Exc) else self.dict_put(ps, kv[0], kv[1])))
            res = nxt

        def f(s, ps):
            s = s.clone()
            return [(s, self.alloc(s, HSeq("dict", ps)))]
        return self.then(res, f)

    def dict_put(self, parts, k, v):
        out, done = [], False
        for p in parts:
            if isinstance(p, One) and p.v.k == k:
                out.append(One(Pair(k, v)))
                done = True
            else:
                out.append(p)
        if not done:
            out.append(One(Pair(k, v)))
        return out

    def dict_parts(self, v, st):
        ps = self.parts_of(v, st)
        if ps is not None:
            return ps
        return (Spread(self.fz(v, st)),)

    def ev_parts(self, elts, st):
        """Evaluate display elements to parts."""
        res = [(st, [])]
        for e in elts:
            nxt = []
            for s, ps in res:
                if isinstance(ps, Exc):
                    nxt.append((s, ps))
                    continue
                star = isinstance(e, ast.Starred)
                for s2, v in self.ev(e.value if star else e, s):
                    if isinstance(v, Exc):
                        nxt.append((s2, v))
                    elif star:
                        nxt.append((s2, ps + list(self.iter_parts(v, s2))))
                    else:
                        nxt.append((s2, ps + [One(v)]))
            res = nxt
        return res

    def e_JoinedStr(self, n, st):
        res = [(st, [])]
        for p in n.values:
            nxt = []
            for s, vs in res:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                elif isinstance(p, ast.Constant):
                    nxt.append((s, vs + [p]))
                else:
                    for s2, v in self.ev(p.value, s):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                            continue
                        if p.conversion == 114:
                            nxt.append((s2, vs + [("repr", v)]))
                            continue
                        if p.format_spec is not None:
                            nxt.append((s2, vs + [("fmt", v)]))
                            continue
                        for s3, t in self.to_str(v, s2, n):
                            nxt.append((s3, t if isinstance(t, Exc) else vs + [("str", t)]))
            res = nxt

        def f(s, vs):
            xs = []
            for v in vs:
                if isinstance(v, ast.Constant):
                    xs.append(Const(v.value))
                elif v[0] == "str":
                    xs.append(v[1])
                else:
                    xs.append(App("repr" if v[0] == "repr" else "format", (self.fz(v[1], s),)))
            return [(s, self.concat(xs, s))]
        return self.then(res, f)

    def e_FormattedValue(self, n, st):
        return self.then(self.ev(n.value, st), lambda s, v: self.to_str(v, s, n))

    def e_Starred(self, n, st):
        self.undecided("starred expression", n)

    def e_Slice(self, n, st):
        def f(s, vs):
            return [(s, App("slice", tuple(vs)))]
        nodes = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
        return self.then(self.ev1(nodes, st), f)

    def e_Subscript(self, n, st):
        return self.then(self.ev1([n.value, n.slice], st), lambda s, bi: self.subscript(bi[0], bi[1], s, n))

    def subscript(self, base, ix, st, node):
        if isinstance(base, (Ext, Cls)) and not (isinstance(base, Cls) and base.c.is_enum):
            return [(st, base)]  # typing subscript
        if isinstance(base, Cls):
            if isinstance(ix, Const) and ix.v in base.c.attrs:
                return [(st, Enum_(base.c, ix.v))]
            return [(st, App("enumname", (base, self.fz(ix, st))))]
        if isinstance(base, Slot):
            return [(st, App("item", (base, self.fz(ix, st))))]
        if isinstance(base, Ref) and (base, "#work") in st.over and not (isinstance(ix, App) and ix.op == "slice"):
            at = st.over.get((base, "#at"))
            here = self.fz(ix, st)
            if at is not None and at != here:
                self.undecided("two places of a list that shrinks", node)
            if at is None:
                st = st.clone()
                st.over[(base, "#at")] = here
            return [(st, st.over[(base, "#work")])]
        ps = self.parts_of(base, st)
        isdict = isinstance(base, Ref) and isinstance(st.heap[base.id], HSeq) and st.heap[base.id].kind == "dict" or isinstance(base, Seq) and base.kind == "dict"
        if isdict:
            return self.dict_get(base, ps, ix, st, node)
        if ps is not None and isinstance(ix, App) and ix.op == "slice":
            r = self.slice_parts(ps, ix, st)
            if r is not None:
                if isinstance(base, Seq) and base.kind == "tuple":
                    return [(st, Seq("tuple", r))]
                s = st.clone()
                return [(s, self.alloc(s, HSeq("list", r)))]
        if ps is not None and isinstance(ix, Const) and isinstance(ix.v, int):
            i = ix.v
            if i >= 0:
                if all(isinstance(p, One) for p in ps[: i + 1]) and i < len(ps):
                    return [(st, ps[i].v)]
                if all(isinstance(p, One) for p in ps):
                    return [(st, Exc(ExcV("IndexError", ()), node, self.stack[-1][0] if self.stack else None))]
            else:
                if -i <= len(ps) and all(isinstance(p, One) for p in ps[i:]):
                    return [(st, ps[i].v)]
            # one symbolic spread: item of the spread
            if i >= 0:
                pre = 0
                for p in ps:
                    if isinstance(p, One):
                        if pre == i:
                            return [(st, p.v)]
                        pre += 1
                        continue
                    if isinstance(p, Spread):
                        return [(st, App("item", (p.src, Const(i - pre))))]
                    break
        if isinstance(base, Const) and isinstance(base.v, (str, tuple)):
            if isinstance(ix, Const):
                try:
                    return [(st, Const(base.v[ix.v]))]
                except IndexError:
                    return [(st, Exc(ExcV("IndexError", ()), node, None))]
            if isinstance(ix, App) and ix.op == "slice" and all(isinstance(x, Const) for x in ix.args):
                return [(st, Const(base.v[slice(*(x.v for x in ix.args))]))]
        fb, fi = self.fz(base, st), self.fz(ix, st)
        if isinstance(ix, App) and ix.op == "slice":
            if ix.args[:2] == (Const(None), Const(None)) and ix.args[2] == Const(None):
                return [(st, App("list", (fb,)))]
            return [(st, App("slice", (fb,) + fi.args))]
        key = (fb, fi)
        if ("item", fb, fi) in st.over:
            return [(st, st.over[("item", fb, fi)])]
        return [(st, App("item", (strip(fb, True), fi)))]

    def slice_parts(self, ps, ix, st):
        lo, hi, step = ix.args
        if step == Const(-1) and lo == NONE and hi == NONE:
            if all(isinstance(p, One) for p in ps):
                return tuple(reversed(ps))
            return self.wrap_parts("reversed", ps, App("reversed", (Seq("list", ps),)), st)
        if step not in (NONE, Const(1)):
            if all(isinstance(p, One) for p in ps) and all(isinstance(x, Const) for x in ix.args):
                return tuple(ps[slice(lo.v, hi.v, step.v)])
            return None
        if not all(isinstance(x, Const) for x in (lo, hi)):
            return None
        l, h = lo.v or 0, hi.v
        if l < 0 or (h is not None and h >= 0):
            if all(isinstance(p, One) for p in ps):
                return tuple(ps[l:h])
            n = 0
            for p in ps:
                if not isinstance(p, One):
                    break
                n += 1
            if l >= 0 and h is not None and 0 <= h <= n:
                return tuple(ps[l:h])
            m = 0
            for p in reversed(ps):
                if not isinstance(p, One):
                    break
                m += 1
            if l < 0 and -l <= m and (h is None or h < 0):
                return tuple(ps[l:h])
            return None
        pre = 0
        for p in ps:
            if not isinstance(p, One):
                break
            pre += 1
        post = 0
        for p in reversed(ps):
            if not isinstance(p, One):
                break
            post += 1
        if pre == len(ps):
            return tuple(ps[l:h])
        if l > pre or (h is not None and -h > post):
            return None
        return tuple(ps[l:h])

    def dict_get(self, base, ps, ix, st, node):
        fi = self.fz(ix, st)
        for p in reversed(ps):
            if isinstance(p, One):
                d = self.decide(self.c_eq(p.v.k, ix, st), st)
                if d is True:
                    if isinstance(p.v.v, Grp):
                        return [(st, Slot(base, p.v.k))]
                    return [(st, p.v.v)]
                if d is None:
                    break
            else:
                break
        else:
            return [(st, Exc(ExcV("KeyError", (fi,)), node, self.stack[-1][0] if self.stack else None))]
        # fork over constant keys
        if all(isinstance(p, One) for p in ps) and len(ps) <= 8:
            out, sts = [], [st]
            for p in ps:
                nxt = []
                c = self.c_eq(p.v.k, ix, st)
                for s in sts:
                    out.extend((s2, p.v.v) for s2 in self.assume(c, True, s))
                    nxt.extend(self.assume(c, False, s))
                sts = nxt
            out.extend((s, Exc(ExcV("KeyError", (fi,)), node, self.stack[-1][0] if self.stack else None)) for s in sts)
            return out
        if self.is_group(ps):
            got = self.group_parts(ps, ix, st)
            if got is not None:
                return [(st, Slot(base, fi))]
        return [(st, App("item", (self.fz(base, st), fi)))]

    def e_Call(self, n, st):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = self.stack[-1][0]
            p = f.node.args.args
            slf = st.locals.get(p[0].arg) if p else None
            if f.cls is None or slf is None:
                self.undecided("super()", n)
            return [(st, App("super", (Cls(f.cls), slf)))]
        if isinstance(n.func, ast.Name) and n.func.id == "super" and len(n.args) == 2 and not n.keywords:
            res = []
            for s, k in self.ev(n.args[0], st):
                if not isinstance(k, Cls):
                    self.undecided("super()", n)
                res.extend((s2, x if isinstance(x, Exc) else App("super", (k, x))) for s2, x in self.ev(n.args[1], s))
            return res
        out = []
        for s, fv in self.ev(n.func, st):
            if isinstance(fv, Exc):
                out.append((s, fv))
                continue
            for s2, ps in self.ev_parts(n.args, s):
                if isinstance(ps, Exc):
                    out.append((s2, ps))
                    continue
                res = [(s2, {})]
                for k in n.keywords:
                    nxt = []
                    for s3, kw in res:
                        if isinstance(kw, Exc):
                            nxt.append((s3, kw))
                            continue
                        for s4, v in self.ev(k.value, s3):
                            if isinstance(v, Exc):
                                nxt.append((s4, v))
                            elif k.arg is None:
                                d = self.parts_of(v, s4)
                                kw2 = dict(kw)
                                if d is None or not all(isinstance(p, One) and isinstance(p.v.k, Const) for p in d):
                                    kw2["**"] = v
                                else:
                                    kw2.update({p.v.k.v: p.v.v for p in d})
                                nxt.append((s4, kw2))
                            else:
                                kw2 = dict(kw)
                                kw2[k.arg] = v
                                nxt.append((s4, kw2))
                    res = nxt
                for s3, kw in res:
                    if isinstance(kw, Exc):
                        out.append((s3, kw))
                    else:
                        if "**" in kw:
                            fz = self.fz(fv, s3)
                            s4 = s3.clone()
                            a = tuple(self.fz(p.v, s4) if isinstance(p, One) else self.fz(p, s4) for p in ps) + tuple(Pair(Const(k), self.fz(v, s4)) for k, v in sorted(kw.items()))
                            self.event(s4, "callkw", fz, a, n)
                            out.append((s4, App("callkw", (fz,) + a)))
                            continue
                        out.extend(self.call(fv, ps, kw, s3, n))
        return out

    # comprehensions
    def e_ListComp(self, n, st):
        def f(s, ps):
            s = s.clone()
            return [(s, self.alloc(s, HSeq("list", ps)))]
        return self.then(self.comp(n, lambda s: self.ev(n.elt, s), st), f)

    def e_SetComp(self, n, st):
        def f(s, ps):
            s = s.clone()
            return [(s, self.alloc(s, HSeq("set", dict.fromkeys(ps))))]
        return self.then(self.comp(n, lambda s: self.ev(n.elt, s), st), f)

    def e_GeneratorExp(self, n, st):
        return self.then(self.comp(n, lambda s: self.ev(n.elt, s), st), lambda s, ps: [(s, Seq("gen", tuple(ps)))])

    def e_DictComp(self, n, st):
        def elt(s):
            return self.then(self.ev1([n.key, n.value], s), lambda s2, kv: [(s2, Pair(kv[0], kv[1]))])

        def f(s, ps):
            s = s.clone()
            out = []
            for p in ps:
                if isinstance(p, One):
                    out = self.dict_put(out, p.v.k, p.v.v)
                else:
                    out.append(p)
            return [(s, self.alloc(s, HSeq("dict", out)))]
        return self.then(self.comp(n, elt, st), f)

    def comp(self, n, elt, st):
        """[(st, parts|Exc)]"""
        saved = dict(st.locals)

        def gen(i, s):
            if i == len(n.generators):
                return [(s2, v if isinstance(v, Exc) else (One(v),)) for s2, v in elt(s)]
            g = n.generators[i]

            def body(s2, v):
                out = []
                for s3, r in self.bind_target(g.target, v, s2):
                    if isinstance(r, Exc):
                        out.append((s3, r))
                        continue
                    sts = [s3]
                    for cond in g.ifs:
                        nxt = []
                        for s4 in sts:
                            for s5, c in self.ev(cond, s4):
                                if isinstance(c, Exc):
                                    out.append((s5, c))
                                    continue
                                for s6, b in self.truth(c, s5):
                                    if b:
                                        nxt.append(s6)
                                    else:
                                        out.append((s6, ()))
                        sts = nxt
                    for s4 in sts:
                        out.extend(gen(i + 1, s4))
                return out

            out = []
            for s2, it in self.ev(g.iter, s):
                if isinstance(it, Exc):
                    out.append((s2, it))
                    continue
                out.extend(self.flatmap(self.iter_parts(it, s2), body, s2))
            return out
        out = []
        for s, r in gen(0, st):
            s = s.clone()
            s.locals = dict(saved)
            out.append((s, r))
        return out

    def flatmap(self, parts, body, st):
        """Apply body(st, value) -> [(st, parts|Exc)] to every element; [(st, parts|Exc)].

        Concrete elements are processed one by one; generic elements once, with guarded alternatives."""
        res = [(st, ())]
        for p in parts:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                if isinstance(p, One):
                    for s2, r in body(s, p.v):
                        nxt.append((s2, r if isinstance(r, Exc) else acc + tuple(r)))
                    continue
                nxt.extend(self.generic(p, body, s, acc))
            res = nxt
        return res

    def generic_elems(self, p, st):
        """[(src, guard, value, state)] generic elements of a non-concrete part."""
        if isinstance(p, Spread):
            src = p.src
            b = strip(src)
            ck = self.count_key(b)
            s = st.clone()
            v = self.elem(src, s)
            for x in self.count_keys(b):
                s.depth[x] = s.depth.get(x, 0) + 1
            return [(src, (), v, s)]
        if isinstance(p, Each):
            out = []
            b = strip(p.src)
            for g, ps in p.alts:
                for q in ps:
                    s = st.clone()
                    for x in self.count_keys(b):
                        s.depth[x] = s.depth.get(x, 0) + 1
                    ok = True
                    sts = [s]
                    for c, val in g:
                        sts = [s3 for s2 in sts for s3 in self.assume(c, val, s2)]
                    for s2 in sts:
                        if isinstance(q, One):
                            out.append((p.src, g, q.v, s2))
                        else:
                            for src2, g2, v2, s3 in self.generic_elems(q, s2):
                                out.append((p.src, g, ("nest", q, src2, g2, v2), s3))
            return out
        if isinstance(p, AccP):
            s = st.clone()
            return [(App("acc", (p,)), (), Elem(App("acc", (p,)), 0), s)]
        self.undecided("iteration over %r" % (p,))

    def count_key(self, b):
        return b

    def count_keys(self, b):
        if isinstance(b, App) and b.op in ("zip", "enumerate", ".items", ".keys", ".values"):
            return [strip(x) for x in b.args]
        return [b]

    def generic(self, p, body, st, acc):
        """One generic iteration of a comprehension-like body."""
        out = []
        alts = []
        exits = []
        src = None
        n0 = len(st.log)
        ev0 = len(st.events)
        newev = []
        heap_new = {}
        for src, g, v, s in self.generic_elems(p, st):
            if isinstance(v, tuple) and v[0] == "nest":
                _, q, src2, g2, v2 = v
                inner = []
                for s2, r in body(s, v2):
                    if isinstance(r, Exc):
                        exits.append((src, tuple(s2.log[n0:]), r, s2))
                        continue
                    delta = tuple(x for x in s2.log[n0:])
                    gi = tuple(x for x in delta if x not in g)
                    inner.append((gi, tuple(self.fz_parts(r, s2))))
                    newev.extend(self.loop_events(s2, ev0, src, n0))
                    heap_new.update(s2.heap)
                alts.append((tuple(g), (Each(src2, tuple(inner)),)))
                continue
            for s2, r in body(s, v):
                guard = tuple(s2.log[n0:])
                if isinstance(r, Exc):
                    exits.append((src, guard, r, s2))
                    continue
                alts.append((guard, tuple(self.fz_parts(r, s2))))
                newev.extend(self.loop_events(s2, ev0, src, n0))
        s = st.clone()
        s.events = s.events + tuple(newev)
        # exceptional exits: some element satisfies the guard
        for esrc, guard, r, s2 in exits:
            c = self.c_exists(esrc, self.elem_guard(guard, esrc), st)
            for s3 in self.assume(c, True, st):
                s3 = s3.clone()
                s3.events = s3.events + tuple(self.loop_events(s2, ev0, esrc, n0))
                out.append((s3, r))
        sts = [s]
        for esrc, guard, r, s2 in exits:
            c = self.c_exists(esrc, self.elem_guard(guard, esrc), st)
            sts = [s4 for s3 in sts for s4 in self.assume(c, False, s3)]
        part = self.mk_each(src, alts)
        for s3 in sts:
            out.append((s3, acc + part))
        return out

    def elem_guard(self, guard, src):
        return tuple(guard)

    def fz_parts(self, ps, st):
        return [self.fz(p, st) for p in ps]

    def loop_events(self, s2, ev0, src, n0):
        guard = tuple(s2.log[n0:])
        out = []
        for e in s2.events[ev0:]:
            out.append(Event(e.kind, e.name, e.args, e.node, e.fn, guard + tuple(e.guard), (src,) + tuple(e.loops)))
        return out

    def mk_each(self, src, alts):
        merged = {}
        for g, ps in alts:
            merged.setdefault(ps, []).append(g)
        if not any(ps for ps in merged):
            return ()
        e = None
        if len(merged) == 1:
            (ps, gs), = merged.items()
            if len(ps) == 1 and isinstance(ps[0], One) and isinstance(ps[0].v, Elem) and ps[0].v.src == strip(src) and self.total(gs):
                return (Spread(src),)
            if self.total(gs):
                return (Each(src, (((), ps),)),)
        return (Each(src, tuple(sorted(((tuple(g), ps) for g, ps in alts if ps), key=repr))),)

    def total(self, gs):
        """Do the guards cover every case (trivially)?"""
        if any(len(g) == 0 for g in gs):
            return True
        c = gs[0][0][0]
        t = [tuple(x for x in g if x != (c, True)) for g in gs if (c, True) in g]
        f = [tuple(x for x in g if x != (c, False)) for g in gs if (c, False) in g]
        if len(t) + len(f) != len(gs) or not t or not f:
            if isinstance(c, App) and c.op == "card":
                return self._total_cards(gs)
            return False
        return self.total(t) and self.total(f)

    def _total_cards(self, gs):
        cover = set()
        key = None
        for g in gs:
            s = set((0, 1, 2))
            for c, b in g:
                if not (isinstance(c, App) and c.op == "card"):
                    return False
                if key is not None and c.args[0] != key:
                    return False
                key = c.args[0]
                s &= set(c.args[1]) if b else set((0, 1, 2)) - set(c.args[1])
            cover |= s
        return cover == {0, 1, 2}

    # -- statements ----------------------------------------------------------------------------
    def block(self, stmts, st):
        """[(st, None | ('ret', v) | 'brk' | 'cont' | Exc)]"""
        res = [(st, None)]
        for n in stmts:
            nxt = []
            for s, c in res:
                if c is not None:
                    nxt.append((s, c))
                else:
                    nxt.extend(self.stmt(n, s))
            res = nxt
        return res

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.undecided("statement %s" % type(n).__name__, n)
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(n.value, st)
        return [(s, v if isinstance(v, Exc) else None) for s, v in self.ev(n.value, st)]

    def do_yield(self, y, st):
        out = []
        for s, v in self.ev(y.value, st) if y.value is not None else [(st, NONE)]:
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s = s.clone()
            r = s.locals["$yield"]
            add = tuple(self.iter_parts(v, s)) if isinstance(y, ast.YieldFrom) else (One(v),)
            s.heap[r.id] = s.heap[r.id].with_parts(s.heap[r.id].parts + add)
            out.append((s, None))
        return out

    def s_Pass(self, n, st):
        return [(st, None)]

    def s_Import(self, n, st):
        s = st.clone()
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            s.locals[nm] = Mod(tgt) if tgt in self.prog.modules else Ext(tgt)
        return [(s, None)]

    def s_ImportFrom(self, n, st):
        s = st.clone()
        for a in n.names:
            m = self.prog.modules.get(n.module)
            if m is not None:
                r = self.prog.lookup(m, a.name)
                if r is None and (n.module + "." + a.name) in self.prog.modules:
                    v = Mod(n.module + "." + a.name)
                else:
                    v = self.module_name(m, a.name, s, n)
            else:
                v = external((n.module or "") + "." + a.name)
            s.locals[a.asname or a.name] = v
        return [(s, None)]

    def s_Global(self, n, st):
        self.undecided("global statement", n)

    s_Nonlocal = s_Global

    def s_FunctionDef(self, n, st):
        f = self.stack[-1][0]
        fi = FuncInfo(n.name, f.qualname + "." + n.name, n, f.module, f.cls)
        s = st.clone()
        if n.decorator_list and not all(d.split(".")[-1] in ("wraps",) for d in fi.decorators):
            self.undecided("decorated nested function", n)
        env = dict(s.locals)
        fv = Fn(fi, None, tuple(env.items()))
        s.locals[n.name] = fv
        return [(s, None)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ("ret", NONE))]
        return [(s, v if isinstance(v, Exc) else ("ret", v)) for s, v in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        fn = self.stack[-1][0]
        if n.exc is None:
            return [(st, Exc(st.locals.get("$exc", ExcV("Exception", ())), n, fn))]
        out = []
        for s, v in self.ev(n.exc, st):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if isinstance(v, Cls):
                v = ExcV(v.c, ())
            elif isinstance(v, Ext):
                v = ExcV(v.name.split(".")[-1], ())
            elif not isinstance(v, ExcV):
                v = ExcV("Exception", (self.fz(v, s),))
            out.append((s, Exc(v, n, fn)))
        return out

    def s_Assert(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2, b in self.truth(v, s):
                out.append((s2, None) if b else (s2, Exc(ExcV("AssertionError", ()), n, self.stack[-1][0])))
        return out

    def s_Delete(self, n, st):
        s = st.clone()
        for t in n.targets:
            if isinstance(t, ast.Name):
                s.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                for s2, b in self.ev(t.value, s):
                    s = s2.clone()
                    self.event(s, "write", self.prog.canon(t.attr), [b, App("deleted", ())], n)
            elif isinstance(t, ast.Subscript):
                for s2, bi in self.ev1([t.value, t.slice], s):
                    s = s2.clone()
                    self.event(s, "mutate", "__delitem__", [bi[0], bi[1]], n)
        return [(s, None)]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            res = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, c in res:
                    if c is not None:
                        nxt.append((s2, c))
                    else:
                        nxt.extend(self.bind_target(t, v, s2))
                res = nxt
            out.extend(res)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            out.extend([(s, v)] if isinstance(v, Exc) else self.bind_target(n.target, v, s))
        return out

    def s_AugAssign(self, n, st):
        load = ast.copy_location(_as_load(n.target), n.target)
        out = []
        for s, ab in self.ev1([load, n.value], st):
            if isinstance(ab, Exc):
                out.append((s, ab))
                continue
            a, b = ab
            if isinstance(a, Ref) and isinstance(s.heap[a.id], HSeq):
                h = s.heap[a.id]
                s2 = s.clone()
                if isinstance(n.op, ast.Add) and h.kind == "list":
                    s2.heap[a.id] = h.with_parts(h.parts + tuple(self.iter_parts(b, s2)))
                    out.append((s2, None))
                    continue
                if isinstance(n.op, ast.BitOr) and h.kind in ("set", "dict"):
                    s2.heap[a.id] = h.with_parts(tuple(dict.fromkeys(h.parts + tuple(self.iter_parts(b, s2)))))
                    out.append((s2, None))
                    continue
            t = self.type_of(a, s)
            if t and t[0] in ("coll", "map") and isinstance(a, (Attr, Sym, Elem)) and t[1] != "coll" and isinstance(n.op, (ast.Add, ast.BitOr)) and not (t[0] == "coll" and t[1] == "set"):
                s = s.clone()
                self.event(s, "mutate", "__iadd__", [a, b], n)
            for s2, v in self.binop(n.op, a, b, s, n):
                out.extend([(s2, v)] if isinstance(v, Exc) else self.bind_target(n.target, v, s2))
        return out

    def bind_target(self, t, v, st):
        """[(st, None|Exc)]"""
        if isinstance(t, ast.Name):
            s = st.clone()
            s.locals[t.id] = v
            return [(s, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            ps = self.parts_of(v, st)
            if ps is not None and all(isinstance(p, One) for p in ps) and not any(isinstance(e, ast.Starred) for e in t.elts):
                if len(ps) != len(t.elts):
                    return [(st, Exc(ExcV("ValueError", (Const("unpack"),)), t, self.stack[-1][0]))]
                vs = [p.v for p in ps]
            elif any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                tail = len(t.elts) - k - 1
                if ps is None:
                    self.undecided("starred unpacking of an unknown value", t)
                head, rest = ps[:k], ps[k:]
                last = rest[len(rest) - tail:] if tail else ()
                mid = rest[: len(rest) - tail] if tail else rest
                if not all(isinstance(p, One) for p in tuple(head) + tuple(last)) or len(head) < k or len(last) < tail:
                    self.undecided("starred unpacking", t)
                s = st.clone()
                vs = [p.v for p in head] + [self.alloc(s, HSeq("list", mid))] + [p.v for p in last]
                st = s
            else:
                f = self.fz(v, st)
                vs = [App("item", (f, Const(i))) for i in range(len(t.elts))]
            res = [(st, None)]
            for e, x in zip(t.elts, vs):
                e = e.value if isinstance(e, ast.Starred) else e
                nxt = []
                for s, c in res:
                    nxt.extend([(s, c)] if c is not None else self.bind_target(e, x, s))
                res = nxt
            return res
        if isinstance(t, ast.Attribute):
            return self.then(self.ev(t.value, st), lambda s, b: self.setattr(b, t.attr, v, s, t))
        if isinstance(t, ast.Subscript):
            return self.then(self.ev1([t.value, t.slice], st), lambda s, bi: self.setitem(bi[0], bi[1], v, s, t))
        self.undecided("assignment target", t)

    def setitem(self, b, i, v, st, node):
        if isinstance(b, Ref) and isinstance(st.heap[b.id], HSeq):
            h = st.heap[b.id]
            s = st.clone()
            if h.kind == "dict":
                ps = list(h.parts)
                dec = [self.decide(self.c_eq(p.v.k, i, s), s) if isinstance(p, One) else None for p in ps]
                if all(d is not None for d in dec):
                    if any(dec):
                        ps[dec.index(True)] = One(Pair(i, v))
                    else:
                        ps.append(One(Pair(i, v)))
                else:
                    ps = self.dict_put(ps, i, v)
                s.heap[b.id] = h.with_parts(ps)
                return [(s, None)]
            if h.kind == "list" and isinstance(i, Const) and isinstance(i.v, int) and all(isinstance(p, One) for p in h.parts) and -len(h.parts) <= i.v < len(h.parts):
                ps = list(h.parts)
                ps[i.v] = One(v)
                s.heap[b.id] = h.with_parts(ps)
                return [(s, None)]
            s.heap[b.id] = h.with_parts((AccP(self.next_id + 1000),))
            return [(s, None)]
        s = st.clone()
        fb, fi = self.fz(b, s), self.fz(i, s)
        s.over[("item", fb, fi)] = v
        self.event(s, "mutate", "__setitem__", [fb, fi, v], node)
        return [(s, None)]

    def s_If(self, n, st):
        out = []
        for s, c in self.ev(n.test, st):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            for s2, b in self.truth(c, s):
                out.extend(self.block(n.body if b else n.orelse, s2))
        return out

    def s_With(self, n, st):
        res = [(st, None)]
        for item in n.items:
            nxt = []
            for s, c in res:
                if c is not None:
                    nxt.append((s, c))
                    continue
                for s2, v in self.ev(item.context_expr, s):
                    if isinstance(v, Exc):
                        nxt.append((s2, v))
                    elif item.optional_vars is not None:
                        nxt.extend(self.bind_target(item.optional_vars, App("enter", (self.fz(v, s2),)), s2))
                    else:
                        nxt.append((s2, None))
            res = nxt
        out = []
        for s, c in res:
            out.extend([(s, c)] if c is not None else self.block(n.body, s))
        return out

    def s_Try(self, n, st):
        out = []
        for s, c in self.block(n.body, st):
            if isinstance(c, Exc):
                out.extend(self.handle(n, s, c))
            elif c is None and n.orelse:
                out.extend(self.block(n.orelse, s))
            else:
                out.append((s, c))
        if n.finalbody:
            res = []
            for s, c in out:
                for s2, c2 in self.block(n.finalbody, s):
                    res.append((s2, c if c2 is None else c2))
            out = res
        return out

    def handle(self, n, st, exc):
        for h in n.handlers:
            kinds = []
            if h.type is None:
                kinds = ["BaseException"]
            else:
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    r = self.prog.resolve_expr_class(self.stack[-1][0].module, t)
                    kinds.append(r if r is not None else "?")
            if any(self.exc_matches(exc.exc, k) for k in kinds):
                s = st.clone()
                s.locals["$exc"] = exc.exc
                if h.name:
                    s.locals[h.name] = exc.exc
                return self.block(h.body, s)
        return [(st, exc)]

    # -- loops ------------------------------------------------------------------------------------
    def s_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Exc):
                out.append((s, it))
                continue
            out.extend(self.for_parts(n, self.iter_parts(it, s), s))
        return out

    def for_parts(self, n, parts, st):
        def body(s, v):
            out = []
            for s2, c in self.bind_target(n.target, v, s):
                out.extend([(s2, c)] if c is not None else self.block(n.body, s2))
            return out
        done = []
        live = [st]
        for p in parts:
            nxt = []
            for s in live:
                if isinstance(p, One):
                    for s2, c in body(s, p.v):
                        if c is None or c == "cont":
                            nxt.append(s2)
                        elif c == "brk":
                            done.append((s2, None))
                        else:
                            done.append((s2, c))
                else:
                    n2, d2 = self.loop_generic(n, p, body, s)
                    nxt.extend(n2)
                    done.extend(d2)
            live = nxt
        for s in live:
            if n.orelse:
                done.extend(self.block(n.orelse, s))
            else:
                done.append((s, None))
        return done

    def loop_generic(self, n, p, body, st):
        """Summarise the iterations over a generic part. Returns (live states, finished outcomes)."""
        # pass 1: what does the body modify?
        self_events = self.nstates
        mod_vars, mod_refs, mod_over = set(), set(), set()
        base = st
        for _round in range(3):
            probe = self.havoc(base, mod_vars, mod_refs, mod_over, n)
            changed = False
            for src, g, v, s in self.gen_flat(p, probe):
                for s2, c in body(s, v):
                    if isinstance(c, Exc) or isinstance(c, tuple):
                        continue
                    for k, x in s2.locals.items():
                        if k in probe.locals and probe.locals[k] != x and k not in mod_vars:
                            mod_vars.add(k)
                            changed = True
                    for k, h in s2.heap.items():
                        if k in probe.heap and probe.heap[k] is not h and k not in mod_refs:
                            mod_refs.add(k)
                            changed = True
                    for k, x in s2.over.items():
                        if probe.over.get(k) != x and k not in mod_over:
                            mod_over.add(k)
                            changed = True
            if not changed:
                break
        # pass 2: a generic iteration from an unknown previous state
        pre = self.havoc(base, mod_vars, mod_refs, mod_over, n)
        n0, ev0 = len(pre.log), len(pre.events)
        alts, exits, breaks, evs = [], [], [], []
        src = None
        for src, g, v, s in self.gen_flat(p, pre):
            for s2, c in body(s, v):
                guard = tuple(s2.log[n0:])
                if c is None or c == "cont":
                    alts.append((guard, s2))
                    evs.extend(self.loop_events(s2, ev0, src, n0))
                elif c == "brk":
                    breaks.append((guard, s2))
                    evs.extend(self.loop_events(s2, ev0, src, n0))
                else:
                    exits.append((guard, s2, c))
        # state after the loop
        s = st.clone()
        s.events = s.events + tuple(evs)
        if src is not None and (breaks or any(isinstance(c, tuple) for _, _, c in exits)):
            s.events = s.events + (Event("cut", "", (self.fz(strip(src), s),), n, self.stack[-1][0] if self.stack else None),)
        allp = alts + breaks
        for rid in mod_refs:
            s.heap[rid] = self.merge_ref(rid, st, pre, allp, src, bool(breaks))
        for k in mod_vars:
            s.locals[k] = self.merge_var(k, st, pre, alts, breaks, src)
        for k in mod_over:
            vals = {s2.over.get(k) for _, s2 in allp}
            s.over[k] = next(iter(vals)) if len(vals) == 1 and None not in vals and not isinstance(next(iter(vals)), Elem) else App("loopvar", (Const(str(k)),))
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                s.locals[x.id] = App("last", (self.fz(strip(src), s),)) if src is not None else s.locals.get(x.id, NONE)
        # temporaries first assigned in the loop
        for _, s2 in allp:
            for k, x in s2.locals.items():
                if k not in s.locals:
                    s.locals[k] = App("loopvar", (Const(k),))
        finished = []
        esrc = src
        kinds = {"brk" for _ in breaks} | {"exc" if isinstance(c, Exc) else "ret" for _, _, c in exits}
        ends = [g for g, _ in breaks] + [g for g, _, _ in exits]

        def first(state, guard):
            """What ends the loop is the first of several things that can end it."""
            if len(kinds) < 2:
                return state
            state = state.clone()
            state.log = state.log + ((self.reach(esrc, guard, [g for g in ends if g != guard], state), True),)
            return state
        for guard, s2, c in exits:
            cond = self.c_exists(esrc, guard, st)
            for s3 in self.assume(cond, True, s):
                s3 = first(s3, guard)
                s3.heap = {**s2.heap, **{k: s3.heap[k] for k in s3.heap if k in st.heap and k in mod_refs}}
                s3.events = s3.events + tuple(self.loop_events(s2, ev0, esrc, n0))
                # the facts about the exiting element hold for the witness
                finished.append((s3, c))
        live = [s]
        if exits and breaks and mod_refs:
            live = [s.clone()]
            live[0].log = live[0].log + ((App("loopend", (self.fz(strip(esrc), s),)), True),)
        else:
            for guard, s2, c in exits:
                cond = self.c_exists(esrc, guard, st)
                live = [x for l in live for x in self.assume(cond, False, l)]
        # a break with no accumulator effect: existential split
        if breaks and not mod_refs:
            newlive = []
            for guard, s2 in breaks:
                cond = self.c_exists(esrc, guard, st)
                for x in self.assume(cond, True, s):
                    x = first(x.clone(), guard)
                    for k in mod_vars:
                        x.locals[k] = self.fz(s2.locals[k], s2) if k in s2.locals else x.locals[k]
                    newlive.append(x)
            for l in live:
                rest = [l]
                for guard, s2 in breaks:
                    cond = self.c_exists(esrc, guard, st)
                    rest = [x for y in rest for x in self.assume(cond, False, y)]
                for x in rest:
                    x = x.clone()
                    for k in mod_vars:
                        x.locals[k] = self.merge_var(k, st, pre, alts, [], src)
                    if n.orelse:
                        for s4, c4 in self.block(n.orelse, x):
                            if c4 is None:
                                newlive.append(s4)
                            else:
                                finished.append((s4, c4))
                    else:
                        newlive.append(x)
            if n.orelse:
                for x in newlive:
                    finished.append((x, None))
                return [], finished
            live = newlive
        return live, finished

    def reach(self, src, guard, others, st):
        """Of the elements of src that meet one of the guards, the first one meets this one."""
        fr = lambda g: frozenset((self.fz(c, st), b) for c, b in g)
        return App("reach", (self.fz(src, st), fr(guard), frozenset(fr(g) for g in others)))

    def gen_flat(self, p, st):
        for src, g, v, s in self.generic_elems(p, st):
            if isinstance(v, tuple) and v[0] == "nest":
                v = v[4]
            yield src, g, v, s

    def havoc(self, st, mod_vars, mod_refs, mod_over, n):
        s = st.clone()
        for k in mod_vars:
            v = s.locals[k]
            if self.is_str(v, s):
                s.locals[k] = Fmt((AccP(k),))
            elif isinstance(v, Seq) and v.kind == "tuple":
                s.locals[k] = Seq("tuple", (AccP(k),))
            elif isinstance(v, Seq) and v.kind == "frozenset":
                s.locals[k] = Seq("frozenset", (AccP(k),))
            else:
                s.locals[k] = App("loopvar", (Const(k),))
        for r in mod_refs:
            h = s.heap[r]
            if isinstance(h, HSeq):
                s.heap[r] = h.with_parts((AccP(r),))
            else:
                s.heap[r] = HInst(h.cls, {f: App("loopvar", (Const(f),)) for f in h.fields})
        for k in mod_over:
            if k in s.over:
                s.over[k] = App("loopvar", (Const(str(k)),))
        return s

    def merge_ref(self, rid, st, pre, alts, src, broke):
        h0 = st.heap[rid]
        if isinstance(h0, HInst):
            fields = {}
            for f in set().union(*(s2.heap[rid].fields for _, s2 in alts)) if alts else h0.fields:
                vals = {self.fz(s2.heap[rid].fields.get(f, NONE), s2) for _, s2 in alts}
                old = h0.fields.get(f)
                fields[f] = old if vals == {App("loopvar", (Const(f),))} and old is not None else App("loopvar", (Const(f),))
            return HInst(h0.cls, fields)
        out = []
        for g, s2 in alts:
            ps = s2.heap[rid].parts
            if ps and ps[0] == AccP(rid):
                out.append((g, tuple(self.fz_parts(ps[1:], s2))))
            else:
                return h0.with_parts((AccP("unknown%d" % rid),))
        if broke:
            return h0.with_parts(h0.parts + (AccP("prefix%d" % rid),))
        if not any(e.id == rid and isinstance(e.id, int) for e in walk(h0.parts) if isinstance(e, AccP)):
            # what was accumulated so far by the sequence itself (an enclosing loop does the same with its own part)
            own = lambda v: AccP("self") if isinstance(v, AccP) and v.id == rid else None
            out = [subst(x, own) for x in out]
        return h0.with_parts(h0.parts + self.mk_each(src, out))

    def merge_var(self, k, st, pre, alts, breaks, src):
        v0 = st.locals[k]
        if self.is_str(v0, st) and not breaks:
            out = []
            for g, s2 in alts:
                v = s2.locals[k]
                ps = v.parts if isinstance(v, Fmt) else None
                if not ps or ps[0] != AccP(k):
                    return App("loopvar", (Const(k),))
                rest = ps[1:]
                out.append((g, (One(Fmt(rest) if rest else Const("")),)))
            each = self.mk_each(src, out)
            return self.concat([v0, Fmt((Join("", each),))], st) if each else v0
        if isinstance(v0, Seq) and v0.kind in ("tuple", "frozenset") and not breaks:
            out = []
            for g, s2 in alts:
                v = s2.locals[k]
                if not (isinstance(v, Seq) and v.parts and v.parts[0] == AccP(k)):
                    return App("loopvar", (Const(k),))
                out.append((g, tuple(self.fz_parts(v.parts[1:], s2))))
            return Seq(v0.kind, v0.parts + self.mk_each(src, out))
        # flag variable: set to a constant in some alternatives, untouched in the others
        hav = pre.locals.get(k)
        sets = {}
        for g, s2 in alts + breaks:
            v = s2.locals.get(k)
            if v == hav:
                continue
            sets.setdefault(v, []).append(g)
        if isinstance(v0, Const) and isinstance(v0.v, bool) and len(sets) == 1:
            (v, gs), = sets.items()
            if isinstance(v, Const) and v.v == (not v0.v):
                ex = self.c_or([self.c_exists(src, tuple(x for x in g if not _mentions(x[0], hav)), st) for g in gs])
                return ex if v.v else self.c_not(ex)
            # flag = flag and cond / flag or cond
        if isinstance(v0, Const) and isinstance(v0.v, bool) and sets and all(isinstance(v, Const) and v.v == (not v0.v) or isinstance(v, Const) and v.v == v0.v for v in sets):
            gs = [g for v, gg in sets.items() if v.v != v0.v for g in gg]
            stay = [g for v, gg in sets.items() if v.v == v0.v for g in gg]
            if not stay or all(any(_mentions(c, hav) for c, _ in g) for g in stay):
                ex = self.c_or([self.c_exists(src, tuple(x for x in g if not _mentions(x[0], hav)), st) for g in gs])
                return ex if not v0.v else self.c_not(ex)
        return App("loopvar", (Const(k),))

    def s_While(self, n, st):
        """while loops: one generic iteration from an arbitrary state, for events and exits."""
        w = self.worklist(n, st)
        if w is not None:
            return w
        mod_vars = set()
        for x in ast.walk(ast.Module(body=n.body, type_ignores=[])):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in st.locals:
                mod_vars.add(x.id)
        mod_refs, mod_over = set(), set()
        for _round in range(3):
            probe = self.havoc(st, mod_vars, mod_refs, mod_over, n)
            changed = False
            for s1, t in self.ev(n.test, probe):
                if isinstance(t, Exc):
                    continue
                for s2, b in self.truth(t, s1):
                    if not b:
                        continue
                    for s3, c in self.block(n.body, s2):
                        for k, h in s3.heap.items():
                            if k in probe.heap and probe.heap[k] is not h and k not in mod_refs:
                                mod_refs.add(k)
                                changed = True
                        for k, x in s3.over.items():
                            if probe.over.get(k) != x and k not in mod_over:
                                mod_over.add(k)
                                changed = True
            if not changed:
                break
        pre = self.havoc(st, mod_vars, mod_refs, mod_over, n)
        out, live = [], []
        n0, ev0 = len(pre.log), len(pre.events)
        evs = []
        for s1, t in self.ev(n.test, pre):
            if isinstance(t, Exc):
                out.append((s1, t))
                continue
            for s2, b in self.truth(t, s1):
                if not b:
                    live.append(s2)
                    continue
                for s3, c in self.block(n.body, s2):
                    if c is None or c == "cont":
                        evs.extend(self.loop_events(s3, ev0, App("while", (Const(n.lineno),)), n0))
                    elif c == "brk":
                        out.append((s3, None))
                    else:
                        out.append((s3, c))
        for s in live:
            s = s.clone()
            s.events = s.events + tuple(evs)
            out.extend(self.block(n.orelse, s) if n.orelse else [(s, None)])
        return out

    def worklist(self, n, st):
        """while W: ... take an element of the list W and remove it.

        Every iteration that goes on either removes the element it looks at, or leaves everything but plain
        variables as it was.  At the end W is empty, so each element was looked at and removed once."""
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
            t = t.left
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and len(t.args) == 1:
            t = t.args[0]
        if not isinstance(t, ast.Name) or n.orelse:
            return None
        ref = st.locals.get(t.id)
        if isinstance(ref, App) and ref.op in ("sorted", "list") or isinstance(ref, Seq) and ref.kind == "list":
            st = st.clone()
            ref = self.alloc(st, HSeq("list", self.iter_parts(ref, st)))
            st.locals[t.id] = ref
        if not (isinstance(ref, Ref) and isinstance(st.heap.get(ref.id), HSeq)):
            return None
        h = st.heap[ref.id]
        names = {x.func.attr for x in ast.walk(ast.Module(body=n.body, type_ignores=[])) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                 and isinstance(x.func.value, ast.Name) and x.func.value.id == t.id}
        if h.kind not in ("list", "set") or names & {"append", "extend", "insert", "add", "update", "clear", "appendleft", "extendleft", "sort", "reverse"} or not names & {"remove", "pop", "popleft", "discard"}:
            return None
        if any(isinstance(x, ast.Name) and x.id == t.id and not isinstance(x.ctx, ast.Load) for x in ast.walk(ast.Module(body=n.body, type_ignores=[]))):
            return None
        key = (ref, "#work")
        if key in st.over:
            return None
        stay = set()
        rest = App("remaining", (self.fz(Seq("list", h.parts), st),))

        def again(s, v):
            """One iteration that looks at v; (results, plain variables changed by iterations that remove nothing)"""
            out, changed = [], set()
            s = s.clone()
            s.over[key] = self.fz(v, s)
            for k in stay:
                if k in s.locals:
                    s.locals[k] = App("loopvar", (Const(k),))
            # the rest of the list: any of its elements
            s.heap[ref.id] = HSeq(h.kind, self.wrap_parts("remaining", h.parts, rest.args[0], s))
            before, n0 = s, len(s.log)
            for s2, c in self.block(n.body, s):
                gone = s2.over.get(key) == Const("removed")
                if isinstance(c, Exc) or isinstance(c, tuple):
                    out.append((s2, c))
                    continue
                if c == "brk":
                    raise Undecided("a loop over the list %s ends early" % t.id, n, self.stack[-1][0] if self.stack else None)
                if not gone:
                    # nothing may be produced without removing the element
                    diff = {k for k, x in before.locals.items() if s2.locals.get(k) != x}
                    if any(s2.heap.get(k) is not x for k, x in before.heap.items()) or len(s2.events) != len(before.events) or \
                            any(self.is_str(before.locals[k], before) for k in diff) or {k for k in s2.over if k[1] != "#at"} != {k for k in before.over if k[1] != "#at"}:
                        raise Undecided("an iteration over the list %s does something without removing an element" % t.id, n, self.stack[-1][0] if self.stack else None)
                    changed |= diff
                    continue
                s3 = s2.clone()
                del s3.over[key]
                s3.over.pop((ref, "#at"), None)
                s3.heap[ref.id] = h
                # when the element is removed says nothing about it
                when = tuple(x for x in s3.log[n0:] if any(isinstance(y, App) and y.op in ("remaining", "loopvar") for y in walk(x[0])))
                out.append((s3, None, n0, when))
            return out, changed

        def body(s, v):
            while True:
                out, changed = again(s, v)
                if changed <= stay:
                    break
                stay.update(changed)
            gone = [r for r in out if len(r) == 4]
            shared = {tuple(x for x in s3.log[n0:] if x not in when) for s3, _, n0, when in gone}
            if len(shared) == len(gone):
                for s3, _, n0, when in gone:
                    s3.log = s3.log[:n0] + tuple(x for x in s3.log[n0:] if x not in when)
            return [r[:2] for r in out]
        src = ast.For(target=ast.Name(id="_work", ctx=ast.Store()), iter=n.test, body=n.body, orelse=[], lineno=n.lineno, col_offset=0)
        done, live = [], [st]
        if any(isinstance(p, One) for p in h.parts):
            return None
        for p in self.wrap_parts("permuted", h.parts, rest.args[0], st):
            nxt = []
            for s in live:
                n2, d2 = self.loop_generic(src, p, body, s)
                nxt.extend(n2)
                done.extend(d2)
            live = nxt
        for s in live:
            s = s.clone()
            s.heap[ref.id] = HSeq(h.kind, ())
            for k in stay:
                if k in s.locals:
                    s.locals[k] = App("loopvar", (Const(k),))
            done.append((s, None))
        return done

    def s_Break(self, n, st):
        return [(st, "brk")]

    def s_Continue(self, n, st):
        return [(st, "cont")]


def _mentions(c, v):
    return any(x == v for x in walk(c))


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t
