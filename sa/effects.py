"""What a function may change: a points-to analysis with inlined calls.

Every parameter of an entry is an object that stands for itself (`P`) and one for everything that can be reached from it; allocation sites are
objects of their own, with what is stored in them by field.  Local variables are followed in order, the heap is not.  A store into a parameter,
into something reached from it, or into a module-level object is recorded with its place.
"""
import ast

from .program import ClassInfo, FuncInfo, dotted

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "sort", "reverse", "add", "discard", "update", "setdefault",
            "intersection_update", "difference_update", "symmetric_difference_update", "appendleft", "popleft", "extendleft", "rotate",
            "move_to_end", "__setitem__", "__delitem__", "__setattr__", "__iadd__", "__ior__", "subtract"}
COPIES = {"list", "set", "dict", "tuple", "frozenset", "sorted", "reversed", "deque", "OrderedDict", "defaultdict", "Counter"}
SAME = {"cast", "iter", "copy", "deepcopy"}


class Obj:
    """An abstract object: kind is 'param', 'reach', 'global', 'new', 'inst', 'func', 'class'."""

    def __init__(self, kind, label, cls=None, node=None, env=None):
        self.kind, self.label, self.cls, self.node, self.env = kind, label, cls, node, env

    def __repr__(self):
        return "%s:%s" % (self.kind, self.label)

    def __lt__(self, o):
        return (self.kind, self.label) < (o.kind, o.label)


E = frozenset()


class Frame:
    def __init__(self, f, env, selfobjs, nodes):
        self.f, self.env, self.selfobjs, self.nodes = f, env, selfobjs, nodes
        self.ret = E


class Effects:
    """One analysis of one entry."""

    def __init__(self, prog, depth=14):
        self.prog = prog
        self.depth = depth
        self.heap = {}              # (obj, field) -> frozenset of objects
        self.objs = {}
        self.found = {}             # (obj, what, place) -> function
        self.memo = {}
        self.active = set()
        self.changed = False
        self.frames = []
        self.cut = set()
        self.props = {}
        self.methods = {}
        self.visited = set()
        for c in prog.classes.values():
            for n, m in c.methods.items():
                (self.props if m.kind == "property" else self.methods).setdefault(n, []).append(m)

    # -- objects -------------------------------------------------------------------
    def obj(self, key, kind, label, **kw):
        if key not in self.objs:
            self.objs[key] = Obj(kind, label, **kw)
        return self.objs[key]

    def param(self, name, cls=None):
        p = self.obj(("param", name), "param", name, cls=cls)
        r = self.obj(("reach", name), "reach", name)
        self.put(p, "*", {r})
        self.put(r, "*", {r})
        return p

    def glob(self, name):
        g = self.obj(("global", name), "global", name)
        r = self.obj(("globalin", name), "global", name)
        self.put(g, "*", {r})
        self.put(r, "*", {r})
        return g

    def new(self, node, what="", **kw):
        return self.obj(("new", id(node), what), kw.pop("kind", "new"), "%s%s" % (what, getattr(node, "lineno", "")), node=node, **kw)

    def put(self, o, field, vals):
        old = self.heap.get((o, field), E)
        new = old | frozenset(vals)
        if new != old:
            self.heap[(o, field)] = new
            self.changed = True

    def get(self, objs, field="*"):
        out = set()
        for o in objs:
            if field != "*" and (o, field) in self.heap:
                out |= self.heap[(o, field)]
            if field == "*" or o.kind in ("param", "reach", "global") or (o, field) not in self.heap:
                for (q, k), v in list(self.heap.items()) if field == "*" and o.kind not in ("param", "reach", "global") else [((o, "*"), self.heap.get((o, "*"), E))]:
                    if q is o and k != "k":
                        out |= v
        return frozenset(out)

    def elements(self, objs):
        """What a loop over these sees."""
        out = set()
        for o in objs:
            if (o, "k") in self.heap:
                out |= self.heap[(o, "k")]
            else:
                out |= self.get({o})
        return frozenset(out)

    def mutate(self, objs, what, node):
        f = self.frames[-1].f
        for o in objs:
            if o.kind in ("param", "reach", "global"):
                self.found.setdefault((o, what, f.module.relpath, getattr(node, "lineno", 0)), f)

    # -- entries ------------------------------------------------------------------------
    def run(self, f, fresh_self=False, bind=None):
        """Analyse f; returns [(object, what, file, line, function)]."""
        a = f.node.args
        args = {}
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        for i, n in enumerate(names):
            if bind and n in bind:
                args[n] = frozenset(bind[n])
            elif i == 0 and f.cls is not None and f.kind not in ("staticmethod",):
                args[n] = frozenset({self.obj(("inst", f.qualname), "inst", "self", cls=f.cls)}) if fresh_self else frozenset({self.param(n, f.cls if f.kind != "classmethod" else None)})
            else:
                p = self.param(n)
                if a.vararg and n == a.vararg.arg or a.kwarg and n == a.kwarg.arg:
                    t = self.new(f.node, "args:" + n)
                    self.put(t, "*", {p})
                    p = t
                args[n] = frozenset({p})
        for _ in range(8):
            self.changed = False
            self.memo = {}
            self.body(f, dict(args), args.get(names[0], E) if names and f.cls is not None else E)
            if not self.changed:
                break
        return [(o, what, file, line, fn) for (o, what, file, line), fn in sorted(self.found.items(), key=lambda x: (x[0][2], x[0][3], x[0][1], str(x[0][0])))]

    def body(self, f, env, selfobjs):
        fr = Frame(f, env, selfobjs, {})
        self.visited.add(f.qualname)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                fr.ret |= self.ev(f.node.body)
            else:
                self.block(f.node.body)
        finally:
            self.frames.pop()
        if f.is_generator:
            g = self.new(f.node, "gen")
            self.put(g, "*", fr.ret)
            return frozenset({g})
        return fr.ret

    # -- statements -------------------------------------------------------------------------
    @property
    def env(self):
        return self.frames[-1].env

    def block(self, ss):
        for s in ss:
            self.stmt(s)

    def branch(self, *blocks):
        fr = self.frames[-1]
        start, ends = fr.env, []
        for b in blocks:
            fr.env = dict(start)
            b()
            ends.append(fr.env)
        out = {}
        for e in ends:
            for k, v in e.items():
                out[k] = out.get(k, E) | v
        fr.env = out

    def stmt(self, n):
        if isinstance(n, ast.Assign):
            v = self.ev(n.value)
            for t in n.targets:
                self.assign(t, v)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value))
        elif isinstance(n, ast.AugAssign):
            v = self.ev(n.value)
            if isinstance(n.target, ast.Name):
                old = self.env.get(n.target.id, E)
                if isinstance(n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub)) and self.collection(n.value):
                    self.mutate(old, "in place", n)
                for o in old:
                    self.put(o, "*", self.get(v)) if o.kind == "new" else None
                self.env[n.target.id] = old
            else:
                b = self.ev(n.target.value)
                self.mutate(b, getattr(n.target, "attr", "[]"), n)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.mutate(self.ev(t.value), getattr(t, "attr", "[]"), n)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                self.frames[-1].ret |= self.ev(n.value)
        elif isinstance(n, ast.Expr):
            self.ev(n.value)
        elif isinstance(n, ast.If):
            self.ev(n.test)
            self.branch(lambda: self.block(n.body), lambda: self.block(n.orelse))
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            def loop():
                for _ in range(2):
                    self.assign(n.target, self.elements(self.ev(n.iter)))
                    self.block(n.body)
            self.branch(loop, lambda: self.ev(n.iter))
            self.block(n.orelse)
        elif isinstance(n, ast.While):
            def loop():
                for _ in range(2):
                    self.ev(n.test)
                    self.block(n.body)
            self.branch(loop, lambda: self.ev(n.test))
            self.block(n.orelse)
        elif isinstance(n, ast.Try):
            self.branch(lambda: self.block(n.body), lambda: None)
            self.branch(*([lambda h=h: self.block(h.body) for h in n.handlers] + [lambda: self.block(n.orelse)]))
            self.block(n.finalbody)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            self.block(n.body)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FuncInfo(n.name, self.frames[-1].f.qualname + "." + n.name, n, self.frames[-1].f.module)
            o = self.new(n, "def", kind="func", env=self.frames[-1])
            o.node = fi
            self.env[n.name] = frozenset({o})
        elif isinstance(n, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(n):
                self.ev(x)
        elif isinstance(n, ast.Match):
            v = self.ev(n.subject)
            for c in n.cases:
                for x in ast.walk(c.pattern):
                    nm = getattr(x, "name", None) or getattr(x, "rest", None)
                    if isinstance(nm, str):
                        self.env[nm] = self.env.get(nm, E) | v | self.get(v)
            self.branch(*[lambda c=c: self.block(c.body) for c in n.cases])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            self.frames[-1].nodes.setdefault("outer", set()).update(n.names)

    def collection(self, n):
        """A right-hand side of += that is a collection (and not a number or a text)."""
        return isinstance(n, (ast.List, ast.Set, ast.Tuple, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.Dict, ast.DictComp)) or \
            isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in COPIES | {"map", "filter", "zip"} or \
            isinstance(n, ast.Name) and any(o.kind == "new" and not isinstance(o.node, (ast.JoinedStr, ast.Constant, ast.BinOp)) for o in self.env.get(n.id, E))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].nodes.get("outer", ()):
                if t.id not in self.env:
                    self.mutate({self.glob(self.frames[-1].f.module.name + "." + t.id)}, t.id, t)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    o = self.new(x, "rest")
                    self.put(o, "*", self.get(v))
                    self.assign(x.value, frozenset({o}))
                else:
                    out = set()
                    for o in v:
                        out |= self.heap[(o, i)] if (o, i) in self.heap else self.elements({o})
                    self.assign(x, frozenset(out))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.mutate(b, t.attr, t)
            for o in b:
                self.put(o, t.attr if o.kind == "inst" else "*", v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            self.mutate(b, "[]", t)
            for o in b:
                if isinstance(t.slice, ast.Slice):
                    self.put(o, "*", self.get(v))
                else:
                    if (o, "k") in self.heap:
                        self.put(o, "k", k)
                    self.put(o, "*", v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    # -- expressions ---------------------------------------------------------------------------
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        out = E
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                out |= self.ev(x)
        return E

    def e_Constant(self, n):
        return E

    def e_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        for fr in reversed(self.frames[:-1]):
            if n.id in fr.env and self.frames[-1].f.qualname.startswith(fr.f.qualname + "."):
                return fr.env[n.id]
        return self.module_name(self.frames[-1].f.module, n.id)

    def module_name(self, module, name):
        r = self.prog.lookup(module, name)
        if r is None:
            return E
        if r[0] == "func":
            return frozenset({self.obj(("func", r[1].qualname), "func", r[1].qualname, node=r[1])})
        if r[0] == "class":
            return frozenset({self.obj(("class", r[1].qualname), "class", r[1].qualname, cls=r[1])})
        if r[0] == "mod":
            return frozenset({self.obj(("mod", r[1]), "mod", r[1])})
        if r[0] == "ext":
            return frozenset({self.obj(("ext", r[1]), "ext", r[1])})
        if r[0] == "expr" and isinstance(r[2], (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
            return frozenset({self.glob(r[1].name + "." + name)})
        return E

    def e_Attribute(self, n):
        b = self.ev(n.value)
        return self.load(b, n.attr, n)

    def load(self, b, attr, n):
        out = set()
        for o in b:
            if o.kind == "mod":
                if o.label in self.prog.modules:
                    out |= self.module_name(self.prog.modules[o.label], attr)
                continue
            if o.kind == "ext":
                continue
            if o.kind == "class":
                r = o.cls.find(attr)
                if r and r[1] == "attr" and isinstance(r[2], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)) and not o.cls.is_enum:
                    out.add(self.glob(r[0].qualname + "." + attr))
                continue
            if o.kind == "func":
                continue
            ps = [o.cls.find(attr)[2]] if o.cls is not None and o.cls.find(attr) and o.cls.find(attr)[1] == "method" and o.cls.find(attr)[2].kind == "property" else self.props.get(attr, []) if o.kind in ("param", "reach") and o.cls is None else []
            if ps:
                for p in ps:
                    out |= self.inline(p, [frozenset({o})], {}, n)
                continue
            if o.cls is not None:
                r = o.cls.find(attr)
                if r and r[1] == "attr" and isinstance(r[2], (ast.List, ast.Dict, ast.Set, ast.Call)) and not o.cls.is_enum and (o, attr) not in self.heap:
                    out.add(self.glob(r[0].qualname + "." + attr))
                    if o.kind == "inst":
                        continue
            if attr in ("__class__",):
                continue
            out |= self.get({o}, attr)
        return frozenset(out)

    def e_Subscript(self, n):
        b = self.ev(n.value)
        k = self.ev(n.slice)
        if isinstance(n.slice, ast.Slice):
            o = self.new(n, "slice")
            self.put(o, "*", self.get(b))
            return frozenset({o})
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            out = set()
            for o in b:
                out |= self.heap[(o, n.slice.value)] if (o, n.slice.value) in self.heap else self.get({o})
            return frozenset(out)
        return self.get(b)

    def e_Slice(self, n):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.ev(x)
        return E

    def e_Tuple(self, n):
        o = self.new(n)
        for i, x in enumerate(n.elts):
            if isinstance(x, ast.Starred):
                self.put(o, "*", self.elements(self.ev(x.value)))
            else:
                v = self.ev(x)
                if isinstance(n, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in n.elts):
                    self.put(o, i, v)
                else:
                    self.put(o, "*", v)
        return frozenset({o})

    e_List = e_Set = e_Tuple

    def e_Dict(self, n):
        o = self.new(n)
        self.put(o, "*", E)
        self.heap.setdefault((o, "k"), E)
        for k, v in zip(n.keys, n.values):
            if k is None:
                s = self.ev(v)
                self.put(o, "k", self.elements(s))
                self.put(o, "*", self.get(s))
            else:
                self.put(o, "k", self.ev(k))
                self.put(o, "*", self.ev(v))
        return frozenset({o})

    def comp(self, n):
        saved = dict(self.env)
        for g in n.generators:
            self.assign(g.target, self.elements(self.ev(g.iter)))
            for c in g.ifs:
                self.ev(c)
        o = self.new(n)
        if isinstance(n, ast.DictComp):
            self.heap.setdefault((o, "k"), E)
            self.put(o, "k", self.ev(n.key))
            self.put(o, "*", self.ev(n.value))
        else:
            self.put(o, "*", self.ev(n.elt))
        self.frames[-1].env = saved
        return frozenset({o})

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_BoolOp(self, n):
        out = E
        for x in n.values:
            out |= self.ev(x)
        return out

    def e_IfExp(self, n):
        self.ev(n.test)
        return self.ev(n.body) | self.ev(n.orelse)

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.Mult)) and (a or b):
            o = self.new(n)
            self.put(o, "*", self.get(a) | self.get(b))
            return frozenset({o})
        return E

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Lambda(self, n):
        fi = FuncInfo("<lambda>", self.frames[-1].f.qualname + ".<lambda>", n, self.frames[-1].f.module)
        o = self.new(n, "lambda", kind="func", env=self.frames[-1])
        o.node = fi
        return frozenset({o})

    def e_Yield(self, n):
        if n.value is not None:
            self.frames[-1].ret |= self.ev(n.value)
        return E

    def e_YieldFrom(self, n):
        self.frames[-1].ret |= self.elements(self.ev(n.value))
        return E

    def e_Await(self, n):
        return self.ev(n.value)

    # -- calls -----------------------------------------------------------------------------------
    def e_Call(self, n):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.elements(self.ev(a.value))))
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            kw[k.arg] = self.ev(k.value)
        f = n.func
        if isinstance(f, ast.Attribute):
            return self.method(n, f, args, kw)
        if isinstance(f, ast.Name) and f.id not in self.env:
            r = self.prog.lookup(self.frames[-1].f.module, f.id)
            known = any(f.id in fr.env for fr in self.frames)
            if (r is None or r[0] == "ext") and not known:
                return self.builtin(n, (r[1] if r else f.id).split(".")[-1], args, kw)
        fv = self.ev(f)
        return self.apply(fv, args, kw, n)

    def flat(self, args, kw):
        out = set()
        for a in args:
            out |= a[1] if isinstance(a, tuple) else a
        for v in kw.values():
            out |= v
        return frozenset(out)

    def apply(self, fv, args, kw, n):
        out, hit = set(), False
        for o in fv:
            if o.kind == "func":
                hit = True
                out |= self.inline(o.node, args, kw, n)
                if o.node.kind == "generic":
                    for g in self.prog.functions.values():
                        if g.generic_of and g.generic_of.split(".")[-1] == o.node.name and g.module is o.node.module:
                            out |= self.inline(g, args, kw, n)
            elif o.kind == "class":
                hit = True
                out |= self.construct(o.cls, args, kw, n)
        if not hit:
            return self.opaque(n, self.flat(args, kw))
        return frozenset(out)

    def opaque(self, n, objs):
        o = self.new(n, "call")
        self.put(o, "*", objs)
        return frozenset({o})

    def construct(self, c, args, kw, n):
        if c.is_enum:
            return E
        o = self.new(n, "obj", kind="inst", cls=c)
        init = c.find("__init__")
        if init and init[1] == "method":
            self.inline(init[2], [frozenset({o})] + args, kw, n)
        else:
            self.put(o, "*", self.flat(args, kw))
        return frozenset({o})

    def call_value(self, fv, args, n):
        if fv:
            return self.apply(fv, args, {}, n)
        return E

    def builtin(self, n, name, args, kw):
        vals = self.flat(args, kw)
        if name in ("setattr", "delattr"):
            self.mutate(args[0] if args and not isinstance(args[0], tuple) else E, ast.unparse(n.args[1]).strip("'\"") if len(n.args) > 1 else "?", n)
            return E
        if name == "getattr" and n.args:
            b = args[0] if not isinstance(args[0], tuple) else E
            a = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else "*"
            return self.load(b, a, n) if a != "*" else self.get(b)
        if name in COPIES:
            o = self.new(n, "copy")
            src = args[0] if args and not isinstance(args[0], tuple) else vals
            if name in ("dict", "OrderedDict", "defaultdict", "Counter"):
                self.heap.setdefault((o, "k"), E)
                for s in src:
                    if (s, "k") in self.heap:
                        self.put(o, "k", self.heap[(s, "k")])
                        self.put(o, "*", self.heap.get((s, "*"), E))
                    else:
                        e = self.get({s})
                        pairs = [x for x in e if (x, 0) in self.heap and (x, 1) in self.heap]
                        for x in pairs:
                            self.put(o, "k", self.heap[(x, 0)])
                            self.put(o, "*", self.heap[(x, 1)])
                        self.put(o, "*", {x for x in e if x not in pairs})
                        self.put(o, "k", {x for x in e if x not in pairs})
                self.put(o, "*", frozenset().union(*kw.values()) if kw else E)
            else:
                self.put(o, "*", self.elements(src))
                if "key" in kw:
                    self.call_value(kw["key"], [self.elements(src)], n)
            return frozenset({o})
        if name in ("map", "filter"):
            o = self.new(n, name)
            fn = args[0] if args and not isinstance(args[0], tuple) else E
            els = [self.elements(a[1] if isinstance(a, tuple) else a) for a in args[1:]]
            r = self.call_value(fn, els, n)
            self.put(o, "*", r if name == "map" else frozenset().union(*els) if els else E)
            return frozenset({o})
        if name in ("enumerate", "zip", "product", "zip_longest"):
            o, t = self.new(n, name), self.new(n, name + "-item")
            els = [self.elements(a[1] if isinstance(a, tuple) else a) for a in args]
            if name == "enumerate":
                els = [E] + els[:1]
            if any(isinstance(a, tuple) for a in args):
                self.put(t, "*", frozenset().union(*els))
            else:
                for i, e in enumerate(els):
                    self.heap.setdefault((t, i), E)
                    self.put(t, i, e)
            self.put(o, "*", {t})
            return frozenset({o})
        if name in ("cast",):
            return args[-1] if args and not isinstance(args[-1], tuple) else vals
        if name == "iter":
            return vals
        if name in ("next", "max", "min", "choice"):
            out = self.elements(vals) | (vals if len(args) > 1 else E)
            if "key" in kw:
                self.call_value(kw["key"], [self.elements(vals)], n)
            return out
        if name in ("chain", "from_iterable"):
            o = self.new(n, name)
            self.put(o, "*", self.elements(vals) | self.elements(self.elements(vals)))
            return frozenset({o})
        if name in ("partial",):
            o = self.new(n, name)
            return (args[0] if args and not isinstance(args[0], tuple) else E)
        if name == "reduce":
            els = self.elements(self.flat(args[1:], {}))
            self.call_value(args[0] if not isinstance(args[0], tuple) else E, [els, els], n)
            return els
        if name in ("isinstance", "issubclass", "len", "str", "repr", "hash", "bool", "int", "float", "any", "all", "sum", "print", "type", "hasattr", "id", "callable", "range", "abs", "round", "format", "ord", "chr"):
            for a in vals:
                if a.kind == "func" and name in ("any", "all", "sum"):
                    self.call_value(frozenset({a}), [], n)
            return E
        if name == "super":
            return self.frames[-1].selfobjs
        if name == "vars":
            return vals
        if name == "deepcopy":
            return frozenset({self.new(n, "deepcopy")})
        if name == "copy":
            o = self.new(n, "copy")
            self.put(o, "*", self.get(vals))
            return frozenset({o})
        return self.opaque(n, vals)

    def method(self, n, f, args, kw):
        name = f.attr
        # super().m(...)
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            fn = self.frames[-1].f
            own = fn.cls
            objs = self.frames[-1].selfobjs
            out = set()
            for o in objs or ():
                c = o.cls if o.cls is not None and own in (o.cls.mro() if o.cls else []) else own
                r = c.find(name, after=own) if c is not None and own is not None else None
                if r and r[1] == "method":
                    out |= self.inline(r[2], [frozenset({o})] + args, kw, n)
            return frozenset(out)
        if name in ("__setattr__", "__delattr__") and isinstance(f.value, ast.Name) and f.value.id == "object" and args and not isinstance(args[0], tuple):
            self.mutate(args[0], ast.unparse(n.args[1]).strip("'\"") if len(n.args) > 1 else "?", n)
            return E
        b = self.ev(f.value)
        mods = [o for o in b if o.kind in ("mod", "ext")]
        if mods:
            fv = self.load(b, name, f)
            if fv:
                return self.apply(fv, args, kw, n)
            if any(o.kind == "ext" for o in mods):
                return self.builtin(n, name, args, kw)
        vals = self.flat(args, kw)
        out, done = set(), False
        for o in b:
            if o.kind == "class":
                r = o.cls.find(name)
                if r and r[1] == "method":
                    done = True
                    m = r[2]
                    out |= self.inline(m, ([frozenset({o})] if m.kind == "classmethod" else []) + args, kw, n)
                continue
            if o.kind in ("func", "ext", "mod"):
                continue
            if o.cls is not None:
                cs = [o.cls] + (sorted(self.prog.subclasses(o.cls, strict=True)) if o.kind == "param" else [])
                hit = []
                for c in cs:
                    r = c.find(name)
                    if r and r[1] == "method" and r[2] not in hit:
                        hit.append(r[2])
                if hit:
                    done = True
                    for m in hit:
                        if m.kind == "property":
                            fv = self.inline(m, [frozenset({o})], {}, n)
                            out |= self.apply(fv, args, kw, n)
                        else:
                            out |= self.inline(m, ([] if m.kind == "staticmethod" else [frozenset({o})]) + args, kw, n)
                    continue
            elif o.kind in ("param", "reach") and name in self.methods:
                done = True
                for m in self.methods[name]:
                    out |= self.inline(m, ([] if m.kind == "staticmethod" else [frozenset({o})]) + args, kw, n)
                if name not in MUTATORS:
                    continue
            if o.cls is not None and name not in MUTATORS:
                fv = self.load(frozenset({o}), name, f)
                if any(x.kind in ("func", "class") for x in fv):
                    done = True
                    out |= self.apply(fv, args, kw, n)
                    continue
            done = True
            out |= self.container(o, name, args, kw, n)
        if not done:
            return self.opaque(n, vals)
        return frozenset(out)

    def container(self, o, name, args, kw, n):
        first = args[0] if args and not isinstance(args[0], tuple) else self.flat(args, kw)
        allv = self.flat(args, kw)
        if name in MUTATORS:
            self.mutate({o}, name, n)
            if name in ("append", "add", "appendleft", "remove", "discard"):
                self.put(o, "*", first if name not in ("remove", "discard") else E)
                return E
            if name == "insert":
                self.put(o, "*", allv)
                return E
            if name in ("extend", "extendleft", "update"):
                if (o, "k") in self.heap:
                    for s in allv:
                        if (s, "k") in self.heap:
                            self.put(o, "k", self.heap[(s, "k")])
                            self.put(o, "*", self.heap.get((s, "*"), E))
                        else:
                            e = self.get({s})
                            self.put(o, "k", e)
                            self.put(o, "*", e | self.get(e))
                    self.put(o, "*", frozenset().union(*kw.values()) if kw else E)
                else:
                    self.put(o, "*", self.elements(allv))
                return E
            if name == "setdefault":
                if (o, "k") in self.heap or o.kind == "new":
                    self.heap.setdefault((o, "k"), E)
                    self.put(o, "k", first)
                self.put(o, "*", self.flat(args[1:], kw))
                return self.heap.get((o, "*"), E)
            if name in ("pop", "popleft", "popitem"):
                return self.get({o}) | self.flat(args[1:], kw)
            return E
        if name in ("get",):
            return self.get({o}) | self.flat(args[1:], kw)
        if name == "items":
            r, t = self.new(n, "items"), self.new(n, "item")
            self.heap.setdefault((t, 0), E)
            self.heap.setdefault((t, 1), E)
            self.put(t, 0, self.elements({o}))
            self.put(t, 1, self.get({o}))
            self.put(r, "*", {t})
            return frozenset({r})
        if name == "values":
            r = self.new(n, "values")
            self.put(r, "*", self.get({o}))
            return frozenset({r})
        if name == "keys":
            r = self.new(n, "keys")
            self.put(r, "*", self.elements({o}))
            return frozenset({r})
        if name in ("copy", "union", "intersection", "difference", "symmetric_difference"):
            r = self.new(n, "copy")
            if (o, "k") in self.heap:
                self.put(r, "k", self.heap[(o, "k")])
                self.put(r, "*", self.heap.get((o, "*"), E))
            else:
                self.put(r, "*", self.elements({o}) | self.elements(allv))
            return frozenset({r})
        if name in ("join", "split", "strip", "lower", "upper", "format", "startswith", "endswith", "replace", "index", "count", "splitlines", "lstrip", "rstrip", "isdigit", "issubset", "issuperset", "isdisjoint"):
            return E
        r = self.opaque(n, allv | {o})
        return r

    def inline(self, f, args, kw, n):
        """Result of a call of a package function."""
        key = (f.qualname, id(f.node), tuple(a if not isinstance(a, tuple) else a for a in args), tuple(sorted((k or "**", v) for k, v in kw.items())))
        if key in self.memo:
            return self.memo[key]
        if len(self.frames) > self.depth or sum(1 for x in self.frames if x.f.node is f.node) > 2:
            self.cut.add(f.qualname)
            return self.flat(args, kw)
        self.memo[key] = E
        env = {}
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = set()
        i = 0
        for x in args:
            if isinstance(x, tuple):
                for p in pos[i:]:
                    env[p] = env.get(p, E) | x[1]
                rest |= x[1]
                continue
            if i < len(pos) and not any(isinstance(y, tuple) for y in args[:i]):
                env[pos[i]] = x
            else:
                rest |= x
            i += 1
        names = pos + [x.arg for x in a.kwonlyargs]
        krest = set()
        for k, v in kw.items():
            if k in names:
                env[k] = v
            elif k is None:
                for p in names[i:]:
                    env.setdefault(p, E)
                    env[p] |= self.get(v)
                krest |= self.get(v)
            else:
                krest |= v
        for p in names:
            env.setdefault(p, E)
        for va, vals in ((a.vararg, rest), (a.kwarg, krest)):
            if va:
                o = self.new(f.node, "args:%s:%s" % (va.arg, id(n)))
                self.put(o, "*", vals)
                env[va.arg] = frozenset({o})
        selfobjs = env.get(pos[0], E) if pos and f.cls is not None and f.kind != "staticmethod" else E
        r = self.body(f, env, selfobjs)
        self.memo[key] = r
        return r
