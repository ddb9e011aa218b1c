"""Front end: reads the sources of the analysed package and resolves modules, classes, functions.

Nothing of the analysed package is imported or executed: only `ast` is used.
"""
import ast
import builtins
import os


class AnalysisError(Exception):
    """An anchor of the analysis vanished, or the sources cannot be read: no verdict is possible."""


class FuncInfo:
    def __init__(self, name, qualname, node, module, cls=None):
        self.name, self.qualname, self.node, self.module, self.cls = name, qualname, node, module, cls
        self.kind = "function"
        self.generic_of = None  # singledispatch generic name, if registered
        self.decorators = []
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                dn = dotted(d.func if isinstance(d, ast.Call) else d)
                self.decorators.append(dn or "?")
                last = (dn or "").split(".")[-1]
                if last == "property" or last == "cached_property":
                    self.kind = "property"
                elif last == "setter":
                    self.kind = "setter"
                elif last == "classmethod":
                    self.kind = "classmethod"
                elif last == "staticmethod":
                    self.kind = "staticmethod"
                elif last in ("singledispatch", "singledispatchmethod"):
                    self.kind = "generic"
                elif last == "register" and dn and "." in dn:
                    self.generic_of = dn.rsplit(".", 1)[0]
        self.is_generator = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        )

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return "<fn %s>" % self.qualname


def walk_own(fn):
    """Walk a function body without entering nested functions/classes."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + "." + node.attr if b else None
    return None


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qualname = module.name + "." + name
        self.methods = {}     # name -> FuncInfo (last definition wins, property setters apart)
        self.setters = {}
        self.functions = []   # every function of the body, in order
        self.attrs = {}       # class attribute -> expression
        self.annots = {}
        self.bases = []       # ClassInfo or dotted external name
        self.decorators = []
        self.metaclass = None
        self.order = []

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def mro(self):
        if not hasattr(self, "_mro"):
            self._mro = _c3(self)
        return self._mro

    def is_subclass(self, other):
        if isinstance(other, ClassInfo):
            return other in self.mro()
        return other in ext_ancestors(self)

    def find(self, name, after=None):
        """Find a method or attribute along the MRO; returns (owner, 'method'|'attr', thing) or None."""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if not isinstance(c, ClassInfo):
                continue
            if name in c.methods:
                return c, "method", c.methods[name]
            if name in c.attrs:
                return c, "attr", c.attrs[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.setters:
                return c.setters[name]
        return None

    @property
    def is_enum(self):
        return any(x in ("enum.Enum", "Enum", "enum.IntEnum") for x in ext_ancestors(self))

    def meta(self):
        for c in self.mro():
            if isinstance(c, ClassInfo) and c.metaclass is not None:
                return c.metaclass
        return None

    def __repr__(self):
        return "<class %s>" % self.name

    def __lt__(self, other):
        return self.qualname < other.qualname


def ext_ancestors(c):
    res = []
    for b in c.mro():
        if not isinstance(b, ClassInfo):
            res.append(b)
            py = getattr(builtins, b.split(".")[-1], None)
            if isinstance(py, type):
                res.extend(k.__name__ for k in py.__mro__)
    return res


def _c3(c):
    seqs = []
    for b in c.bases:
        seqs.append(list(b.mro()) if isinstance(b, ClassInfo) else [b])
    seqs.append(list(c.bases))
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            cand = seqs[0][0]
        out.append(cand)
        seqs = [[x for x in s if x != cand] for s in seqs]


class Module:
    def __init__(self, name, path, relpath, tree, source):
        self.name, self.path, self.relpath, self.tree, self.source = name, path, relpath, tree, source
        self.bindings = {}  # name -> ('func', FuncInfo) ('class', ClassInfo) ('mod', name) ('from', mod, name) ('expr', node)
        self.generics = {}  # generic name -> [FuncInfo]

    def __repr__(self):
        return "<module %s>" % self.name


class Program:
    def __init__(self, root="/repo", package="pddl"):
        self.root, self.package = root, package
        self.modules = {}
        self.classes = {}     # qualname -> ClassInfo
        self.functions = {}   # qualname -> FuncInfo
        self._load()

    def _load(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisError("package directory %s not found" % base)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                src = open(path, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (path, e))
                self.modules[name] = Module(name, path, rel, tree, src)
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for c in self.classes.values():
            self._resolve_class(c)
        self._accessors()

    def _collect(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(n.name, m.name + "." + n.name, n, m)
                m.bindings[n.name] = ("func", fi)
                if fi.generic_of:
                    m.generics.setdefault(fi.generic_of, []).append(fi)
                self.functions[fi.qualname] = fi
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n.name, n, m)
                m.bindings[n.name] = ("class", ci)
                self.classes[ci.qualname] = ci
                for s in n.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        fi = FuncInfo(s.name, ci.qualname + "." + s.name, s, m, ci)
                        ci.functions.append(fi)
                        if fi.kind == "setter":
                            fi.qualname += ".setter"
                            ci.setters[s.name] = fi
                        elif fi.generic_of:
                            if s.name not in ci.methods:
                                ci.methods[s.name] = fi
                            fi.qualname += "@%d" % len(ci.functions)
                        else:
                            ci.methods[s.name] = fi
                        self.functions[fi.qualname] = fi
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                ci.attrs[t.id] = s.value
                                ci.order.append(t.id)
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        ci.annots[s.target.id] = s.annotation
                        if s.value is not None:
                            ci.attrs[s.target.id] = s.value
                            ci.order.append(s.target.id)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.bindings[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    pk = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        pk = pk[:-1]
                    pk = pk[: len(pk) - (n.level - 1)]
                    mod = ".".join(pk + ([mod] if mod else []))
                for a in n.names:
                    m.bindings[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.bindings[t.id] = ("expr", n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for tt, vv in zip(t.elts, n.value.elts):
                            if isinstance(tt, ast.Name):
                                m.bindings[tt.id] = ("expr", vv)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.bindings[n.target.id] = ("expr", n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(m, n.body)
                for h in getattr(n, "handlers", []):
                    pass
                self._collect(m, getattr(n, "orelse", []))

    # -- name resolution -------------------------------------------------
    def lookup(self, module, name, _seen=None):
        """Resolve a module-level name: ('func', f) ('class', c) ('mod', name) ('expr', module, node) ('ext', dotted) None."""
        _seen = _seen or set()
        if (module.name, name) in _seen:
            return None
        _seen.add((module.name, name))
        b = module.bindings.get(name)
        if b is None:
            sub = self.modules.get(module.name + "." + name)
            if sub:
                return ("mod", sub.name)
            return None
        if b[0] == "from":
            target = self.modules.get(b[1])
            if target is None:
                return ("ext", b[1] + "." + b[2])
            r = self.lookup(target, b[2], _seen)
            if r is None:
                if b[1] + "." + b[2] in self.modules:
                    return ("mod", b[1] + "." + b[2])
                return ("ext", b[1] + "." + b[2])
            return r
        if b[0] == "mod":
            return ("mod", b[1])
        if b[0] == "expr":
            return ("expr", module, b[1])
        return b

    def resolve_expr_class(self, module, node):
        """Resolve an expression that names a class (base class, annotation atom)."""
        dn = dotted(node)
        if dn is None:
            if isinstance(node, ast.Subscript):
                return self.resolve_expr_class(module, node.value)
            return None
        parts = dn.split(".")
        r = self.lookup(module, parts[0])
        if r is None:
            return dn
        i = 1
        while r and r[0] == "mod" and i < len(parts):
            mm = self.modules.get(r[1])
            if mm is None:
                return r[1] + "." + ".".join(parts[i:])
            r = self.lookup(mm, parts[i])
            i += 1
        if r is None:
            return dn
        if r[0] == "class":
            return r[1]
        if r[0] == "ext":
            return r[1]
        return dn

    def _resolve_class(self, c):
        if c.bases:
            return
        for b in c.node.bases:
            r = self.resolve_expr_class(c.module, b)
            c.bases.append(r if r is not None else "?")
        for k in c.node.keywords:
            if k.arg == "metaclass":
                c.metaclass = self.resolve_expr_class(c.module, k.value)
        for d in c.node.decorator_list:
            dn = dotted(d.func if isinstance(d, ast.Call) else d)
            r = self.resolve_expr_class(c.module, d.func if isinstance(d, ast.Call) else d)
            c.decorators.append((dn or "?"))

    def cls(self, name):
        """Class by qualified name, or by bare name if unique."""
        if name in self.classes:
            return self.classes[name]
        c = [x for x in self.classes.values() if x.name == name]
        if len(c) == 1:
            return c[0]
        raise AnalysisError("class %r not found (or not unique) in the analysed package" % name)

    def func(self, qualname):
        f = self.functions.get(qualname)
        if f is not None:
            return f
        mod, _, nm = qualname.rpartition(".")
        if mod in self.modules:  # re-exported
            r = self.lookup(self.modules[mod], nm)
            if r and r[0] == "func":
                return r[1]
        raise AnalysisError("function %r not found in the analysed package" % qualname)

    def method(self, cls, name):
        if isinstance(cls, str):
            cls = self.cls(cls)
        r = cls.find(name)
        if r is None or r[1] != "method":
            raise AnalysisError("method %s.%s not found in the analysed package" % (cls.name, name))
        return r[2]

    def subclasses(self, cls, strict=False):
        return [c for c in self.classes.values() if cls in c.mro() and not (strict and c is cls)]

    # -- trivial accessors: property p returning self.f (possibly copied) --------
    def _accessors(self):
        self.field_to_public = {}
        self.trivial = set()        # the accessors that return a field and do nothing else
        fields = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                if f.kind != "property":
                    continue
                body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) != 1 or not isinstance(body[0], ast.Return):
                    continue
                v = body[0].value
                while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list", "frozenset", "set", "cast") and v.args:
                    v = v.args[-1]
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and v.attr.startswith("_"):
                    fields.setdefault(v.attr, set()).add(n)
                    self.trivial.add(f.qualname)
        for f, ps in fields.items():
            if f[1:] in ps:
                self.field_to_public[f] = f[1:]

    def canon(self, attr):
        return self.field_to_public.get(attr, attr)
