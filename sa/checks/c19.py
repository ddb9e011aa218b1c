"""C19: library calls leave the interpreter's own settings as they were, whether they return or raise.

Every function of the package that stores into an attribute of another library's module, or calls a library function that changes a setting of
the process, is interpreted with every call into unknown code both returning and raising: on each outcome the last value stored has to be the
one read before the first store.  A function whose own outcomes do not restore is followed to its callers.  Files are opened only by functions
that close them.
"""
import ast
import builtins

from ..interp import Interp
from ..state import State
from ..values import App, Attr, Const, Exc, ExcV, Ext, Meth, NONE, One, Sym, V

MINIMUM = 20

# library functions that change a setting of the process, and how it is read (None: it cannot be)
SETTERS = {
    "sys.setrecursionlimit": "sys.getrecursionlimit", "os.chdir": "os.getcwd", "sys.setswitchinterval": "sys.getswitchinterval",
    "sys.settrace": "sys.gettrace", "sys.setprofile": "sys.getprofile", "random.seed": None, "random.setstate": "random.getstate",
    "os.umask": None, "os.putenv": None, "os.unsetenv": None, "locale.setlocale": "locale.getlocale", "signal.signal": "signal.getsignal",
    "warnings.simplefilter": None, "warnings.filterwarnings": None, "warnings.resetwarnings": None, "logging.basicConfig": None,
    "logging.disable": None, "gc.disable": None, "gc.enable": None, "gc.set_threshold": "gc.get_threshold", "socket.setdefaulttimeout": "socket.getdefaulttimeout",
    "faulthandler.enable": None, "faulthandler.disable": None, "threading.stack_size": None, "threading.setrecursionlimit": None,
    "sys.set_int_max_str_digits": "sys.get_int_max_str_digits", "os.nice": None, "resource.setrlimit": "resource.getrlimit", "atexit.register": None,
}
OPENERS = ("open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.open", "os.fdopen", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile")


def mentions(v, pred):
    if isinstance(v, V) and pred(v):
        return True
    if isinstance(v, (tuple, frozenset, list)):
        return any(mentions(x, pred) for x in v)
    return isinstance(v, V) and any(mentions(getattr(v, x), pred) for x in v.FIELDS)


def imports(node):
    """{name: dotted} of the imports inside a function."""
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def dotted(prog, module, n, local=None):
    """Dotted name of a library object an expression denotes (None: something else)."""
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    if local and n.id in local:
        return ".".join([local[n.id]] + parts[::-1]) if local[n.id].split(".")[0] not in {m.split(".")[0] for m in prog.modules} else None
    r = prog.lookup(module, n.id)
    if r is None and n.id in dir(builtins):
        return ".".join([n.id] + parts[::-1])
    if not r or r[0] not in ("ext", "mod") or r[0] == "mod" and r[1] in prog.modules:
        return None
    return ".".join([r[1].replace("builtins.", "")] + parts[::-1])


class Raising(Interp):
    """Calls into unknown code return, and raise."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.attr_types = {}
        self.calm = 0

    def module_name(self, module, n, st, node=None):
        self.calm += 1
        try:
            return super().module_name(module, n, st, node)
        finally:
            self.calm -= 1

    def getattr(self, base, attr, st, node=None):
        if isinstance(base, Ext) and (base, self.prog.canon(attr)) in st.over:
            return [(st, st.over[(base, self.prog.canon(attr))])]
        return super().getattr(base, attr, st, node)

    def x_getattr(self, parts, kwargs, st, node):
        if len(parts) > 1 and all(isinstance(p, One) for p in parts[:2]) and isinstance(parts[0].v, Ext) and isinstance(parts[1].v, Const) and (parts[0].v, parts[1].v.v) in st.over:
            return [(st, st.over[(parts[0].v, parts[1].v.v)])]
        return super().x_getattr(parts, kwargs, st, node)

    def raised(self, st, node):
        return [] if self.calm else [(st.clone(), Exc(ExcV("Unknown", ()), node, self.stack[-1][0]))]

    def call(self, fv, parts, kwargs, st, node=None):
        out = super().call(fv, parts, kwargs, st, node)
        if isinstance(fv, (Attr, App, Sym)) and not (self.type_of(fv, st) or (None,))[0] == "cls":
            out = list(out) + self.raised(st, node)
        return out

    def call_func(self, f, self_, args, kwargs, st, node, **k):
        out = super().call_func(f, self_, args, kwargs, st, node, **k)
        if self.no_inline(f):
            out = list(out) + self.raised(st, node)
        return out

    def call_ext(self, name, parts, kwargs, st, node):
        out = super().call_ext(name, parts, kwargs, st, node)
        first = name.split(".")[0]
        if first not in ("builtins", "super", "typing", "sys") and not name.split(".")[-1][:1].isupper():
            out = list(out) + self.raised(st, node)
        return out

    def call_meth(self, recv, name, parts, kwargs, st, node):
        out = super().call_meth(recv, name, parts, kwargs, st, node)
        if isinstance(recv, (Sym, Attr, App, Ext)) and (not isinstance(recv, (Sym, Attr)) or (self.type_of(recv, st) or ("?",))[0] in ("?", "inst")):
            out = list(out) + self.raised(st, node)
        return out

    def e_Yield(self, n, st):
        out = [(s, v) for s, v in super().e_Yield(n, st)] if hasattr(super(), "e_Yield") else [(st, NONE)]
        return out + self.raised(st, n)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Yield) and self.managed():
            return [(st, None)] + self.raised(st, n)
        return super().s_Expr(n, st)

    def s_Assign(self, n, st):
        if isinstance(n.value, ast.Yield) and self.managed():
            return [(st, None)] + self.raised(st, n)
        return super().s_Assign(n, st)

    def managed(self):
        return any(d.split(".")[-1] == "contextmanager" for d in self.stack[-1][0].decorators)


def sites(ctx, f, body=None):
    """[(node, what)] places of a function that change a setting of the process."""
    out = []
    module = f.module
    local = imports(f.node)
    for n in ast.walk(f.node):
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target]
        elif isinstance(n, ast.Delete):
            targets = n.targets
        elif isinstance(n, ast.Call):
            d = dotted(ctx.prog, module, n.func, local)
            if d in SETTERS:
                out.append((n, d))
            if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
                d = dotted(ctx.prog, module, n.args[0], local)
                if d:
                    out.append((n, d))
        flat = []
        for t in targets:
            flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
        for t in flat:
            if isinstance(t, ast.Subscript):
                d = dotted(ctx.prog, module, t.value, local)
                if d:
                    out.append((n, d))
            elif isinstance(t, ast.Attribute):
                d = dotted(ctx.prog, module, t, local)
                if d:
                    out.append((n, d))
    return out


def original(v, name):
    """Is v the value the setting `name` had? None: cannot tell."""
    mod, attr = name.rsplit(".", 1)
    if v == Ext(name):
        return True
    if isinstance(v, App) and v.op == "getattr" and v.args[:2] == (Ext(mod), Const(attr)):
        return True if len(v.args) < 3 or v.args[2] == NONE else None
    return False


def outcomes(ctx, f, through=()):
    it = Raising(ctx.prog, no_inline=lambda g: g.node is not f.node and not any(g.node is h.node for h in through) and not sites(ctx, g))
    it.nstates = 0
    args = []
    for a in f.node.args.posonlyargs + f.node.args.args:
        args.append(Sym(a.arg, it.ann_type(f.module, a.annotation) if a.annotation is not None else None))
    self_ = None
    if f.cls is not None and f.kind not in ("staticmethod",):
        args = args[1:]
        from ..values import Cls
        self_ = Cls(f.cls) if f.kind == "classmethod" else Sym("self", ("inst", f.cls, False))
    out = it.run(f, args, {}, self_, State())
    ctx.analysed.update(it.visited)
    return it, out


def early(st, getter, setter):
    """Is the setting read before it is first changed?"""
    for e in st.events:
        if e.kind == "ext" and e.name == getter:
            return True
        if e.kind == "ext" and e.name == setter:
            return False
    return False


def restores(ctx, f, through=()):
    """[(setting, kind of outcome, what it is left as)] for the settings f leaves changed; raises Undecided."""
    it, out = outcomes(ctx, f, through)
    bad, und = [], []
    for st, kind, v in out:
        last = {}
        for e in st.events:
            if e.kind == "write" and e.args and isinstance(e.args[0], Ext):
                last[e.args[0].name + "." + str(e.name)] = e.args[1] if len(e.args) > 1 else None
            elif e.kind == "ext" and e.name in SETTERS:
                last[e.name] = e.args[-1] if e.args else None
        how = "raises" if kind == "exc" else "returns"
        for name, w in sorted(last.items()):
            if name in SETTERS:
                g = SETTERS[name]
                if not (g and early(st, g, name) and w is not None and mentions(w, lambda x: isinstance(x, App) and x.op == "ext:" + g)):
                    bad.append((name, how, w))
                continue
            o = original(w, name)
            if o is True:
                continue
            if w == App("deleted", ()):
                o = None if mentions(tuple(st.log), lambda x: isinstance(x, Const) and x.v == name.rsplit(".", 1)[1]) else False
                if o is None:
                    continue
            (und if o is None else bad).append((name, how, w))
    return bad, und, len(out)


def callers(ctx, f):
    out = []
    for g in ctx.prog.functions.values():
        if g.node is f.node:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name:
                out.append(g)
                break
    return out


def setting(ctx, f, seen=()):
    bad, und, n = restores(ctx, f, seen)
    if not bad and not und:
        ctx.ok("restored", f, "%s restores what it changes on each of its %d outcomes" % (f.qualname, n))
        return
    if und and not bad:
        ctx.undecided("restored", f, "%s is left as %s" % (und[0][0], und[0][2]))
        return
    if f.name in ("__enter__", "__exit__", "__aenter__", "__aexit__"):
        ctx.undecided("restored", f, "one half of a context manager")
        return
    up = [g for g in callers(ctx, f) if g not in seen]
    if up and not public(f):
        for g in up:
            setting(ctx, g, seen + (f,))
        return
    for name, how, w in sorted(set((a, b, repr(c)) for a, b, c in bad))[:3]:
        ctx.violation("restored", f, "when %s %s, %s is left as %s and not as it was" % (f.qualname, how, name, w), "restored:%s:%s:%s" % (f.qualname, name, how))


def public(f):
    return (not f.name.startswith("_") or f.name.startswith("__")) and (f.cls is None or not f.cls.name.startswith("_"))


def files(ctx, f):
    parents = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        d = dotted(ctx.prog, f.module, n.func, imports(f.node))
        path = isinstance(n.func, ast.Attribute) and n.func.attr == "open" and d is None
        if not (d in OPENERS or path):
            continue
        where = (f.module.relpath, "%d %s" % (n.lineno, f.qualname))
        p = parents.get(n)
        if isinstance(p, ast.withitem):
            ctx.ok("closed", where, "%s opens a file in a with statement" % f.qualname)
        elif isinstance(p, ast.Call):
            ctx.undecided("closed", where, "the file is given to another function")
        elif isinstance(p, ast.Return):
            ctx.undecided("closed", where, "the file is handed to the caller")
        elif isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            name = p.targets[0].id

            def closes(m):
                return isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "close" and isinstance(m.func.value, ast.Name) and m.func.value.id == name
            final = any(isinstance(t, ast.Try) and any(closes(m) for b in t.finalbody for m in ast.walk(b)) for t in ast.walk(f.node))
            used_with = any(isinstance(w, ast.withitem) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(w.context_expr)) for w in ast.walk(f.node))
            if final or used_with:
                ctx.ok("closed", where, "%s closes the file it opens in any case" % f.qualname)
            else:
                ctx.violation("closed", where, "%s opens a file that stays open when an operation on it fails" % f.qualname, "closed:%s" % f.qualname)
        else:
            ctx.violation("closed", where, "%s opens a file and does not close it" % f.qualname, "closed:%s" % f.qualname)


def top_level(ctx, m):
    bad = False
    for s in m.tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue

        class F:
            node, module, qualname = s, m, m.name
        for n, d in sites(ctx, F):
            bad = True
            ctx.violation("imported", (m.relpath, "%d" % n.lineno), "importing %s changes %s" % (m.name, d), "imported:%s:%s" % (m.name, d))
    if not bad:
        ctx.ok("imported", (m.relpath, "1"), "importing %s changes no setting of the process" % m.name)


def run(ctx):
    for q, m in sorted(ctx.prog.modules.items()):
        if m.name.endswith("__main__"):
            continue
        ctx.guard("imported", (m.relpath, "1"), top_level, ctx, m)
    for q, f in sorted(ctx.prog.functions.items()):
        if f.module.name.endswith("__main__"):
            continue
        ctx.analysed.add(f.qualname)
        if sites(ctx, f):
            ctx.guard("restored", f, setting, ctx, f)
        files(ctx, f)
