"""C18: what a parser makes of a text depends on that text alone.

Every parser is made and called once by the interpreter; then everything its transformers hold that their methods write or change in place is
replaced by a value standing for whatever any sequence of earlier texts, accepted or not, left there, and the parser is called again.  When the
text is handed to the grammar, none of those values may be left.  Module-level and class-level objects may not be changed at all.
"""
import ast

from ..effects import Effects
from ..interp import Interp
from ..program import ClassInfo
from ..state import HInst, HSeq, State
from ..values import App, Attr, Const, Exc, Fmt, Idx, Meth, One, Ref, Spread, Sym, V

MINIMUM = 30


def mentions(v, pred):
    if isinstance(v, V) and pred(v):
        return True
    if isinstance(v, (tuple, frozenset, list)):
        return any(mentions(x, pred) for x in v)
    return isinstance(v, V) and any(mentions(getattr(v, x), pred) for x in v.FIELDS)


def stale(v):
    return isinstance(v, Sym) and v.name.startswith("$stale.")


def is_transformer(c):
    from ..interp import ext_ancestors
    return any(str(x).split(".")[-1] == "Transformer" for x in ext_ancestors(c))


class Tracer(Interp):
    """Watches which transformers are given a text, and in what state."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.attr_types = {}
        self.larks = {}         # value of a Lark object -> transformer it was made with
        self.handed = []        # (state, transformer reference) at the time a text is handed over
        self.texts = []         # (what is handed over, node)
        self.unknown = []
        self.watch = False

    def call_ext(self, name, parts, kwargs, st, node):
        out = super().call_ext(name, parts, kwargs, st, node)
        if name.split(".")[-1] == "Lark":
            for s, v in out:
                if not isinstance(v, Exc):
                    self.larks[v] = kwargs.get("transformer")
        return out

    def parsing(self, fv):
        """The reference of the transformer a call of fv runs (None: no such call)."""
        if not isinstance(fv, Attr) and not isinstance(fv, Meth):
            return None
        b = fv.base if isinstance(fv, Attr) else fv.recv
        if fv.name in ("parse", "parse_interactive"):
            if b in self.larks:
                return self.larks[b] or "none"
            return "?" if not isinstance(b, Ref) else None
        return None

    def call(self, fv, parts, kwargs, st, node=None):
        if self.watch:
            r = self.parsing(fv)
            if r not in (None, "none"):
                self.handed.append((st, r))
                self.note(parts, kwargs, st, node)
        out = super().call(fv, parts, kwargs, st, node)
        return out

    def note(self, parts, kwargs, st, node):
        v = parts[0].v if parts and isinstance(parts[0], One) else kwargs.get("text")
        self.texts.append((self.fz(v, st) if v is not None else None, node))

    # The newlines of a text to be parsed end its comments, so that white space is not all the same here.
    def join(self, sep, parts, st):
        parts = tuple(parts)
        v = super().join(sep, parts, st)
        if not isinstance(v, Fmt) and len(parts) == 1 and not isinstance(parts[0], One) and "\n" not in sep:
            return App("joined", (Const(sep), v))
        return v

    def str_meth(self, recv, name, parts, kwargs, st, node):
        vs = [p.v for p in parts if isinstance(p, One)]
        if name == "replace" and len(vs) == 2 and isinstance(vs[0], Const) and isinstance(vs[1], Const) and "\n" in vs[0].v and "\n" not in vs[1].v:
            return [(st, App("joined", (vs[1], self.fz(recv, st))))]
        return super().str_meth(recv, name, parts, kwargs, st, node)

    def getattr(self, base, attr, st, node=None):
        if attr == "transform" and isinstance(base, Ref) and isinstance(st.heap[base.id], HInst) and is_transformer(st.heap[base.id].cls) and not st.heap[base.id].cls.find("transform"):
            return [(st, Meth(base, attr))]
        return super().getattr(base, attr, st, node)

    def call_meth(self, recv, name, parts, kwargs, st, node):
        if name == "transform" and isinstance(recv, Ref) and isinstance(st.heap[recv.id], HInst) and is_transformer(st.heap[recv.id].cls):
            if self.watch:
                self.handed.append((st, recv))
            s = st.clone()
            return [(s, App("transformed", (Const(node.lineno if node else 0),)))]
        if self.watch:
            r = self.parsing(Meth(recv, name))
            if r not in (None, "none"):
                self.handed.append((st, r))
                self.note(parts, kwargs, st, node)
        return super().call_meth(recv, name, parts, kwargs, st, node)


def parsers(prog):
    out = []
    for c in prog.classes.values():
        if c.find("__call__") and is_transformer(c) and c.find("__call__")[1] == "method" and not prog.subclasses(c, strict=True):
            out.append(c)
    return sorted(out, key=lambda c: c.qualname)


def place(st, ref, path):
    """(holder, field) for a path; the field need not exist yet."""
    for n in path[:-1]:
        v = st.heap[ref.id].fields.get(n)
        if not (isinstance(v, Ref) and isinstance(st.heap[v.id], HInst)):
            return None
        ref = v
    return ref, path[-1]


class Writes:
    """Which fields of a transformer its methods write or change in place: {class: {path: where}}."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def of(self, st, ref):
        cls = st.heap[ref.id].cls
        if cls in self.memo:
            return self.memo[cls]
        out = {}
        self.memo[cls] = out
        seen = set()
        for b in cls.mro():
            if not isinstance(b, ClassInfo):
                continue
            for n, f in list(b.methods.items()) + list(b.setters.items()):
                if n == "__init__" or n in seen or f.kind in ("staticmethod", "classmethod"):
                    continue
                seen.add(n)
                e = Effects(self.ctx.prog)
                root = self.shape(e, st, ref, ())
                e.run(f, bind={f.node.args.args[0].arg: {root}} if f.node.args.args else None)
                self.ctx.analysed.update(e.visited)
                for (o, what, file, line), fn in e.found.items():
                    p = getattr(o, "path", None)
                    if p is None:
                        continue
                    p = p + (what,) if o.kind == "param" else p
                    out.setdefault(p, (file, "%d %s" % (line, fn.qualname)))
        return out

    def shape(self, e, st, ref, path):
        """Objects standing for the transformer and what it holds."""
        h = st.heap[ref.id]
        o = e.param("$" + ".".join(("self",) + path), h.cls)
        o.path = path
        for n, v in h.fields.items():
            if isinstance(v, Ref) and isinstance(st.heap[v.id], HInst):
                x = self.shape(e, st, v, path + (n,))
            else:
                x = e.obj(("reach", "$" + ".".join(("self",) + path + (n,))), "reach", ".".join(path + (n,)))
                x.path = path + (n,)
                e.put(x, "*", {x})
            e.heap[(o, n)] = frozenset({x})
        return o


def parser(ctx, c, writes):
    it = Tracer(ctx.prog)
    it.nstates = 0
    call = c.find("__call__")[2]
    made = [(s, r) for s, r in it.instantiate(c, [], {}, State(), None) if isinstance(r, Ref)]
    if not made:
        ctx.undecided("isolated", c, "no way to make a %s" % c.name)
        return
    n = 0
    for s, r in made:
        it.watch = False
        for s1, r1 in it.call_func(call, r, [One(Sym("$first", ("py", "str")))], {}, s, None):
            if isinstance(r1, Exc):
                continue
            ctx.guard("isolated", call, kept, ctx, c, it, s, s1, r)
            it.handed = []
            it.watch = True
            held = {}
            s2 = s1.clone()
            # every transformer of the heap, however it is held
            roots = [Ref(i) for i, h in s2.heap.items() if isinstance(h, HInst) and is_transformer(h.cls) and not h.cls.find("__call__")]
            for x in roots:
                for p, where in writes.of(s1, x).items():
                    f = place(s2, x, p)
                    if f is not None:
                        held[f] = (x, p, where)
            for (ref, fld), (x, p, where) in held.items():
                mark = Sym("$stale." + ".".join(p), None)
                v = s2.heap[ref.id].fields.get(fld)
                if isinstance(v, Ref) and isinstance(s2.heap[v.id], HSeq):
                    s2.heap[v.id] = s2.heap[v.id].with_parts((Spread(mark),))
                else:
                    s2.heap[ref.id] = s2.heap[ref.id].set(fld, mark)
            done = list(it.call_func(call, r, [One(Sym("$text", ("py", "str")))], {}, s2, None))
            ctx.analysed.update(it.visited)
            if not it.handed:
                ctx.undecided("isolated", call, "no place found where the text is handed to the grammar")
                return
            for st, t in it.handed:
                if t == "?" or not isinstance(t, Ref):
                    ctx.undecided("isolated", call, "the transformer that processes the text is not known")
                    return
                judge(ctx, c, it, st, t, writes)
                n += 1
    if not n:
        ctx.undecided("isolated", call, "no call of the parser returns")


CASES = (".lower", ".upper", ".casefold", ".title", ".capitalize", ".swapcase")


def faithful(v, text):
    """Does the value say all that the text says?  True, False, or None if this cannot be told."""
    if v == text:
        return True
    if isinstance(v, Idx) and v.base == text:
        return False
    if isinstance(v, Fmt):
        rest = [p for p in v.parts if not (isinstance(p, str) and not p.strip() or isinstance(p, Const) and not str(p.v).strip())]
        return faithful(rest[0], text) if len(rest) == 1 and isinstance(rest[0], V) else None
    if not isinstance(v, App) or not v.args:
        return None
    a = v.args
    if v.op == "item" and isinstance(a[0], App) and a[0].op in (".split", ".partition") and a[0].args[0] == text:
        sep = a[0].args[1:]
        return False if sep and isinstance(sep[0], Const) and isinstance(sep[0].v, str) and sep[0].v.isascii() and sep[0].v.isprintable() else None
    if v.op == "joined":
        return False if faithful(a[-1], text) is not None else None
    if a[0] != text and faithful(a[0], text) is not True:
        return faithful(a[0], text)
    if v.op in CASES:
        return False
    if v.op in (".strip", ".rstrip", ".lstrip", ".expandtabs"):
        if len(a) == 1 or v.op == ".expandtabs":
            return True
        return False if isinstance(a[1], Const) and isinstance(a[1].v, str) and a[1].v.strip() and a[1].v.isascii() else None
    if v.op in (".replace", ".removesuffix", ".removeprefix") and len(a) > 1 and isinstance(a[1], Const) and isinstance(a[1].v, str):
        return False if a[1].v.isascii() and any(c.isalnum() or c in "()" for c in a[1].v) else None
    if v.op in ("slice", "item", "getitem", "len"):
        return False
    return None


def kept(ctx, c, it, s, s1, r):
    """What the parser itself remembers of earlier texts is not its answer to another one."""
    mine = {}
    s2 = s1.clone()
    for n, v in s1.heap[r.id].fields.items():
        if not (isinstance(v, Ref) and isinstance(s1.heap[v.id], HSeq)):
            continue
        before = s.heap[r.id].fields.get(n)
        if isinstance(before, Ref) and before.id in s.heap and it.fz(before, s) == it.fz(v, s1):
            continue
        if s1.heap[v.id].kind == "dict":
            mine[n] = Sym("$mine." + n, None)
            s2.heap[r.id] = s2.heap[r.id].set(n, mine[n])
    if not mine:
        return
    call = c.find("__call__")[2]
    text = Sym("$text", ("py", "str"))
    own = lambda v: v in mine.values()
    it.watch = False
    for s3, v in it.call_func(call, r, [One(text)], {}, s2, None):
        v = it.fz(v, s3) if isinstance(v, V) and not isinstance(v, Exc) else v
        if not (isinstance(v, V) and mentions(v, own)):
            continue
        keys = set()
        look(v, own, keys)
        table = ", ".join(sorted(n for n, m in mine.items() if mentions(v, lambda x: x == m)))
        told = [faithful(k, text) for k in keys]
        if False in told:
            ctx.violation("isolated", call, "%s answers with what it remembers in %s of a text with the same %s, which may be another text" % (c.name, table, [k for k, t in zip(keys, told) if t is False][0]), "remembered:%s:%s" % (c.name, table))
        elif told and None not in told:
            ctx.ok("isolated", call, "%s remembers its answers in %s by the whole text" % (c.name, table))
        else:
            ctx.undecided("isolated", call, "whether the answer %s remembers in %s is that to the same text: %s" % (c.name, table, v))


def look(v, own, keys):
    """The keys under which tables are read in v (None: read otherwise)."""
    if isinstance(v, V) and own(v):
        keys.add(None)
    elif isinstance(v, App) and v.op in ("item", "getitem", ".get", "in", ".pop") and len(v.args) >= 2 and own(v.args[0]):
        keys.add(v.args[1])
    elif isinstance(v, App) and v.op in ("call", "callv") and len(v.args) >= 2 and isinstance(v.args[0], Attr) and v.args[0].name in ("get", "pop", "setdefault") and own(v.args[0].base):
        keys.add(v.args[1])
    elif isinstance(v, (tuple, frozenset, list)):
        for x in v:
            look(x, own, keys)
    elif isinstance(v, V):
        for x in v.FIELDS:
            look(getattr(v, x), own, keys)


def judge(ctx, c, it, st, t, writes):
    depends = any(mentions(x, stale) for x in st.log)
    for p, where in sorted(writes.of(st, t).items()):
        f = place(st, t, p)
        if f is None or f[1] not in st.heap[f[0].id].fields:
            continue
        ref, fld = f
        v = it.fz(st.heap[ref.id].fields[fld], st)
        label = "%s.%s" % (st.heap[t.id].cls.name, ".".join(p))
        if not mentions(v, stale):
            ctx.ok("isolated", c, "%s holds nothing of earlier texts when a %s is handed one" % (label, c.name))
        elif depends:
            ctx.undecided("isolated", c, "whether %s is forgotten depends on what earlier texts left" % label)
        else:
            ctx.violation("isolated", where, "%s is written while a text is processed, and still holds what earlier texts left when %s is handed the next one" % (label, c.name), "isolated:%s:%s" % (c.name, label))


def shared(ctx):
    """No module-level or class-level object is changed by any function."""
    for q, f in sorted(ctx.prog.functions.items()):
        if f.module.name.endswith("__main__"):
            continue
        ctx.guard("shared", f, one_shared, ctx, f)


def own_table(prog, name, f):
    """Is the module-level table used by that function alone?"""
    used = set()
    for g in prog.functions.values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name:
                used.add(id(g.node))
    return used == {id(f.node)}


def one_shared(ctx, f):
    e = Effects(ctx.prog)
    found = e.run(f, fresh_self=f.name == "__init__")
    ctx.analysed.update(e.visited)
    bad = False
    for o, what, file, line, fn in found:
        if o.kind == "global" and fn is f:
            if what == "[]" and own_table(ctx.prog, o.label.split(".")[-1], f):
                ctx.undecided("shared", f, "%s, which only it uses, may hold results it has computed before" % o.label)
                continue
            bad = True
            ctx.violation("shared", (file, "%d %s" % (line, fn.qualname)), "%s changes %s, which outlives the call" % (f.qualname, o.label), "shared:%s:%s" % (f.qualname, o.label))
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Global,)):
            bad = True
            ctx.violation("shared", (f.module.relpath, "%d %s" % (n.lineno, f.qualname)), "%s rebinds the module-level name %s" % (f.qualname, ", ".join(n.names)), "global:%s:%s" % (f.qualname, ",".join(n.names)))
    if not bad:
        ctx.ok("shared", f, "%s leaves the module-level and class-level objects as they are" % f.qualname)


def run(ctx):
    w = Writes(ctx)
    for c in parsers(ctx.prog):
        ctx.guard("isolated", c, parser, ctx, c, w)
    shared(ctx)
