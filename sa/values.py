"""Abstract values of the value-provenance domain.

All values are immutable and hashable; mutable objects are Refs into the abstract heap.
"""


class V:
    __slots__ = ("_k", "_h")

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key())

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def __lt__(self, o):
        return repr(self) < repr(o)


def _mk(name, *fields):
    def __init__(self, *args):
        if len(args) != len(fields):
            raise TypeError("%s: %r" % (name, args))
        for f, a in zip(fields, args):
            setattr(self, f, a)

    def key(self):
        try:
            return self._k
        except AttributeError:
            self._k = tuple(getattr(self, f) for f in fields)
            return self._k

    return type(name, (V,), {"__slots__": fields, "__init__": __init__, "key": key, "FIELDS": fields})


_Const = _mk("Const", "v")


class Const(_Const):
    __slots__ = ()

    def key(self):
        return (type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v)


class Enum_(_mk("Enum_", "cls", "member")):
    __slots__ = ()

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.member)


class Cls(_mk("Cls", "c")):
    __slots__ = ()

    def __repr__(self):
        return "<%s>" % self.c.name


class Fn(_mk("Fn", "f", "self_", "env")):
    """Function value; env is None or a tuple of captured bindings."""
    __slots__ = ()

    def key(self):
        return (self.f.qualname, self.f.node.lineno, getattr(self.f.node, "col_offset", 0), self.self_)

    def __repr__(self):
        return "<fn %s>" % self.f.qualname


class Partial(_mk("Partial", "fn", "args", "kwargs")):
    __slots__ = ()

    def __repr__(self):
        return "partial(%r,%r)" % (self.fn, self.args)


class Mod(_mk("Mod", "name")):
    __slots__ = ()

    def __repr__(self):
        return "<mod %s>" % self.name


class Ext(_mk("Ext", "name")):
    """External function/class/object, by dotted name ('builtins.len')."""
    __slots__ = ()

    def __repr__(self):
        return "<ext %s>" % self.name


class Meth(_mk("Meth", "recv", "name")):
    """Bound method of a builtin / symbolic value."""
    __slots__ = ()

    def __repr__(self):
        return "%r.%s" % (self.recv, self.name)


class Sym(_mk("Sym", "name", "typ")):
    """Symbolic input."""
    __slots__ = ()

    def key(self):
        return (self.name,)

    def __repr__(self):
        return self.name


class Attr(_mk("Attr", "base", "name")):
    __slots__ = ()

    def __repr__(self):
        return "%r.%s" % (self.base, self.name)


class Elem(_mk("Elem", "src", "depth")):
    """The generic element of an iteration over src (src stripped of order/copy wrappers)."""
    __slots__ = ()

    def __repr__(self):
        return "elem%s(%r)" % (self.depth or "", self.src)


class Idx(_mk("Idx", "src", "depth")):
    __slots__ = ()

    def __repr__(self):
        return "idx(%r)" % (self.src,)


class App(_mk("App", "op", "args")):
    __slots__ = ()

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Ref(_mk("Ref", "id")):
    __slots__ = ()

    def __repr__(self):
        return "#%d" % self.id


class Seq(_mk("Seq", "kind", "parts")):
    """Immutable sequence value; kind in tuple/frozenset/gen and, when frozen, list/set/dict."""
    __slots__ = ()

    def __repr__(self):
        return "%s%r" % (self.kind, list(self.parts))


class New(_mk("New", "cls", "fields")):
    """Frozen instance: fields is a sorted tuple of (name, value)."""
    __slots__ = ()

    def __repr__(self):
        return "%s{%s}" % (self.cls.name, ", ".join("%s=%r" % kv for kv in self.fields))

    def get(self, f, default=None):
        return dict(self.fields).get(f, default)


class Pair(_mk("Pair", "k", "v")):
    __slots__ = ()

    def __repr__(self):
        return "%r: %r" % (self.k, self.v)


class Grp(_mk("Grp", "v", "k")):
    """Value of a dict entry that is a group, made under key k, to which v was added."""
    __slots__ = ()

    def __repr__(self):
        return "grp(%r)" % (self.v,)


class Slot(_mk("Slot", "ref", "k")):
    """A group slot of the dict ref under key k (setdefault(k, []))."""
    __slots__ = ()

    def __repr__(self):
        return "slot(%r,%r)" % (self.ref, self.k)


class One(_mk("One", "v")):
    __slots__ = ()

    def __repr__(self):
        return repr(self.v)


class Spread(_mk("Spread", "src")):
    """All the elements of src, in the order of src."""
    __slots__ = ()

    def __repr__(self):
        return "*%r" % (self.src,)


class Each(_mk("Each", "src", "alts")):
    """For each element of src: the parts of the alternative whose guard holds.  alts: ((guard, parts), ...)."""
    __slots__ = ()

    def __repr__(self):
        return "each(%r: %s)" % (self.src, "; ".join("%s=>%r" % (fmt_guard(g), list(p)) for g, p in self.alts))


class AccP(_mk("AccP", "id")):
    """Unknown content accumulated by the previous iterations."""
    __slots__ = ()

    def __repr__(self):
        return "acc%s" % (self.id,)


class Fmt(_mk("Fmt", "parts")):
    """String template; parts: str | V (its str()) | Join."""
    __slots__ = ()

    def __repr__(self):
        return "f<%s>" % "".join(p if isinstance(p, str) else "{%r}" % (p,) for p in self.parts)


class Join(_mk("Join", "sep", "parts")):
    """sep.join(parts), parts are sequence parts whose values are strings (or templates)."""
    __slots__ = ()

    def __repr__(self):
        return "join(%r, %r)" % (self.sep, list(self.parts))


class ExcV(_mk("ExcV", "cls", "args")):
    """An exception instance; cls is a ClassInfo or the dotted name of an external class."""
    __slots__ = ()

    def __repr__(self):
        return "%s%r" % (getattr(self.cls, "name", self.cls), tuple(self.args))


class Exc:
    """A raised exception (control outcome, not a value)."""
    __slots__ = ("exc", "node", "fn")

    def __init__(self, exc, node=None, fn=None):
        self.exc, self.node, self.fn = exc, node, fn

    def __repr__(self):
        return "raise %r" % (self.exc,)

    def where(self):
        if self.fn is not None and self.node is not None:
            return "%s:%d" % (self.fn.module.relpath, self.node.lineno)
        return "?"


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


def fmt_guard(g):
    return "[" + ", ".join(("" if b else "!") + repr(c) for c, b in g) + "]"


def walk(v):
    """All sub-values of a value."""
    yield v
    if isinstance(v, V):
        for k in v.key():
            yield from walk(k)
    elif isinstance(v, (tuple, frozenset)):
        for k in v:
            yield from walk(k)


def subst(v, f):
    """Rebuild v bottom-up, replacing with f(v) where it returns not None."""
    if isinstance(v, V):
        r = f(v)
        if r is not None:
            return r
        if isinstance(v, (Const, Enum_, Cls, Fn, Mod, Ext, Ref, Sym)):
            return v
        cls = type(v)
        return cls(*(subst(getattr(v, x), f) for x in cls.FIELDS))
    if isinstance(v, tuple):
        return tuple(subst(x, f) for x in v)
    if isinstance(v, frozenset):
        return frozenset(subst(x, f) for x in v)
    return v
