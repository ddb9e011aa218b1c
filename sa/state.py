"""Abstract state: locals, heap, path facts, events."""
from .values import *


class Undecided(Exception):
    """The analysis cannot represent a construct: no verdict for the obligation at hand."""

    def __init__(self, msg, node=None, fn=None):
        loc = ""
        if fn is not None and node is not None and hasattr(node, "lineno"):
            loc = " at %s:%d" % (fn.module.relpath, node.lineno)
        super().__init__(msg + loc)


class HInst:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def set(self, n, v):
        d = dict(self.fields)
        d[n] = v
        return HInst(self.cls, d)


class HSeq:
    """list / set / dict content."""
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, tuple(parts)

    def with_parts(self, parts):
        return HSeq(self.kind, parts)


class Event:
    __slots__ = ("kind", "name", "args", "node", "fn", "guard", "loops")

    def __init__(self, kind, name, args, node, fn, guard=(), loops=()):
        self.kind, self.name, self.args = kind, name, args
        self.node, self.fn, self.guard, self.loops = node, fn, guard, loops

    def where(self):
        if self.fn is not None and self.node is not None:
            return "%s:%d" % (self.fn.module.relpath, self.node.lineno)
        return "?"

    def __repr__(self):
        return "%s %s%r%s%s" % (self.kind, self.name, tuple(self.args), fmt_guard(self.guard) if self.guard else "", " over %r" % (self.loops,) if self.loops else "")


class State:
    __slots__ = ("locals", "heap", "over", "atoms", "cards", "log", "events", "depth")

    def __init__(self):
        self.locals = {}
        self.heap = {}
        self.over = {}     # overlay of attribute writes on symbolic objects
        self.atoms = {}    # cond -> bool
        self.cards = {}    # collection -> frozenset of {0,1,2}
        self.log = ()      # facts in the order they were assumed
        self.events = ()
        self.depth = {}    # active loops per source

    def clone(self):
        s = State.__new__(State)
        s.locals = dict(self.locals)
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.atoms = dict(self.atoms)
        s.cards = dict(self.cards)
        s.log, s.events = self.log, self.events
        s.depth = dict(self.depth)
        return s
