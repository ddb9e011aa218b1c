"""Objects built by hand: descriptions are turned into objects by interpreting the constructors, with names that are symbols (`sa/texts.py`)."""
from .api import *
from .texts import PLACE, Words, word


class O:
    """The class and the arguments of an object."""

    def __init__(self, cls, *args, **kw):
        self.cls, self.args, self.kw = cls, args, kw

    def __repr__(self):
        inner = [say(x) for x in self.args] + ["%s=%s" % (k, say(x)) for k, x in self.kw.items()]
        return "%s(%s)" % (self.cls.split(".")[-1], ", ".join(inner))


def say(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(map(say, x))
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (say(k), say(v)) for k, v in x.items())
    return repr(x)


class Req(str):
    """A requirement."""


class Maker:
    """Builds objects from descriptions."""

    def __init__(self, ctx, max_states=20000):
        self.ctx = ctx
        self.it = Words(ctx.prog, max_states=max_states, max_depth=120)
        self.it.attr_types = {}
        self.memo = {}

    def cls(self, name):
        for q, c in sorted(self.ctx.prog.classes.items()):
            if q == "pddl." + name or q.endswith("." + name) and "." in name or "." not in name and c.name == name:
                return c
        raise Undecided("no class %s" % name)

    def value(self, d):
        if isinstance(d, Req):
            return Enum_(self.cls("Requirements"), str(d))
        if isinstance(d, str):
            return word(d) if PLACE.fullmatch(d) else Const(d)
        if d is None or isinstance(d, (int, float)):
            return Const(d) if d is not None else NONE
        if isinstance(d, (list, tuple)):
            return Seq("list", tuple(One(self.value(x)) for x in d))
        if isinstance(d, dict):
            return Seq("dict", tuple(One(Pair(self.value(k), self.value(v))) for k, v in d.items()))
        if isinstance(d, O):
            k = repr(d)
            if k not in self.memo:
                outs = self.outcomes(d)
                if len(outs) != 1 or isinstance(outs[0][1], Exc):
                    raise Undecided("building %r has the outcomes %s" % (d, [short(repr(v), 80) for _, v in outs]))
                self.memo[k] = self.it.fz(outs[0][1], outs[0][0])
            return self.memo[k]
        return d

    def outcomes(self, d):
        """[(state, object or Exc)]"""
        args, kw = [One(self.value(x)) for x in d.args], {k: self.value(x) for k, x in d.kw.items()}
        self.it.nstates = 0
        r = self.it.instantiate(self.cls(d.cls), args, kw, State(), None)
        self.ctx.analysed.update(self.it.visited)
        return r

    def text(self, d):
        """What an object is printed as, with the names as in the description; None if that is not known."""
        v = self.value(d)
        f = own_method(v.cls, "__str__")
        if f is None:
            return None
        self.it.nstates = 0
        ways = self.it.run(f, [], None, v, State())
        self.ctx.analysed.update(self.it.visited)
        if len(ways) != 1 or ways[0][1] != "ret":
            return None
        return self.it.render(ways[0][2], ways[0][0])

    def call(self, obj, name, args):
        """Outcomes of a method of a built object: [(state, "ret" or "exc", value)]"""
        v = self.value(obj)
        self.it.nstates = 0
        r = self.it.run(own_method(v.cls, name), [self.value(a) for a in args], None, v, State())
        self.ctx.analysed.update(self.it.visited)
        return r


def verdict(outs):
    """accepted, rejected, or None if the interpreter cannot tell"""
    bad = {isinstance(v, Exc) for _, v in outs}
    return None if len(bad) != 1 else "rejected" if bad.pop() else "accepted"
