"""Languages of regular expressions: Boolean combinations of patterns, compared over all strings."""
import re
from re import _parser as P, _constants as K

MAXCH = 0x110000


class Unknown(Exception):
    pass


def cls_of(items, flags):
    """Predicate on characters of a character class."""
    neg = bool(items) and items[0][0] is K.NEGATE
    tests = []
    for op, av in items:
        if op is K.NEGATE:
            continue
        if op is K.LITERAL:
            tests.append(lambda c, a=av: ord(c) == a)
        elif op is K.RANGE:
            tests.append(lambda c, a=av: a[0] <= ord(c) <= a[1])
        elif op is K.CATEGORY:
            d = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W", K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S"}.get(av)
            if d is None:
                raise Unknown("category %s" % av)
            r = re.compile(d, flags & re.ASCII)
            tests.append(lambda c, r=r: bool(r.fullmatch(c)))
        else:
            raise Unknown("class item %s" % op)
    fold = flags & re.IGNORECASE

    def t(c):
        cs = {c, c.lower(), c.upper()} if fold else {c}
        cs = {x for x in cs if len(x) == 1}
        return any(f(x) for f in tests for x in cs) != neg
    return t


class Pattern:
    """A pattern used with match | fullmatch | search."""

    def __init__(self, text, flags=0, mode="fullmatch"):
        try:
            tree = P.parse(text, flags)
        except re.error as e:
            raise Unknown("pattern %r: %s" % (text, e))
        self.flags = tree.state.flags
        self.text = text
        self.eps, self.step, self.n = {}, {}, 0
        self.chars = set()
        start, end = self.new(), self.new()
        self.build(tree, start, end)
        self.start, self.end = start, end
        any_ = lambda c: True
        if mode == "search":
            s = self.new()
            self.edge(s, any_, s)
            self.eps.setdefault(s, set()).add((start, None))
            self.start = s
        if mode in ("search", "match"):
            e = self.new()
            self.edge(e, any_, e)
            self.eps.setdefault(end, set()).add((e, None))
            self.end = e

    def new(self):
        self.n += 1
        return self.n

    def edge(self, a, test, b):
        self.step.setdefault(a, []).append((test, b))

    def build(self, seq, a, b):
        cur = a
        for op, av in seq:
            nxt = self.new()
            self.item(op, av, cur, nxt)
            cur = nxt
        self.eps.setdefault(cur, set()).add((b, None))

    def item(self, op, av, a, b):
        if op is K.LITERAL:
            self.note([(op, av)])
            self.edge(a, cls_of([(op, av)], self.flags), b)
        elif op is K.NOT_LITERAL:
            self.note([(K.LITERAL, av)])
            self.edge(a, cls_of([(K.NEGATE, None), (K.LITERAL, av)], self.flags), b)
        elif op is K.IN:
            self.note(av)
            self.edge(a, cls_of(av, self.flags), b)
        elif op is K.ANY:
            self.chars.add("\n")
            dot = self.flags & re.DOTALL
            self.edge(a, lambda c: bool(dot) or c != "\n", b)
        elif op is K.BRANCH:
            for alt in av[1]:
                self.build(alt, a, b)
        elif op is K.SUBPATTERN:
            if av[1] or av[2]:
                raise Unknown("flags inside a pattern")
            self.build(av[3], a, b)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, body = av
            cur = a
            if lo > 50 or hi is not K.MAXREPEAT and hi > 50:
                raise Unknown("large repetition")
            for _ in range(lo):
                n = self.new()
                self.build(body, cur, n)
                cur = n
            if hi is K.MAXREPEAT:
                n = self.new()
                self.eps.setdefault(cur, set()).add((n, None))
                self.build(body, n, n)
                cur = n
            else:
                for _ in range(hi - lo):
                    self.eps.setdefault(cur, set()).add((b, None))
                    n = self.new()
                    self.build(body, cur, n)
                    cur = n
            self.eps.setdefault(cur, set()).add((b, None))
        elif op is K.AT:
            kind = {K.AT_BEGINNING: "bol" if self.flags & re.MULTILINE else "bos", K.AT_BEGINNING_STRING: "bos", K.AT_END_STRING: "eos", K.AT_END: "eol"}.get(av)
            if kind is None or kind == "bol" or kind == "eol" and self.flags & re.MULTILINE:
                raise Unknown("anchor %s" % av)
            self.chars.add("\n")
            self.eps.setdefault(a, set()).add((b, kind))
        else:
            raise Unknown("%s in a pattern" % op)

    def note(self, items):
        for op, av in items:
            if op is K.LITERAL:
                self.chars.add(chr(av))
            elif op is K.RANGE:
                for x in (av[0], av[1], av[1] + 1, av[0] - 1):
                    if 0 <= x < MAXCH:
                        self.chars.add(chr(x))

    # -- runs -----------------------------------------------------------------------
    def close(self, states, at):
        """at: set of what holds here ('bos', 'eos', 'eol')."""
        out, todo = set(states), list(states)
        while todo:
            s = todo.pop()
            for t, k in self.eps.get(s, ()):
                if (k is None or k in at) and t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def initial(self):
        return (frozenset([self.start]), True, frozenset())

    def advance(self, st, c):
        """st = (states before closing, at the beginning, states after which only a final newline may follow)"""
        states, first, pend = st
        at = {"bos"} if first else set()
        out = {b for s in self.close(states, at) for t, b in self.step.get(s, ()) if t(c)}
        fin = frozenset()
        if c == "\n":
            # the pattern ended with $ just before this newline
            mid = self.close(states, at | {"eol"})
            if mid != self.close(states, at):
                fin = frozenset(b for s in mid for t, b in self.step.get(s, ()) if t(c))
        return (frozenset(out), False, fin)

    def accepts(self, st):
        states, first, pend = st
        at = {"eos", "eol"} | ({"bos"} if first else set())
        return self.end in self.close(states, at) or bool(pend) and self.end in self.close(pend, {"eos", "eol"})


SAMPLE = [chr(x) for x in range(256)] + ["\u017f", "\u212a", "\u0130", "\u0131", "\u0663", "\u03b1", "\u4e00", "\u2028", "\uff21", "\uff11", "\U0001d54f"]


def difference(pats, a, b, limit=20000):
    """A shortest string on which the Boolean functions a and b of the patterns (lists of truth values) differ; None if there is none."""
    reps, seen = [], {}
    pool = set(SAMPLE)
    for p in pats:
        pool |= p.chars
    for c in sorted(pool):
        key = tuple(t(c) for p in pats for s in sorted(p.step) for t, _ in p.step[s]) + (c == "\n",)
        if key not in seen:
            seen[key] = c
            reps.append(c)
    start = tuple(p.initial() for p in pats)
    done, todo = {start}, [(start, "")]
    while todo:
        st, w = todo.pop(0)
        v = [p.accepts(s) for p, s in zip(pats, st)]
        if a(v) != b(v):
            return w
        for c in reps:
            n = tuple(p.advance(s, c) for p, s in zip(pats, st))
            if n not in done:
                done.add(n)
                if len(done) > limit:
                    raise Unknown("too many states")
                todo.append((n, w + c))
    return None
