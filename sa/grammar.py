"""The grammar file: rules, alternatives, terminals."""
import os
import re

from .program import AnalysisError

TOK = re.compile(r'''
    (?P<ws>[ \t\r]+) | (?P<nl>\n\s*) | (?P<comment>//[^\n]*)
  | (?P<str>"(?:\\.|[^"\\])*"i?) | (?P<re>/(?:\\.|[^/\\\n])+/[imslux]*)
  | (?P<dir>%[a-z]+) | (?P<name>[?!]?_?[A-Za-z][A-Za-z0-9_]*) | (?P<arrow>->) | (?P<num>\d+)
  | (?P<op>[()\[\]|*+?:~.,{}<>-])
''', re.X)


class T:
    """Terminal symbol; literal text or regular expression; kept in the tree unless anonymous."""

    def __init__(self, name, keep=True):
        self.name, self.keep = name, keep

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and o.name == self.name

    def __hash__(self):
        return hash(("T", self.name))


class N:
    """Non-terminal."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, N) and o.name == self.name

    def __hash__(self):
        return hash(("N", self.name))


class Rep:
    """Repetition of a sequence (lo 0 or 1, unbounded)."""

    def __init__(self, body, lo):
        self.body, self.lo = body, lo   # body: list of alternatives

    def __repr__(self):
        return "(%s)%s" % (" | ".join(" ".join(map(repr, a)) for a in self.body), "+" if self.lo else "*")


class Opt:
    """[...]: placeholder None for every kept symbol when absent; (...)? : nothing when absent."""

    def __init__(self, body, placeholder):
        self.body, self.placeholder = body, placeholder

    def __repr__(self):
        return "[%s]" % " | ".join(" ".join(map(repr, a)) for a in self.body)


class Rule:
    def __init__(self, name, inline, alts, line, aliases):
        self.name, self.inline, self.alts, self.line, self.aliases = name, inline, alts, line, aliases

    def __repr__(self):
        return "%s: %s" % (self.name, " | ".join(" ".join(map(repr, a)) for a in self.alts))


class Grammar:
    def __init__(self, path):
        self.path = path
        try:
            self.text = open(path).read()
        except OSError as e:
            raise AnalysisError("grammar file not readable: %s" % e)
        self.rules, self.terms, self.ignored = {}, {}, []
        self.anon = {}
        self._parse()

    def _parse(self):
        toks, i, line = [], 0, 1
        while i < len(self.text):
            m = TOK.match(self.text, i)
            if not m:
                raise AnalysisError("grammar: unexpected character at line %d" % line)
            k = m.lastgroup
            if k not in ("ws", "comment"):
                toks.append((k, m.group(), line))
            line += m.group().count("\n")
            i = m.end()
        toks.append(("nl", "\n", line))
        self.toks, self.i = toks, 0
        while self.i < len(self.toks):
            k, v, ln = self.toks[self.i]
            if k == "nl":
                self.i += 1
            elif k == "dir":
                self._directive(v)
            elif k == "name":
                self._definition()
            else:
                raise AnalysisError("grammar: unexpected %r at line %d" % (v, ln))

    def _directive(self, d):
        self.i += 1
        rest = []
        while self.toks[self.i][0] != "nl":
            rest.append(self.toks[self.i])
            self.i += 1
        if d == "%ignore":
            self.ignored.append(rest[0][1])
        elif d == "%import":
            raise AnalysisError("grammar: %import is not supported")

    def _peek(self, skip_nl=False):
        j = self.i
        if skip_nl:
            while j < len(self.toks) and self.toks[j][0] == "nl":
                j += 1
        return self.toks[j] if j < len(self.toks) else ("end", "", 0)

    def _definition(self):
        k, name, ln = self.toks[self.i]
        self.i += 1
        if self.toks[self.i][1] == "." and self.toks[self.i + 1][0] == "num":
            self.i += 2
        if self.toks[self.i][1] != ":":
            raise AnalysisError("grammar: ':' expected at line %d" % ln)
        self.i += 1
        alts, aliases = self._alts(top=True)
        inline = name.startswith("?")
        keep_all = name.startswith("!")
        name = name.lstrip("?!")
        if name.upper() == name:
            self.terms[name] = (alts, ln)
        else:
            if keep_all:
                alts = [[self._keep(x) for x in a] for a in alts]
            self.rules[name] = Rule(name, inline, alts, ln, aliases)

    def _keep(self, x):
        if isinstance(x, T):
            return T(x.name, True)
        if isinstance(x, (Rep, Opt)):
            x.body = [[self._keep(y) for y in a] for a in x.body]
        return x

    def _alts(self, top=False):
        alts, cur, aliases = [], [], {}
        while True:
            k, v, ln = self.toks[self.i]
            if k == "nl":
                # continuation when the next line starts with |
                if self._peek(True)[1] == "|" or not top:
                    self.i += 1
                    continue
                if not cur and not alts and self._peek(True)[0] in ("str", "re") :
                    self.i += 1
                    continue
                break
            if v == "|":
                self.i += 1
                alts.append(cur)
                cur = []
                continue
            if k == "op" and v in ")]" and not top:
                break
            if k == "arrow":
                self.i += 1
                aliases[len(alts)] = self.toks[self.i][1]
                self.i += 1
                continue
            cur.append(self._item())
        alts.append(cur)
        return alts, aliases

    def _item(self):
        k, v, ln = self.toks[self.i]
        self.i += 1
        if k == "op" and v == "(":
            alts, _ = self._alts()
            self.i += 1
            base = ("group", alts)
        elif k == "op" and v == "[":
            alts, _ = self._alts()
            self.i += 1
            return Opt(alts, True)
        elif k == "str":
            base = self._literal(v)
        elif k == "re":
            base = T(v, True)
            self.anon[v] = v
        elif k == "name":
            base = T(v) if v.upper() == v else N(v)
            if v.startswith("_"):
                base = T(v, False) if v.upper() == v else N(v)
        else:
            raise AnalysisError("grammar: unexpected %r at line %d" % (v, ln))
        nk, nv, _ = self.toks[self.i]
        alts = base[1] if isinstance(base, tuple) else [[base]]
        if nk == "op" and nv in "*+?":
            self.i += 1
            if nv == "?":
                return Opt(alts, False)
            return Rep(alts, 1 if nv == "+" else 0)
        if nv == "~":
            raise AnalysisError("grammar: ~ is not supported")
        if isinstance(base, tuple):
            return Opt(alts, None) if len(alts) > 1 else ("seq", alts[0])
        return base

    def _literal(self, v):
        return T(v, False)

    # -- terminals ---------------------------------------------------------------
    def literal(self, t):
        """The fixed text of a terminal, or None if it is a regular expression."""
        n = t.name if isinstance(t, T) else t
        if n.startswith('"'):
            return n[1:-1].encode().decode("unicode_escape")
        if n in self.terms:
            alts = self.terms[n][0]
            if len(alts) == 1 and len(alts[0]) == 1 and isinstance(alts[0][0], T) and alts[0][0].name.startswith('"') and alts[0][0].name.endswith('"'):
                return alts[0][0].name[1:-1].encode().decode("unicode_escape")
        return None

    def regex(self, t):
        n = t.name if isinstance(t, T) else t
        if n in self.terms:
            alts = self.terms[n][0]
            if len(alts) == 1 and len(alts[0]) == 1 and isinstance(alts[0][0], T) and alts[0][0].name.startswith("/"):
                r = alts[0][0].name
                return r[1: r.rindex("/")]
        if n.startswith("/"):
            return n[1: n.rindex("/")]
        return None

    def literals(self):
        """{terminal name: text}"""
        out = {}
        for n in self.terms:
            s = self.literal(n)
            if s is not None:
                out[n] = s
        return out

    # -- structure -----------------------------------------------------------------
    def symbols(self, seq):
        for x in seq:
            if isinstance(x, (T, N)):
                yield x
            elif isinstance(x, (Rep, Opt)):
                for a in x.body:
                    yield from self.symbols(a)
            elif isinstance(x, tuple):
                yield from self.symbols(x[1])

    def reachable(self, start):
        seen, todo = [], [start]
        while todo:
            r = todo.pop(0)
            if r in seen:
                continue
            if r not in self.rules:
                raise AnalysisError("grammar: rule %r is not defined" % r)
            seen.append(r)
            for a in self.rules[r].alts:
                for s in self.symbols(a):
                    if isinstance(s, N):
                        todo.append(s.name)
        return seen

    def variants(self, seq):
        """Alternatives without Opt and inner choice: lists of T | N | Rep | None (placeholder)."""
        out = [[]]
        for x in seq:
            if isinstance(x, tuple):
                new = self.variants(x[1])
            elif isinstance(x, Opt):
                new = [v for a in x.body for v in self.variants(a)]
                if x.placeholder is True:
                    n = max((sum(1 for s in v if not (isinstance(s, T) and not s.keep)) for v in new), default=0)
                    new.append([None] * n)
                elif x.placeholder is False:
                    new.append([])
            else:
                new = [[x]]
            out = [a + b for a in out for b in new]
        return out


def find(root):
    return Grammar(os.path.join(root, "pddl", "parser", "grammar.lark"))


class Automaton:
    """LR(0) states of the grammar from a start rule; the terminals a state takes: its shifts, and for finished productions what may follow (SLR)."""

    def __init__(self, g, start):
        self.g, self.prods, self.k = g, {}, 0
        for r in g.reachable(start):
            self.prods[r] = [tuple(y for x in alt for y in self.flat(x)) for a in g.rules[r].alts for alt in self.expand(a)]
        self.start = start
        self.sets()
        self.states()

    def fresh(self):
        self.k += 1
        return "$%d" % self.k

    def expand(self, seq):
        """Alternatives of plain symbols (T or rule names)."""
        out = [[]]
        for x in seq:
            if isinstance(x, tuple):
                new = self.expand(x[1])
            elif isinstance(x, Opt):
                new = [v for a in x.body for v in self.expand(a)]
                if x.placeholder is not None:
                    new = new + [[]]
            elif isinstance(x, Rep):
                n = self.fresh()
                body = [v for a in x.body for v in self.expand(a)]
                self.prods[n] = [tuple(v) for v in body] + [(N(n),) + tuple(v) for v in body]
                new = [[N(n)]] + ([[]] if not x.lo else [])
            else:
                new = [[x]]
            out = [a + b for a in out for b in new]
        return out

    def flat(self, x):
        return [x]

    def sets(self):
        nullable, first = set(), {n: set() for n in self.prods}
        follow = {n: set() for n in self.prods}
        follow[self.start].add("$END")
        ch = True
        while ch:
            ch = False
            for n, alts in self.prods.items():
                for a in alts:
                    if n not in nullable and all(isinstance(x, N) and x.name in nullable for x in a):
                        nullable.add(n)
                        ch = True
                    for x in a:
                        add = first[x.name] if isinstance(x, N) else {x.name}
                        if not add <= first[n]:
                            first[n] |= add
                            ch = True
                        if not (isinstance(x, N) and x.name in nullable):
                            break
        ch = True
        while ch:
            ch = False
            for n, alts in self.prods.items():
                for a in alts:
                    tail = set(follow[n])
                    for x in reversed(a):
                        if isinstance(x, N):
                            if not tail <= follow[x.name]:
                                follow[x.name] |= tail
                                ch = True
                            tail = (tail if x.name in nullable else set()) | first[x.name]
                        else:
                            tail = {x.name}
        self.nullable, self.first, self.follow = nullable, first, follow

    def closure(self, items):
        out, todo = set(items), list(items)
        while todo:
            n, i, d = todo.pop()
            a = self.prods[n][i] if n else (N(self.start),)
            if d < len(a) and isinstance(a[d], N):
                for j in range(len(self.prods[a[d].name])):
                    x = (a[d].name, j, 0)
                    if x not in out:
                        out.add(x)
                        todo.append(x)
        return frozenset(out)

    def states(self):
        s0 = self.closure({("", 0, 0)})
        self.takes = {}
        todo = [s0]
        while todo:
            s = todo.pop()
            if s in self.takes:
                continue
            take, by = set(), {}
            for n, i, d in s:
                a = self.prods[n][i] if n else (N(self.start),)
                if d == len(a):
                    take |= self.follow[n] if n else {"$END"}
                else:
                    x = a[d]
                    if isinstance(x, T):
                        take.add(x.name)
                    by.setdefault(x.name, set()).add((n, i, d + 1))
            self.takes[s] = take
            todo.extend(self.closure(k) for k in by.values())
