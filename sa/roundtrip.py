"""Parsing of printed templates with the grammar, and comparison of the parsed value with the printed object."""
import re

from . import grammar as G
from .api import *
from .parsing import impossible_name

WORD = re.compile(r"[A-Za-z][A-Za-z0-9_-]*")
NUM = re.compile(r"[0-9]+(\.[0-9]+)?")


class Item:
    """kind: lit (text) | word (text) | num (text) | hole (value, type) | rep (src, items) | tvars (src) | glue (text)"""

    def __init__(self, kind, a=None, b=None, glue=False):
        self.kind, self.a, self.b, self.glue = kind, a, b, glue

    def __repr__(self):
        if self.kind == "rep":
            return "{%r}*%r" % (self.a, self.b)
        if self.kind in ("hole", "tvars"):
            return "<%s%s>" % ("vars " if self.kind == "tvars" else "", short(repr(self.a), 60))
        return str(self.a)


class Lexer:
    """Turns the template of a printed object into items."""

    def __init__(self, ctx, g, it, st, term_cls=None, spacing=None):
        self.ctx, self.g, self.it, self.st, self.term_cls = ctx, g, it, st, term_cls
        self.puncts = sorted((s for s in g.literals().values() if not s[0].isalpha()), key=len, reverse=True) + ["?"]
        self.words = {s for s in g.literals().values() if s[0].isalpha()}
        self.problems = spacing if spacing is not None else []

    # flat stream of ("text", s) | ("v", value) | ("rep", src, stream) | ("alts", src, [(guard, stream)])
    def flat(self, v, out):
        if isinstance(v, str):
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + v)
            else:
                out.append(("text", v))
        elif isinstance(v, Const) and isinstance(v.v, str):
            self.flat(v.v, out)
        elif isinstance(v, Fmt):
            for p in v.parts:
                self.flat(p, out)
        elif isinstance(v, App) and v.op == "str" and len(v.args) == 1:
            self.value(v.args[0], out)
        elif isinstance(v, Join):
            self.join(v, out)
        else:
            self.value(v, out)
        return out

    def value(self, v, out):
        if isinstance(v, (Fmt, Join)) or isinstance(v, Const) and isinstance(v.v, str):
            self.flat(v, out)
            return
        t = self.it.type_of(v, self.st)
        if t and t[0] == "inst":
            c = t[1]
            term = self.ctx.prog.cls("Term")
            if c.is_subclass(term) or c is term:
                if self.term_cls is not None and self.term_cls.is_subclass(c):
                    c = self.term_cls
                f = own_method(c, "__str__")
                os_ = [o for o in outcomes(self.ctx, f, [], self_=Sym("TERM", inst(c, True))) if o.kind == "ret"] if f is not None else []
                if len(os_) == 1:
                    tv = rename(os_[0].value, Sym("TERM", None), v)
                    self.flat(tv, out)
                    return
        out.append(("v", v, t))

    def join(self, j, out):
        sep = j.sep if isinstance(j.sep, str) else getattr(j.sep, "v", None)
        if not isinstance(sep, str):
            out.append(("v", j, None))
            return
        first = True
        for p in j.parts:
            if not first and sep:
                self.flat(sep, out)
            first = False
            if isinstance(p, One):
                self.flat(p.v, out)
            elif isinstance(p, Spread):
                e = Elem(strip(p.src), 0)
                out.append(("rep", p.src, self.value2(e), sep, sep))
            elif isinstance(p, Each):
                alts = []
                for gd, ps in p.alts:
                    s = []
                    k = 0
                    for x in ps:
                        if k and sep:
                            self.flat(sep, s)
                        k += 1
                        if isinstance(x, One):
                            self.flat(x.v, s)
                        elif isinstance(x, Spread):
                            s.append(("rep", x.src, self.value2(Elem(strip(x.src), 0)), sep, sep))
                        else:
                            s.append(("v", App("?", ()), None))
                    alts.append((gd, s))
                out.append(("alts", p.src, alts, sep))
            else:
                out.append(("v", App("?", ()), None))

    def value2(self, e):
        s = []
        self.value(e, s)
        return s

    # -- items -----------------------------------------------------------------------
    def items(self, v):
        return self.tokens(self.flat(v, []))

    def tokens(self, stream):
        out = []
        prev = "space"       # space | word | punct | hole
        for x in stream:
            if x[0] == "text":
                s, i = x[1], 0
                while i < len(s):
                    ch = s[i]
                    if ch.isspace():
                        prev = "space"
                        i += 1
                        continue
                    m = NUM.match(s, i)
                    if m:
                        out.append(Item("num", m.group()))
                        i, prev = m.end(), "word"
                        continue
                    m = WORD.match(s, i)
                    if m:
                        w = m.group()
                        if prev in ("hole", "word"):
                            out.append(Item("glue", w))
                        elif w in self.words:
                            out.append(Item("lit", w))
                        else:
                            out.append(Item("word", w))
                        i, prev = m.end(), "word"
                        continue
                    for p in self.puncts:
                        if s.startswith(p, i):
                            # '-' and '_' after a name belong to the name
                            if p == "-" and prev in ("hole", "word"):
                                out.append(Item("glue", p))
                            else:
                                out.append(Item("lit", p))
                            i += len(p)
                            prev = "word" if p[-1].isalnum() else "punct"
                            break
                    else:
                        out.append(Item("glue", ch))
                        i += 1
                        prev = "punct"
            elif x[0] == "v":
                it = Item("hole", x[1], x[2])
                if prev in ("hole", "word"):
                    out.append(Item("glue", "%r" % (x[1],)))
                else:
                    out.append(it)
                prev = "hole"
            elif x[0] == "rep":
                sep = x[3]
                sub = self.tokens(x[2])
                if sep is not None and not (sep and sep.isspace()):
                    self.problems.append("the elements of %s are not separated by white space" % short(x[1]))
                if prev in ("hole", "word"):
                    out.append(Item("glue", "%r" % (x[1],)))
                out.append(Item("rep", x[1], sub))
                prev = "hole"
            elif x[0] == "alts":
                prev = self.alts(x, out, prev)
        return out

    def alts(self, x, out, prev):
        _, src, alts, sep = x
        toks = [(gd, self.tokens(s), s) for gd, s in alts]
        live = [(gd, t, s) for gd, t, s in toks if t]
        if not live:
            return prev
        # separation of consecutive elements
        if not (sep and sep.isspace()):
            starts = all(starts_space(s) or has_first(gd) for gd, t, s in live)
            ends = all(ends_space(s) for gd, t, s in live)
            if not starts and not ends:
                self.problems.append("the elements of %s are not separated by white space" % short(src))
        tv = self.typed_vars(src, live)
        if tv is not None and all(k == "none" for gd, k in tv):
            out.append(Item("rep", src, live[0][1]))
        elif tv is not None:
            out.append(Item("tvars", src, tv))
        elif all(repr(t) == repr(live[0][1]) for gd, t, s in live) and len(live) == len(toks):
            if prev in ("hole", "word") and not starts_space(live[0][2]):
                out.append(Item("glue", short(src)))
            out.append(Item("rep", src, live[0][1]))
        else:
            out.append(Item("altrep", src, toks))
        return "hole" if not all(ends_space(s) for gd, t, s in live) else "space"

    def typed_vars(self, src, live):
        """[(guard, kind)] if every alternative prints ?name of the element, with or without its type."""
        base = strip(src)
        if isinstance(base, App) and base.op == "enumerate":
            base = strip(base.args[0])
        e = Elem(base, 0)
        out = []
        for gd, t, s in live:
            if len(t) < 2 or not (t[0].kind == "lit" and t[0].a == "?") or not (t[1].kind == "hole" and t[1].a == Attr(e, "name")):
                return None
            rest = t[2:]
            tags = Attr(e, "type_tags")
            if not rest:
                out.append((gd, "none"))
            elif [(i.kind, i.a) for i in rest] == [("lit", "-"), ("lit", "object")]:
                out.append((gd, "object"))
            elif rest[0].kind == "lit" and rest[0].a == "-" and len(rest) == 2 and rest[1].kind in ("hole", "rep") and strip(tag_source(rest[1])) == tags:
                out.append((gd, "single"))
            elif [i.kind for i in rest] == ["lit", "lit", "lit", "rep", "lit"] and [rest[k].a for k in (0, 1, 2, 4)] == ["-", "(", "either", ")"] and strip(rest[3].a) == tags \
                    and len(rest[3].b) == 1 and rest[3].b[0].kind == "hole" and rest[3].b[0].a == Elem(tags, 0):
                out.append((gd, "either"))
            else:
                out.append((gd, "bad: %r" % (rest,)))
        return tuple(out)


def tag_source(i):
    """The collection a printed type comes from: an element of it, or all of it."""
    v = i.a
    if i.kind == "rep":
        return strip(v) if len(i.b) == 1 and i.b[0].kind == "hole" and i.b[0].a == Elem(strip(v), 0) else App("?", ())
    if isinstance(v, App) and v.op == "item" and v.args[1] in (Const(0), Const(-1)):
        return strip(v.args[0])
    if isinstance(v, App) and v.op in ("next", "popped", "firstof", "min", "max", "anyof"):
        return strip(v.args[0])
    return App("?", ())


def starts_space(s):
    return bool(s) and s[0][0] == "text" and s[0][1][:1].isspace()


def ends_space(s):
    return bool(s) and s[-1][0] == "text" and s[-1][1][-1:].isspace()


def has_first(gd):
    return any(isinstance(c, App) and c.op == "first" and v for c, v in gd)


# ---------------------------------------------------------------------------------------
class Matcher:
    """Matches items with the grammar and evaluates the callbacks of the transformer on the way."""

    def __init__(self, ctx, table, tr, it, st):
        self.ctx, self.table, self.g, self.tr, self.it, self.st = ctx, table, table.g, tr, it, st
        self.steps = 0
        self.raised = []
        self.bare = set()      # rules whose callback is not interpreted

    def rule(self, name, items):
        """Values the items can be parsed to as this rule.

        Each derivation comes with its sequence of shifts (S) and reductions (R).  Where two derivations part, the
        parser of the package (LALR, as Lark builds it) shifts.
        """
        ds = []
        for vals, j, tr in self.sym(G.N(name), items, 0):
            if j == len(items) and len(vals) == 1:
                v = vals[0]
                ds.append((v.v if isinstance(v, One) else v, tr))
        uniq = []
        for v, t in ds:
            if any(t2 != t and self.shifts_first(t2, t) for _, t2 in ds):
                continue
            if v not in uniq:
                uniq.append(v)
        return uniq

    @staticmethod
    def shifts_first(a, b):
        for x, y in zip(a, b):
            if x != y:
                return x == "S" and y != "S"
        return False

    def source(self, v):
        """The collection whose elements are printed one after the other; a change of order of a sequence is kept."""
        moved = False
        while isinstance(v, App) and v.args:
            if v.op == "enumerate" or v.op in ("tuple", "list", "iter", "name"):
                v = v.args[0]
            elif v.op in ("sorted", "reversed", "set", "frozenset", "unique", "permuted"):
                moved = True
                v = v.args[0]
            else:
                break
        if moved:
            t = self.it.type_of(v, self.st)
            if t and t[0] == "opt":
                t = t[1]
            if t and (t[0] == "coll" and t[1] == "seq" or t[0] == "py"):
                return App("permuted", (v,))
        return v

    def compatible(self, item, rn):
        """Can the value of this hole be the result of rule rn ?"""
        t = item.b
        if t and t[0] == "opt":
            t = t[1]
        kinds = self.table.produced.get((self.tr, rn), set())
        cs = [k for k in kinds if isinstance(k, ClassInfo)]
        if kinds == {"num"}:
            cs = [self.ctx.prog.cls("NumericValue")]
        if t and t[0] == "inst":
            return any(k.is_subclass(t[1]) or t[1].is_subclass(k) for k in cs)
        # a component whose declared type is a union: the grammar says what it can be
        return t is None and isinstance(item.a, Attr) and item.a.name != "name" and bool(cs)

    def taken(self, v, rn):
        """What rule rn makes of the text of a sub-object: the object, or its number where the rule yields a number."""
        return Attr(v, "value") if self.table.produced.get((self.tr, rn)) == {"num"} else v

    def takes(self, item, rn):
        """A repetition of single sub-objects that this rule covers one by one."""
        return item.kind == "rep" and len(item.b) == 1 and item.b[0].kind == "hole" and bool(item.b[0].b) and self.compatible(item.b[0], rn)

    def isname(self, item):
        if item.kind == "word":
            return Const(item.a)
        if item.kind == "hole":
            t = item.b
            v = item.a
            if t == ("py", "str") or isinstance(v, App) and v.op == "name" or isinstance(v, Attr) and v.name == "name":
                return v
            if t and t[0] == "inst" and any(x == "str" for x in ext_anc(t[1])):
                return v
        return None

    def isnum(self, item):
        """The number a text stands for; a float as Python prints it may have an exponent, which PDDL lacks."""
        if item.kind == "num":
            return Const(item.a)
        if item.kind != "hole":
            return None
        v = item.a
        if isinstance(v, App) and v.op in ("ext:format", "format"):
            a = v.args
            if len(a) == 2 and a[1] == Const("f") and isinstance(a[0], App) and a[0].op.endswith("decimal.Decimal"):
                x = a[0].args[0]
                if self.textof(x) is x or self.says("e-", self.textof(x), True):
                    return App("numtext", (self.textof(x),))
                # zeros stand for digits the text of the float leaves out, and the integer read is not the float
                return None
            return None
        if isinstance(v, App) and v.op == "int" and len(v.args) == 1 and self.says("e-", v.args[0], False) and self.says("e", v.args[0], True):
            return App("numtext", (v.args[0],))
        if item.b in (("py", "float"), ("py", "int")):
            if item.b[1] == "int":
                return App("numtext", (v,))
            if self.says("e", v, False):
                return App("numtext", (v,))
        return None

    def says(self, part, v, want):
        """Do the facts say that the text of a number contains a part, or that it does not?"""
        return any(b == want and isinstance(c, App) and c.op == "in" and c.args[0] == Const(part) and self.textof(c.args[1]) == v for c, b in self.st.log)

    @staticmethod
    def textof(x):
        while isinstance(x, App) and x.op in ("str", "repr", "name") and x.args:
            x = x.args[0]
        return x

    def sym(self, s, items, i):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided("too many parses of a printed form")
        if s is None:
            return
        if isinstance(s, G.T):
            if i >= len(items):
                return
            lit = self.g.literal(s)
            it = items[i]
            if lit is not None:
                if it.kind == "lit" and it.a == lit:
                    yield ([One(Const(lit))] if s.keep else []), i + 1, ("S",)
                elif it.kind == "hole" and s.keep and isinstance(it.a, Attr) and not self.isname(it) is None and it.a.name in self.enum_fields():
                    yield [One(it.a)], i + 1, ("S",)
                elif it.kind == "hole" and s.keep and self.enum_literal(it.a, lit):
                    yield [One(self.taken(it.a, s.name))], i + 1, ("S",)
                return
            if self.takes(it, s.name):
                return
            v = self.isnum(it) if "[0-9]" in (self.g.regex(s) or "")[:5] else self.isname(it)
            if v is not None:
                yield [One(v)], i + 1, ("S",)
            return
        if isinstance(s, G.N):
            yield from self.nonterm(s, items, i)
            return
        if isinstance(s, G.Rep):
            yield from self.rep(s, items, i)
            return
        raise Undecided("grammar symbol %r" % (s,))

    def enum_fields(self):
        return ("optimization",)

    def enum_literal(self, v, lit):
        """The printed requirement ':' + value of a member."""
        return False

    def nonterm(self, s, items, i):
        rule = self.g.rules[s.name]
        f = own_method(self.tr, rule.name)
        if i < len(items):
            it = items[i]
            if it.kind == "hole" and self.compatible(it, s.name):
                yield [One(self.taken(it.a, s.name))], i + 1, ("S",)
                return
            if self.takes(it, s.name):
                return
            if it.kind == "tvars" and s.name == "typed_list_variable":
                yield [One(tvars_value(it.a, self.source(it.a)))], i + 1, ("S",)
                return
        for alt in rule.alts:
            for var in self.g.variants(alt):
                for parts, j, tr in self.seq(var, items, i):
                    tr += (rule.name,)
                    if s.name == "typed_list_variable" and not parts:
                        yield [One(Seq("tuple", ()))], j, tr
                        continue
                    if f is None or rule.name in self.bare:
                        if rule.inline and len(parts) == 1:
                            yield parts, j, tr
                        else:
                            yield [One(Tree(rule.name, parts))], j, tr
                        continue
                    for v in self.callback(f, parts):
                        yield [One(v)], j, tr

    def seq(self, syms, items, i):
        if not syms:
            yield [], i, ()
            return
        # a repetition item taken apart by several symbols
        if i < len(items) and items[i].kind == "rep" and isinstance(syms[0], G.N):
            it = items[i]
            if len(it.b) == 1 and it.b[0].kind == "hole" and it.b[0].b:
                k = 0
                while k < len(syms) and (isinstance(syms[k], G.N) and self.compatible(it.b[0], syms[k].name) or
                                         isinstance(syms[k], G.Rep) and all(len(a) == 1 and isinstance(a[0], G.N) and self.compatible(it.b[0], a[0].name) for a in syms[k].body)):
                    k += 1
                    if isinstance(syms[k - 1], G.Rep):
                        break
                if k:
                    src = self.source(it.a)
                    parts = []
                    for n in range(k):
                        if isinstance(syms[n], G.Rep):
                            parts.append(Spread(App("rest", (src, Const(n)))))
                        else:
                            parts.append(One(self.taken(App("item", (src, Const(n))), syms[n].name)))
                    for rest, j, tr in self.seq(syms[k:], items, i + 1):
                        yield parts + rest, j, ("S",) + tr
        if syms[0] is None:
            for rest, j, tr in self.seq(syms[1:], items, i):
                yield [One(NONE)] + rest, j, tr
            return
        for vals, j, t1 in self.sym(syms[0], items, i):
            for rest, k, t2 in self.seq(syms[1:], items, j):
                yield vals + rest, k, t1 + t2

    def rep(self, s, items, i):
        if i < len(items) and items[i].kind == "rep":
            it = items[i]
            for a in s.body:
                for var in self.g.variants(a):
                    for parts, j, t1 in self.seq(var, it.b, 0):
                        if j == len(it.b):
                            src = self.source(it.a)
                            for rest, k, t2 in self.rep(G.Rep(s.body, 0), items, i + 1):
                                yield [Each(src, (((), tuple(parts)),))] + rest, k, t1 + t2
            return
        # consecutive single items
        if s.lo == 0:
            yield [], i, ()
        for a in s.body:
            for var in self.g.variants(a):
                for parts, j, t1 in self.seq(var, items, i):
                    if j == i:
                        continue
                    for rest, k, t2 in self.rep(G.Rep(s.body, 0), items, j):
                        yield parts + rest, k, t1 + t2

    def callback(self, f, parts):
        st = self.st.clone()
        st.events = ()
        args = []
        for p in parts:
            if isinstance(p, One) and isinstance(p.v, TreeV):
                y = Sym("tree:%s:%d" % (p.v.rule, len(st.over)), None)
                st.over[(y, "children")] = Seq("list", p.v.parts)
                args.append(One(y))
            else:
                args.append(p)
        outs = outcomes(self.ctx, f, [Seq("list", tuple(args))], self_=Sym("parser", ("inst", self.tr, True)), st=st, no_inline=self.table.opaque)
        res = []
        for o in outs:
            if impossible_name(o.facts):
                continue
            if o.kind == "ret":
                if o.value not in res:
                    res.append(o.value)
            else:
                self.raised.append(o)
        return res


class TreeV(V):
    __slots__ = ("rule", "parts")

    def __init__(self, rule, parts):
        self.rule, self.parts = rule, tuple(parts)

    def key(self):
        return (self.rule, self.parts)

    def __repr__(self):
        return "tree(%s, %r)" % (self.rule, self.parts)


def Tree(rule, parts):
    return TreeV(rule, parts)


def ext_anc(c):
    from .program import ext_ancestors

    return ext_ancestors(c)


def tvars_value(src, base):
    """What the typed list of variables of src is parsed to: (name, types) pairs in the printed order."""
    e = Elem(base, 0)
    return Seq("tuple", (Each(base, (((), (One(Seq("tuple", (One(Attr(e, "name")), One(Attr(e, "type_tags"))))),)),)),))


# ---------------------------------------------------------------------------------------
class Eta:
    """Reduces a rebuilt value to the value it was rebuilt from."""

    def __init__(self, ctx, occurrences=True):
        self.ctx = ctx
        self.term = ctx.prog.cls("Term")
        self.variable = ctx.prog.cls("Variable")
        self.constant = ctx.prog.cls("Constant")
        self.occurrences = occurrences

    def norm(self, v):
        v = strip(v)
        while isinstance(v, App) and v.op in ("name", "str") and len(v.args) == 1:
            v = strip(v.args[0])
        if isinstance(v, App) and v.op in ("float", "int", "ext:float", "ext:int", "ext:builtins.float", "ext:builtins.int") and v.args and isinstance(v.args[0], App) and v.args[0].op == "numtext":
            return self.norm(v.args[0].args[0])
        if isinstance(v, App) and v.op == "item" and self.occurrences:
            # look-up by name in a table of the parser: the declared object of that name
            tab, k = v.args
            k = self.norm(k)
            if isinstance(k, Attr) and k.name == "name" and not (isinstance(tab, App) and tab.op == "rest"):
                return k.base
        if isinstance(v, App) and v.op in (".get", "getitem") and self.occurrences and len(v.args) >= 2:
            k = self.norm(v.args[1])
            if isinstance(k, Attr) and k.name == "name":
                return k.base
        if isinstance(v, App) and v.op == "call" and len(v.args) == 3 and isinstance(v.args[0], Fn) and self.occurrences and self.own_types(v.args[2]):
            # the occurrences of the variables get the types the variables have
            from .retag import proof
            if proof(self.ctx, v.args[0].f)[0]:
                return self.norm(v.args[1])
        if isinstance(v, New):
            if v.cls.is_subclass(self.term):
                nm = v.get("name") if v.get("name") is not None else v.get("_name")
                k = self.norm(nm) if nm is not None else None
                if isinstance(k, Attr) and k.name == "name":
                    tags = v.get("type_tags") if v.get("type_tags") is not None else v.get("_type_tags")
                    tn = self.norm(tags)
                    if self.occurrences or tn == Attr(k.base, "type_tags") or self.same_tags(tn, Attr(k.base, "type_tags")):
                        return k.base
            if v.cls.name == "NumericValue" and len(v.fields) == 1:
                x = self.norm(v.fields[0][1])
                if isinstance(x, Attr) and x.name == v.fields[0][0] and not (isinstance(x.base, Sym) and x.base.name == "self"):
                    return x.base
            return New(v.cls, tuple((f, self.norm(x)) for f, x in v.fields))
        if isinstance(v, Seq):
            parts = []
            for p in v.parts:
                if isinstance(p, One):
                    parts.append(One(self.norm(p.v)))
                elif isinstance(p, Spread):
                    parts.append(Spread(self.norm(p.src)))
                elif isinstance(p, Each):
                    parts.append(self.each(p))
                else:
                    parts.append(p)
            if len(parts) == 1 and isinstance(parts[0], Spread):
                return parts[0].src
            whole = self.whole(parts)
            if whole is not None:
                return whole
            return Seq(v.kind, tuple(parts))
        return v

    def same_tags(self, a, b):
        return a == b

    def own_types(self, table):
        """Does a table give every variable the types the variable has?"""
        table = strip(table)
        if not isinstance(table, Seq) or table.kind != "dict":
            return False
        for p in table.parts:
            if not isinstance(p, Each):
                return False
            e = Elem(strip(p.src), 0)
            for g, ps in p.alts:
                for q in ps:
                    if not (isinstance(q, One) and isinstance(q.v, Pair)):
                        return False
                    t = self.norm(q.v.v)
                    while isinstance(t, App) and t.op in ("frozenset", "set", "tuple") and len(t.args) == 1:
                        t = self.norm(t.args[0])
                    tags = Attr(e, "type_tags")
                    if isinstance(t, Seq) and not t.parts and any((c == App("isnone", (tags,)) or c == App("card", (tags, frozenset({0})))) and b for c, b in g):
                        t = tags
                    if self.norm(q.v.k) != Attr(e, "name") or t != tags:
                        return False
        return True

    def whole(self, parts):
        """item(X,0) .. item(X,n-1) [, *rest(X,n)] is X."""
        if not parts:
            return None
        src = None
        for n, p in enumerate(parts):
            if isinstance(p, One) and isinstance(p.v, App) and p.v.op == "item" and p.v.args[1] == Const(n) and (src is None or src == p.v.args[0]):
                src = p.v.args[0]
            elif isinstance(p, Spread) and isinstance(p.src, App) and p.src.op == "rest" and n == len(parts) - 1 and p.src.args == (src, Const(n)):
                pass
            else:
                return None
        return src

    def each(self, p):
        src = strip(p.src)
        e = Elem(src, 0)
        good = True
        for g, ps in p.alts:
            if len(ps) == 1 and isinstance(ps[0], One) and self.norm(ps[0].v) == e:
                continue
            good = False
        if good:
            return Spread(src)
        return Each(src, tuple((g, tuple(One(self.norm(x.v)) if isinstance(x, One) else x for x in ps)) for g, ps in p.alts))
