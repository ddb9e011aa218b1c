"""Printed domains and problems, taken apart into sections."""
import itertools

from . import grammar as G
from .roundtrip import *


class SecLexer(Lexer):
    def join(self, j, out):
        parts = []
        for p in j.parts:
            if isinstance(p, Spread) and isinstance(strip(p.src), Seq):
                parts.extend(strip(p.src).parts)
            else:
                parts.append(p)
        super().join(Join(j.sep, tuple(parts)), out)


class Section:
    """One bracketed part of the text, or one per element of a collection."""

    def __init__(self, keyword, stream, src=None, alts=None):
        self.keyword, self.stream, self.src, self.alts = keyword, stream, src, alts

    def __repr__(self):
        return self.keyword + (" *" if self.src is not None else "")


def printed(ctx, cls, nonempty, fields, optional):
    """Outcomes of __str__ when exactly the given collection fields have elements (the others are free if None)."""
    f = own_method(cls, "__str__")
    st = State()
    it = Interp(ctx.prog, max_states=6000, no_inline=lambda g: g.name == "__str__" and g is not f)
    s0 = selfsym(cls)
    live = [st]
    for p in fields:
        nxt = []
        for l in live:
            it.nstates = 0
            for s2, v in it.getattr(s0, p, l, None):
                if isinstance(v, Exc):
                    continue
                if p in optional or is_coll(it, v, s2):
                    for s3, b in it.truth(v, s2):
                        if b == (p in nonempty):
                            nxt.append(s3)
                else:
                    nxt.append(s2)
        live = nxt
    outs = []
    for l in live:
        l.events = ()
        it.nstates = 0
        for s, k, v in it.run(f, [], None, s0, l):
            outs.append(Outcome(it, s, k, v))
    ctx.analysed.add(f.qualname)
    for q in getattr(it, "visited", ()):
        ctx.analysed.add(q)
    return f, outs


def is_coll(it, v, st):
    t = it.type_of(it.res(v, st), st)
    return bool(t) and t[0] in ("coll", "map")


def kinds_of_params(ctx, cls):
    """(collections, optional components, others) among the constructor parameters that can be read back."""
    ps, _ = init_params(cls)
    it = Interp(ctx.prog)
    coll, opt, other = [], [], []
    for p in ps:
        got = it.getattr(selfsym(cls), p, State(), None)
        vals = [(s, v) for s, v in got if not isinstance(v, Exc)]
        ts = [it.type_of(v, s) for s, v in vals]
        if any(t and t[0] in ("coll", "map") for t in ts):
            coll.append(p)
        elif len(vals) == len(got) and all(t and t[0] == "opt" for t in ts):
            opt.append(p)
        else:
            other.append(p)
    return coll, opt, other


# -- brackets -----------------------------------------------------------------------------
def net(stream):
    """(lowest depth, final depth) of the brackets in a stream."""
    lo = d = 0
    for x in stream:
        if x[0] == "text":
            for ch in x[1]:
                d += ch == "("
                d -= ch == ")"
                lo = min(lo, d)
        elif x[0] == "rep":
            l2, d2 = net(x[2])
            if d2:
                raise Undecided("unbalanced repetition")
            lo = min(lo, d + l2)
        elif x[0] == "alts":
            for g, s in x[2]:
                l2, d2 = net(s)
                if d2:
                    raise Undecided("unbalanced repetition")
                lo = min(lo, d + l2)
    return lo, d


def pieces(stream):
    """The stream cut at the bracket level 1: [inner streams and loose pieces]; None if the brackets do not match."""
    d = 0
    out, cur = [], []
    for x in stream:
        if x[0] != "text":
            if d >= 2:
                cur.append(x)
            else:
                out.append(("loose", d, x))
            continue
        for ch in x[1]:
            if ch == "(":
                d += 1
                if d == 2:
                    cur = [("text", "(")]
                    continue
            elif ch == ")":
                d -= 1
                if d < 0:
                    return None
                if d == 1:
                    add(cur, ")")
                    out.append(("section", 1, cur))
                    cur = []
                    continue
            if d >= 2:
                add(cur, ch)
            elif not ch.isspace() and ch not in "()":
                out.append(("char", d, ch))
    return out if d == 0 else None


def add(cur, ch):
    if cur and cur[-1][0] == "text":
        cur[-1] = ("text", cur[-1][1] + ch)
    else:
        cur.append(("text", ch))


def keyword(ctx, stream):
    """First word after the opening bracket of a section."""
    s = [x for x in stream if not (x[0] == "text" and not x[1].strip())]
    if not s:
        return None
    if s[0][0] == "text":
        m = re.match(r"\s*\(\s*(:?[A-Za-z][A-Za-z0-9_-]*)", s[0][1])
        return m.group(1) if m else None
    if s[0][0] == "v" and len(s) == 1 and s[0][2] and s[0][2][0] == "inst":
        ks = set()
        for c in ctx.prog.subclasses(s[0][2][1]):
            f = own_method(c, "__str__")
            if f is None:
                return None
            for o in outcomes(ctx, f, [], self_=selfsym(c)):
                if o.kind == "ret":
                    t = o.value
                    t = t.parts[0] if isinstance(t, Fmt) and t.parts else t
                    t = t if isinstance(t, str) else getattr(t, "v", None)
                    m = re.match(r"\s*\(\s*(:?[A-Za-z][A-Za-z0-9_-]*)", t) if isinstance(t, str) else None
                    ks.add(m.group(1) if m else None)
        return ks.pop() if len(ks) == 1 else None
    return None


def sections(ctx, o):
    """(opening word, [Section]) of a printed domain or problem; a string if the text is not of that form."""
    if lines_of(o.value, o.it) == "lost":
        return "lines that are not blank may be left out"
    lx = SecLexer(ctx, ctx.tb.g, o.it, o.st)
    stream = lx.flat(o.value, [])
    net(stream)
    ps = pieces(stream)
    if ps is None:
        return "the brackets do not match"
    head = "".join(x for k, d, x in ps if k == "char" and d == 1)
    for k, d, x in ps:
        if d == 0 and k == "char":
            return "there is text outside the brackets"
        if d == 0:
            raise Undecided("text put together in an unknown way: %s" % short(x))
    out = []
    for k, d, x in ps:
        if k == "section":
            w = keyword(ctx, x)
            if w is None:
                raise Undecided("section without a keyword: %s" % short(x))
            out.append(Section(w, x))
        elif k == "loose":
            if x[0] == "alts":
                ws = {keyword(ctx, s) for g, s in x[2] if s}
                alts = x[2]
            elif x[0] == "rep":
                ws = {keyword(ctx, x[2])}
                alts = [((), x[2])]
            else:
                raise Undecided("printed part not understood: %s" % short(x))
            if len(ws) != 1 or None in ws:
                raise Undecided("printed part not understood: %s" % short(x))
            out.append(Section(ws.pop(), None, x[1], alts))
    return head, out


def lines_of(x, it):
    """What becomes of the lines of the text from which x is made."""
    found = []

    def visit(v):
        if isinstance(v, (Each, Spread)) and isinstance(v.src, App) and v.src.op == "slice" and it.is_lines(v.src.args[0]):
            found.append("lost")
        elif isinstance(v, Each):
            r = it.lines(v)
            if r:
                found.append(r)
        if isinstance(v, (Fmt, Join)):
            for p in v.parts:
                visit(p)
        elif isinstance(v, tuple):
            for p in v:
                visit(p)

    visit(x)
    return "lost" if found == ["lost"] else None


# -- grammar ---------------------------------------------------------------------------------
def openings(g, rule, seen=()):
    """{keyword: rule} of the bracketed texts a rule can be."""
    out = {}
    if rule in seen:
        return out
    for alt in g.rules[rule].alts:
        for v in g.variants(alt):
            v = [x for x in v if x is not None]
            if len(v) >= 2 and isinstance(v[0], G.T) and g.literal(v[0]) == "(" and isinstance(v[1], G.T) and g.literal(v[1]):
                out[g.literal(v[1])] = rule
            elif len(v) == 1 and isinstance(v[0], G.N):
                out.update(openings(g, v[0].name, seen + (rule,)))
    return out


def layouts(g, start):
    """[(opening word, [({keyword: rule}, repeated)])] for every variant of the start rule."""
    out = []
    for alt in g.rules[start].alts:
        for v in g.variants(alt):
            v = [x for x in v if x is not None]
            if len(v) < 3 or g.literal(v[0]) != "(" or g.literal(v[-1]) != ")":
                raise Undecided("grammar of %s" % start)
            seq = []
            for x in v[2:-1]:
                if isinstance(x, G.N):
                    seq.append((openings(g, x.name), False))
                elif isinstance(x, G.Rep):
                    ks = {}
                    for a in x.body:
                        if len(a) != 1 or not isinstance(a[0], G.N):
                            raise Undecided("grammar of %s" % start)
                        ks.update(openings(g, a[0].name))
                    seq.append((ks, True))
                else:
                    raise Undecided("grammar of %s" % start)
            out.append((g.literal(v[1]), seq))
    return out


def fits(words, layout):
    """Do these section keywords, in this order, form the sequence of the layout?"""
    i = 0
    for ks, rep in layout:
        if rep:
            while i < len(words) and words[i] in ks:
                i += 1
        else:
            if i >= len(words) or words[i] not in ks:
                return False
            i += 1
    return i == len(words)


# -- guards ------------------------------------------------------------------------------------
class Cases:
    """All assignments to the atoms of some guards, cardinalities having three values."""

    LIMIT = 1 << 14

    def __init__(self, guards, fixed=None):
        self.colls, self.atoms = [], []
        for g in guards:
            for c, b in g:
                self.collect(c)
        self.fixed = fixed or {}
        if 3 ** len(self.colls) * 2 ** len(self.atoms) > self.LIMIT:
            raise Undecided("too many cases in the guards of a printed list")

    def collect(self, c):
        if isinstance(c, App) and c.op in ("and", "or", "not"):
            for x in c.args:
                self.collect(x)
        elif isinstance(c, App) and c.op == "card":
            if c.args[0] not in self.colls:
                self.colls.append(c.args[0])
        elif isinstance(c, Const):
            pass
        elif isinstance(c, App) and c.op == "first":
            pass
        elif c not in self.atoms:
            self.atoms.append(c)

    def __iter__(self):
        for cs in itertools.product((0, 1, 2), repeat=len(self.colls)):
            for bs in itertools.product((False, True), repeat=len(self.atoms)):
                a = dict(zip(self.colls, cs))
                a.update(zip(self.atoms, bs))
                yield a

    def true(self, c, a):
        """None if unknown."""
        if isinstance(c, Const):
            return bool(c.v)
        if c.op == "card":
            return a[c.args[0]] in c.args[1] if c.args[0] in a else None
        if c.op == "not":
            x = self.true(c.args[0], a)
            return None if x is None else not x
        if c.op in ("and", "or"):
            xs = [self.true(x, a) for x in c.args]
            if c.op == "and":
                return False if False in xs else None if None in xs else True
            return True if True in xs else None if None in xs else False
        return a.get(c)

    def holds(self, guard, a):
        for c, b in guard:
            if isinstance(c, App) and c.op == "first":
                continue
            x = self.true(c, a)
            if x is None:
                return None
            if x != b:
                return False
        return True


def without_first(alts):
    """Alternatives of the first element and of the later ones are the same but for separators."""
    firsts, rest = [], []
    for g, s in alts:
        f = [b for c, b in g if isinstance(c, App) and c.op == "first"]
        (firsts if f and f[0] else rest).append((tuple(x for x in g if not (isinstance(x[0], App) and x[0].op == "first")), s, bool(f)))
    return firsts, rest


def exclusions(facts, coll):
    """[guard] that no element of the collection satisfies."""
    out = []
    for c, b in facts:
        if not isinstance(c, App):
            continue
        if c.op == "exists" and not b and same_coll(c.args[0], coll):
            out.append(tuple(c.args[1]))
        elif c.op == "card":
            poss = c.args[1] if b else frozenset((0, 1, 2)) - c.args[1]
            v = strip(c.args[0])
            if poss == {0}:
                if same_coll(v, coll):
                    out.append(())
                elif isinstance(v, Seq):
                    for p in v.parts:
                        if isinstance(p, Each) and same_coll(p.src, coll):
                            out.extend(tuple(g) for g, ps in p.alts if ps)
    return out


def base_of(v):
    v = strip(v)
    while isinstance(v, App) and v.op in (".items", ".keys", "enumerate", ".values") and v.args:
        v = strip(v.args[0])
    return v


def same_coll(a, b):
    return base_of(a) == base_of(b)


def coverage(alts, facts, coll, ignore=None):
    """How often each kind of element is printed: [(assignment, count)] where it is not once."""
    ex = exclusions(facts, coll)
    firsts, rest = without_first(alts)
    bad = []
    for group in ([firsts, rest] if any(f for _, _, f in firsts + rest) else [firsts + rest]):
        if any(f for _, _, f in firsts + rest):
            group = group + [x for x in (rest if group is firsts else firsts) if not x[2]]
        gs = [g for g, s, f in group]
        cs = Cases(gs + ex)
        for a in cs:
            if any(cs.holds(x, a) for x in ex) or ignore and ignore(a):
                continue
            n = sum(1 for g in gs if cs.holds(g, a))
            if n != 1:
                bad.append((a, n))
    return bad


# -- typed lists ------------------------------------------------------------------------------
def words(stream):
    """[word | ("val", v) | ("loop", src, [(guard, words)]) | ("group", words)]"""
    flat = []
    for x in stream:
        if x[0] == "text":
            for m in re.finditer(r"[()]|[^\s()]+", x[1]):
                flat.append(m.group())
        elif x[0] == "v":
            flat.append(("val", x[1]))
        elif x[0] == "rep":
            flat.append(("loop", x[1], [((), words(x[2]), x[2])]))
        elif x[0] == "alts":
            flat.append(("loop", x[1], [(g, words(s), s) for g, s in x[2]]))
    return flat


def grouped(stream):
    """Like words(), with bracketed parts as one token that keeps its stream."""
    out, d, cur = [], 0, None
    for x in stream:
        if x[0] == "text":
            for m in re.finditer(r"[()]|\s+|[^\s()]+", x[1]):
                w = m.group()
                if w == "(":
                    if d == 0:
                        cur = []
                    d += 1
                    add(cur, w)
                elif w == ")":
                    d -= 1
                    add(cur, w)
                    if d == 0:
                        out.append(("group", cur))
                elif d:
                    add(cur, w)
                elif w.strip():
                    out.append(w)
        elif d:
            cur.append(x)
        elif x[0] == "v":
            out.append(("val", x[1]))
        elif x[0] == "rep":
            out.append(("loop", x[1], [((), grouped(x[2]))]))
        elif x[0] == "alts":
            out.append(("loop", x[1], [(g, grouped(s)) for g, s in x[2]]))
    return out


class Entry:
    """One kind of printed name: the loops it is in, its text and its printed type (None: untyped)."""

    def __init__(self, ctxt, tok):
        self.ctxt, self.tok, self.type, self.untyped = ctxt, tok, None, False

    def guard(self):
        return tuple(x for s, g in self.ctxt for x in g)


def typed_list(tokens, ctxt=()):
    """([Entry], problems) of a typed list."""
    done, pending, problems = [], [], []
    i = 0
    while i < len(tokens):
        t = tokens[i]
        if t == "-":
            if i + 1 >= len(tokens):
                problems.append("a type is missing after '-'")
                break
            ty = tokens[i + 1]
            if not pending:
                problems.append("a type without a name before it")
            for e in pending:
                e.type = ty
            done += pending
            pending = []
            i += 2
            continue
        if isinstance(t, tuple) and t[0] == "loop":
            subs = [(g, typed_list(toks, ctxt + ((t[1], g),))) for g, toks in t[2]]
            if any(es and any(e.type is not None for e in es) for g, (es, pr) in subs):
                if pending:
                    problems.append("names without a type run into a typed group")
                for g, (es, pr) in subs:
                    problems += pr
                    if any(e.untyped for e in es):
                        # an untyped name of one element takes the type of the next
                        problems.append("names without a type run into a typed group")
                    done += es
                pending = []
            else:
                for g, (es, pr) in subs:
                    problems += pr
                    for e in es:
                        e.untyped = False
                        pending.append(e)
            i += 1
            continue
        pending.append(Entry(ctxt, t))
        i += 1
    for e in pending:
        e.untyped = True
    return done + pending, problems


def one_of(v):
    """The element of a one-element collection, however it is taken out."""
    if isinstance(v, App) and v.op == "item" and v.args[1] in (Const(0), Const(-1)):
        return strip(v.args[0])
    if isinstance(v, App) and v.op in ("next", "popped", "firstof", "min", "max", "anyof") and v.args:
        return strip(v.args[0])
    if isinstance(v, Join) and len(v.parts) == 1 and isinstance(v.parts[0], Spread):
        return strip(v.parts[0].src)
    return None


def bare(v):
    while isinstance(v, App) and v.op in ("str", "name") and len(v.args) == 1:
        v = v.args[0]
    if isinstance(v, Fmt) and len(v.parts) == 1:
        return bare(v.parts[0])
    return v
