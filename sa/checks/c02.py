"""A printed domain or problem has one section per non-empty component, each with every element, in the order of the grammar."""
from ..parsing import Table
from ..eqcommon import component_fields
from ..sections import *
from . import c01

MINIMUM = 40


def run(ctx):
    ctx.tb = Table(ctx).build()
    for start, tr, pc in ctx.tb.parsers:
        ls = None
        try:
            ls = layouts(ctx.tb.g, start)
        except Undecided:
            pass
        kinds = [k for k in ctx.tb.produced.get((tr, start), ()) if isinstance(k, ClassInfo)]
        if not ls or len(kinds) != 1:
            if start in ("domain", "problem"):
                ctx.undecided("sections", start, "grammar of %s not understood" % start)
            continue
        cls = kinds[0]
        if own_method(cls, "__str__") is None:
            ctx.violation("sections", cls.qualname, "a %s has no printed form" % cls.name)
            continue
        ctx.guard("sections", own_method(cls, "__str__"), one, ctx, start, tr, cls, ls)


def scenarios(ctx, cls):
    coll, opt, other = kinds_of_params(ctx, cls)
    vary = coll + opt
    out = [frozenset()] + [frozenset([p]) for p in vary] + [frozenset(coll), frozenset(vary)]
    if ctx.tier == "thorough":
        out += [frozenset(x) for x in itertools.combinations(vary, 2)]
    uniq = []
    for s in out:
        if s not in uniq:
            uniq.append(s)
    return coll, opt, other, uniq


def one(ctx, start, tr, cls, ls):
    coll, opt, other, scen = scenarios(ctx, cls)
    results = []
    for sc in scen:
        f, outs = printed(ctx, cls, sc, coll + opt + other, opt)
        if not outs:
            ctx.undecided("sections", f, "no outcome for %s with %s" % (cls.name, sorted(sc)))
        for o in outs:
            results.append((sc, f, o))
    done = set()
    for sc, f, o in results:
        if o.kind == "exc":
            continue
        k = (sc, repr(o.value), repr(exclude_all(o.facts)))
        if k in done:
            continue
        done.add(k)
        ctx.guard("sections", f, outcome, ctx, start, tr, cls, ls, coll, opt, other, sc, f, o)


def exclude_all(facts):
    return [x for x in facts if isinstance(x[0], App) and x[0].op in ("exists", "card")]


def outcome(ctx, start, tr, cls, ls, coll, opt, other, sc, f, o):
    if contradictory(o, sc, ctx, cls):
        return
    what = "%s with %s" % (cls.name, ", ".join(sorted(sc)) or "nothing")
    r = sections(ctx, o)
    if isinstance(r, str):
        ctx.violation("text", f, "%s: %s: %s" % (what, r, short(o.value)), "text:" + start)
        return
    head, secs = r
    if any(head != h for h, _ in ls):
        ctx.violation("text", f, "%s starts with %r" % (what, head), "head:" + start)
    ws = [s.keyword for s in secs]
    good = any(fits(ws, seq) for h, seq in ls)
    # components that the grammar demands and the object lacks
    lacking = [p for p in opt if p not in sc]
    if not good and lacking:
        have = set(ws)
        good = any(fits(ws, [x for x in seq if x[1] or set(x[0]) & have]) for h, seq in ls)
    ctx.require(good, "order", f, "%s: %s" % (what, " ".join(ws)), "%s prints the sections %s, which is no sequence of the grammar" % (what, " ".join(ws)), "order:%s:%s" % (start, " ".join(ws)))
    names = {}
    for h, seq in ls:
        for ks, rep in seq:
            names.update(ks)
    used = {}
    und = len(ctx.und)
    for s in secs:
        if s.keyword in names:
            p = ctx.guard("content", f, content, ctx, tr, cls, names[s.keyword], s, coll, opt, other, sc, f, o, what)
            if p:
                used.setdefault(p, []).append(s)
    if len(ctx.und) > und:
        return
    for p in coll + opt:
        if p not in sc:
            continue
        if vacuous(ctx, cls, p, o):
            continue
        n = len(used.get(p, ()))
        ctx.require(n == 1, "once", f, "%s: %s" % (what, p), "%s: %s is printed %s" % (what, p, "%d times" % n if n else "nowhere"), "once:%s:%s" % (start, p))
    for p in other:
        vals = value_of(ctx, cls, p, o)
        ts = [o.it.type_of(v, o.st) for v in vals]
        if not vals or any(t and t[0] in ("inst", "opt") and any(t[-1] == x or t[1] == x or isinstance(t[1], tuple) and t[1][1] == x for x in whole_texts(ctx)) for t in ts):
            continue
        n = len(used.get(p, ()))
        ctx.require(n == 1, "once", f, "%s: %s" % (what, p), "%s: %s is printed %s" % (what, p, "%d times" % n if n else "nowhere"), "once:%s:%s" % (start, p))


def whole_texts(ctx):
    return {k for start, tr, pc in ctx.tb.parsers for k in ctx.tb.produced.get((tr, start), ()) if isinstance(k, ClassInfo)}


def contradictory(o, sc, ctx, cls):
    """Do the facts say that a text with printed elements is empty?"""
    for c, b in o.facts:
        if not (b and isinstance(c, App) and c.op == "eq" and any(isinstance(x, Fmt) for x in c.args)):
            continue
        xs = [list(x.parts) if isinstance(x, Fmt) else [x] for x in c.args]
        xs = [[p.v if isinstance(p, Const) else p for p in x] for x in xs]
        while xs[0] and xs[1] and xs[0][0] == xs[1][0]:
            xs[0].pop(0)
            xs[1].pop(0)
        if xs[0] and xs[1] and isinstance(xs[0][0], str) and isinstance(xs[1][0], str):
            a, d = xs[0][0], xs[1][0]
            n = min(len(a), len(d))
            if a[:n] != d[:n]:
                return True
            xs[0][0], xs[1][0] = a[n:], d[n:]
            xs = [[p for p in x if p != ""] for x in xs]
        for x, y in (xs, xs[::-1]):
            if x or not y:
                continue
            if any(isinstance(p, str) and p for p in y):
                return True
            # the elements of one non-empty collection, all of them
            guards, srcs = [], set()
            for p in y:
                if isinstance(p, Join):
                    for q in p.parts:
                        if isinstance(q, Each):
                            srcs.add(base_of(q.src))
                            guards += [(g, ps) for g, ps in q.alts if ps]
            if len(srcs) == 1:
                src = srcs.pop()
                if any(any(same_coll(v, src) for v in value_of(ctx, cls, p, o)) for p in sc):
                    ex = exclusions(o.facts, src)
                    spec = Spec(ctx, o, src, None)
                    cs = Cases([g for g, ps in guards] + ex)
                    if all(any(cs.holds(z, a) for z in ex) or not spec.possible(a) or any(cs.holds(g, a) for g, ps in guards) for a in cs):
                        return True
    return False


def vacuous(ctx, cls, p, o):
    """Do the facts of this case contradict that the component has elements?"""
    for v in value_of(ctx, cls, p, o):
        b = base_of(v)
        for c, val in o.facts:
            if isinstance(c, App) and c.op == "card" and base_of(c.args[0]) == b:
                poss = c.args[1] if val else frozenset((0, 1, 2)) - c.args[1]
                if poss == {0}:
                    return True
        ex = exclusions(o.facts, b)
        if ex:
            cs = Cases(ex)
            if all(any(cs.holds(x, a) for x in ex) for a in cs):
                return True
    return False


def value_of(ctx, cls, p, o):
    """Values the component can have in the state of this outcome."""
    o.it.nstates = 0
    return [o.it.fz(v, s) for s, v in o.it.getattr(selfsym(cls), p, o.st, None) if not isinstance(v, Exc)]


def body_of(stream, keyword):
    """The stream between the keyword and the closing bracket."""
    out = list(stream)
    t = out[0][1]
    t = t[t.index(keyword) + len(keyword):]
    out[0] = ("text", t)
    if out[-1][0] != "text" or not out[-1][1].rstrip().endswith(")"):
        raise Undecided("end of section %s" % keyword)
    e = out[-1][1].rstrip()
    out[-1] = ("text", e[:-1])
    return [x for x in out if not (x[0] == "text" and not x[1].strip())], (not t or t[0].isspace() or t[0] == ")" or t[0] == "(")


def typed_rule(g, rule):
    """Is the section one typed list?"""
    for alt in g.rules[rule].alts:
        for s in g.symbols(alt):
            if isinstance(s, G.N) and any(dashed(g, a) for a in g.rules[s.name].alts):
                return True
    return False


def dashed(g, seq):
    """Does the sequence have names, a dash and a type?"""
    prev = None
    for x in seq:
        if isinstance(x, (Rep_, Opt_)) and any(dashed(g, a) for a in x.body) or isinstance(x, tuple) and dashed(g, x[1]):
            return True
        if isinstance(x, G.T) and g.literal(x) == "-" and prev is not None and not (isinstance(prev, G.T) and g.literal(prev) == "("):
            return True
        prev = x
    return False


Rep_, Opt_ = G.Rep, G.Opt


def spacing(ctx, tr, cls, s, f, o, what, stream):
    sp = []
    lx = SecLexer(ctx, ctx.tb.g, o.it, o.st, None, sp)
    items = lx.tokens(list(stream))
    bad = [i for i in c01.walk_items(items) if i.kind == "glue"]
    for x in sp:
        ctx.violation("spacing", f, "%s, section %s: %s" % (what, s.keyword, x), "spacing:%s:%s" % (cls.name, s.keyword))
    if bad:
        ctx.violation("spacing", f, "%s, section %s: %r runs into the preceding word" % (what, s.keyword, bad[0].a), "spacing:%s:%s" % (cls.name, s.keyword))
    return items


def content(ctx, tr, cls, rule, s, coll, opt, other, sc, f, o, what):
    """Checks the content of one section; the component it prints."""
    vals = {p: value_of(ctx, cls, p, o) for p in coll + opt + other}
    key = "content:%s:%s" % (cls.name, s.keyword)
    if s.src is not None:
        # one bracketed text per element
        p = owner(vals, s.src)
        if p is None:
            stranger(ctx, f, what, s.keyword, s.src, key)
            return None
        covers(ctx, f, what, s.keyword, s.alts, o, s.src, key)
        for g, st in s.alts:
            element(ctx, tr, rule, st, s.src, g, f, o, what, s.keyword, key)
        return p
    body, sep = body_of(s.stream, s.keyword)
    if not sep:
        ctx.violation("spacing", f, "%s: %s runs into what follows" % (what, s.keyword), key)
    if typed_rule(ctx.tb.g, rule):
        spacing(ctx, tr, cls, s, f, o, what, s.stream)
        return typed(ctx, cls, rule, s, body, vals, f, o, what, key, "cover")
    if not body:
        empty_ok(ctx, tr, rule, f, what, s, key)
        return None
    if len(body) == 1 and body[0][0] in ("rep", "alts"):
        src = body[0][1]
        p = owner(vals, src)
        if p is None:
            stranger(ctx, f, what, s.keyword, src, key)
            return None
        alts = [((), body[0][2])] if body[0][0] == "rep" else body[0][2]
        spacing(ctx, tr, cls, s, f, o, what, body)
        covers(ctx, f, what, s.keyword, alts, o, src, key)
        er = element_rule(ctx.tb.g, rule)
        for g, st in alts:
            element(ctx, tr, er, st, src, g, f, o, what, s.keyword, key)
        return p
    if len(body) == 1 and body[0][0] == "v":
        v = bare(body[0][1])
        for p in opt + other:
            if v in [bare(x) for x in vals[p]]:
                ctx.ok("content", f, "%s: %s is %s" % (what, s.keyword, p))
                return p
        ctx.violation("content", f, "%s: %s prints %s, which is no component" % (what, s.keyword, short(v)), key)
        return None
    ctx.undecided("content", f, "%s: section %s: %s" % (what, s.keyword, short(body)))
    return None


def stranger(ctx, f, what, kw, src, key):
    """The printed collection is no component of the object."""
    b = src
    while isinstance(b, App) and b.op in ("slice", "sorted", "reversed", "list", "tuple", "set", "frozenset", "unique", "permuted", ".items", "enumerate") and b.args:
        b = b.args[0]
    if isinstance(b, (Attr, Sym, Elem)):
        ctx.violation("content", f, "%s: %s prints the elements of %s" % (what, kw, short(src)), key)
    else:
        ctx.undecided("content", f, "%s: %s prints the elements of %s" % (what, kw, short(src)))


def owner(vals, src):
    for p, vs in vals.items():
        if any(same_coll(v, src) for v in vs):
            return p
    return None


def covers(ctx, f, what, kw, alts, o, src, key):
    inner = [x for x in alts if x[1]]
    bad = coverage(inner, o.facts, base_of(src))
    ctx.require(not bad, "every element", f, "%s: %s" % (what, kw), "%s: %s prints an element %s when %s" % (what, kw, "%d times" % bad[0][1] if bad and bad[0][1] else "not at all", short(bad[0][0]) if bad else ""), key)


def element_rule(g, rule):
    """The rule of the repeated part of a section."""
    for alt in g.rules[rule].alts:
        for x in alt:
            if isinstance(x, G.Rep) and len(x.body) == 1 and len(x.body[0]) == 1 and isinstance(x.body[0][0], G.N):
                return x.body[0][0].name
    return None


def empty_ok(ctx, tr, rule, f, what, s, key):
    g = ctx.tb.g
    for alt in g.rules[rule].alts:
        for v in g.variants(alt):
            if len([x for x in v if x is not None and not (isinstance(x, G.Rep) and x.lo == 0)]) <= 3:
                ctx.ok("content", f, "%s: %s may be empty" % (what, s.keyword))
                return
    ctx.violation("content", f, "%s: %s has no content, which the grammar does not allow" % (what, s.keyword), key)


def element(ctx, tr, rule, stream, src, guard, f, o, what, kw, key):
    """The text printed for one element is its own text, or parses back as the element."""
    e = Elem(base_of(src), 0)
    s = [x for x in stream if not (x[0] == "text" and not x[1].strip())]
    if not s:
        return
    if len(s) == 1 and s[0][0] == "v" and bare(s[0][1]) == e:
        ctx.ok("element", f, "%s: %s prints its elements" % (what, kw))
        return
    t = o.it.type_of(e, o.st)
    if not (t and t[0] == "inst") or rule is None:
        ctx.undecided("element", f, "%s: %s prints %s" % (what, kw, short(stream)))
        return
    c = t[1]
    sp = []
    lx = SecLexer(ctx, ctx.tb.g, o.it, o.st, None, sp)
    items = lx.tokens(list(s))
    for x in sp:
        ctx.violation("spacing", f, "%s: %s: %s" % (what, kw, x), key)
    bad = [i for i in c01.walk_items(items) if i.kind == "glue"]
    if bad:
        ctx.violation("spacing", f, "%s: %s: %r runs into the preceding word" % (what, kw, bad[0].a), key)
        return
    odd = [i for i in c01.walk_items(items) if i.kind == "altrep"]
    if odd:
        ctx.undecided("element", f, "%s: %s: %s" % (what, kw, short(repr(odd[0].a))))
        return
    badv = [x for i in c01.walk_items(items) if i.kind == "tvars" for x in (i.b or ()) if str(x[1]).startswith("bad")]
    if badv:
        ctx.violation("element", f, "%s: %s: a typed variable is printed as %s" % (what, kw, badv[0][1]), key)
        return
    st = o.st
    m = Matcher(ctx, ctx.tb, tr, o.it, st)
    m.bare = {"derived_predicates"}
    vals = m.rule(rule, items)
    if not vals:
        opaque = [i for i in c01.walk_items(items) if i.kind == "hole" and not c01.known_hole(i)]
        if opaque and not m.raised:
            ctx.undecided("element", f, "%s: %s: printed part not understood: %r" % (what, kw, opaque[0]))
        else:
            ctx.violation("element", f, "%s: %s prints %s, which is no %s%s" % (what, kw, short(" ".join(map(repr, items))), rule, ": parsing it raises %r" % (m.raised[0].value,) if m.raised else ""), key)
        return
    comp = component_fields(ctx, c)
    for v in vals:
        if isinstance(v, TreeV):
            diff = tree_diff(ctx, comp, e, v)
        else:
            diff = c01.compare(ctx, c, comp, e, v, tuple(o.facts) + tuple(guard))
            if diff and bare(v.get("name") or NONE) == Const("total-cost"):
                diff = None   # the grammar gives this function no parameters
        ctx.require(diff is None, "element", f, "%s: %s prints %s" % (what, kw, short(" ".join(map(repr, items)), 100)),
                    "%s: the text of an element of %s parses back to something else: %s" % (what, kw, diff), key)


def tree_diff(ctx, comp, e, v):
    """The parts of a production against the components of the element, in their order."""
    eta = Eta(ctx)
    got = [eta.norm(p.v) for p in v.parts if isinstance(p, One) and not isinstance(p.v, Const)]
    want = [fields for p, fields in comp.items()]
    if len(got) != len(want):
        return "%d parts for %d components" % (len(got), len(want))
    for x, fields in zip(got, want):
        for fd in fields:
            w = Attr(e, fd)
            if x == w or x == eta.norm(w):
                continue
            if isinstance(x, New) and all(eta.norm(y) == eta.norm(Attr(w, k)) or empty_value(y) for k, y in x.fields):
                continue
            return "%s is %s" % (fd, short(x))
    return None


def empty_value(y):
    return isinstance(y, Seq) and not y.parts


# -- typed lists -----------------------------------------------------------------------------------
class Spec:
    """What a typed list over a component has to say."""

    def __init__(self, ctx, o, coll, rule):
        self.ctx, self.o, self.coll = ctx, o, coll
        self.e = Elem(coll, 0)
        t = o.it.type_of(coll, o.st)
        if t and t[0] == "opt":
            t = t[1]
        self.map = bool(t and t[0] == "map")
        self.elt = t[1] if self.map else t[2] if t and t[0] == "coll" else None
        self.type_expr = App("item", (coll, self.e)) if self.map else None
        self.tags = None if self.map else Attr(self.e, "type_tags")
        self.skeleton = bool(self.elt and self.elt[0] == "inst" and own_method(self.elt[1], "arity") is not None)

    def name_ok(self, tok):
        if not (isinstance(tok, tuple) and tok[0] == "val"):
            return False
        v = bare(tok[1])
        if v == self.e:
            return True
        return not self.map and v in (Attr(self.e, "name"), Attr(self.e, "_name"))

    def type_ok(self, ty):
        """Is this expression the declared type of the element?"""
        if not (isinstance(ty, tuple) and ty[0] == "val"):
            return False
        v = bare(ty[1])
        if self.map:
            return v == self.type_expr
        one = one_of(v)
        return one is not None and (one == self.tags or bare(one) == self.tags) or v in (Attr(self.e, "type_tag"), Attr(self.e, "_type_tag"))

    def none(self, a):
        """Does the assignment say that the element has no type? None if it does not say."""
        if self.map:
            for k, b in a.items():
                if isinstance(k, App) and k.op == "isnone" and bare(k.args[0]) == self.type_expr:
                    return b
            return None
        n = a.get(self.tags)
        return None if n is None else n == 0

    def is_word(self, a, w):
        """Does the assignment say that the declared type is the word? """
        for k, b in a.items():
            if isinstance(k, App) and k.op == "eq" and Const(w) in k.args:
                x = k.args[0] if k.args[1] == Const(w) else k.args[1]
                if self.type_ok(("val", x)) and b:
                    return True
        return False

    def possible(self, a):
        for k, b in a.items():
            if not isinstance(k, App):
                continue
            if k.op == "truthy" and not b and self.type_ok(("val", k.args[0])) and not self.none(a):
                return False    # types have names
            if k.op == "isnone" and b and not (self.map and bare(k.args[0]) == self.type_expr):
                return False
            if k.op == "eq" and b and any(isinstance(x, Const) for x in k.args):
                x = k.args[0] if isinstance(k.args[1], Const) else k.args[1]
                if self.type_ok(("val", x)) and self.none(a):
                    return False
        if not self.map and a.get(self.tags) == 2:
            return False    # a constant has at most one type
        return True

    def ignored(self, a):
        """The root type need not be declared."""
        if not self.map or self.skeleton:
            return False
        for k, b in a.items():
            if isinstance(k, App) and k.op == "eq" and b and Const("object") in k.args and self.e in [bare(x) for x in k.args]:
                return True
        return False


def resolve(entry, spec):
    """(guard over the element, problem) for an entry nested in loops over the collection and its groups."""
    guard, inner = [], None
    for src, g in entry.ctxt:
        b = strip(src)
        if isinstance(b, App) and b.op == "grp":
            inner = b
        elif base_of(b) != spec.coll:
            return None, "the names come from %s" % short(src)
        guard += list(g)
    return (tuple(guard), inner), None


def typed(ctx, cls, rule, s, body, vals, f, o, what, key, aspect):
    """Checks a typed list; reports problems of coverage ('cover') or of types ('type')."""
    toks = grouped(body)
    entries, problems = typed_list(toks)
    colls = {}
    for e in entries:
        for src, g in e.ctxt:
            b = strip(src)
            if not (isinstance(b, App) and b.op == "grp"):
                p = owner(vals, src)
                if p:
                    colls[p] = base_of(src)
    if not entries:
        if aspect == "cover":
            empty_ok(ctx, None, rule, f, what, s, key)
        return None
    if len(colls) != 1:
        rep = ctx.violation if not colls else ctx.undecided
        if colls or aspect == "cover":
            if colls:
                ctx.undecided("typed list", f, "%s: %s mixes %s" % (what, s.keyword, sorted(colls)))
            else:
                for e in entries:
                    if e.ctxt:
                        stranger(ctx, f, what, s.keyword, e.ctxt[0][0], key)
                    else:
                        ctx.violation("content", f, "%s: %s prints no component: %s" % (what, s.keyword, short(body)), key)
                    break
        return None
    p, coll = next(iter(colls.items()))
    spec = Spec(ctx, o, coll, rule)
    ents = []
    for e in entries:
        r, prob = resolve(e, spec)
        if r is None:
            ctx.undecided("typed list", f, "%s: %s: %s" % (what, s.keyword, prob))
            return p
        guard, grp = r
        ents.append((e, guard, grp))
    if aspect == "cover":
        for e, guard, grp in ents:
            if spec.skeleton:
                if not (isinstance(e.tok, tuple) and e.tok[0] == "group"):
                    ctx.violation("element", f, "%s: %s prints %s for an element" % (what, s.keyword, short(e.tok)), key)
                    continue
                element(ctx, ctx.tb.parsers[0][1], "atomic_function_skeleton", e.tok[1], coll, guard, f, o, what, s.keyword, key)
            else:
                ctx.require(spec.name_ok(e.tok), "element", f, "%s: %s prints names" % (what, s.keyword), "%s: %s prints %s for an element" % (what, s.keyword, short(e.tok)), key)
        ex = exclusions(o.facts, coll)
        gs = [g for e, g, grp in ents]
        cs = Cases(gs + ex)
        bad = []
        for a in cs:
            if not spec.possible(a) or spec.ignored(a) or any(cs.holds(x, a) for x in ex):
                continue
            n = sum(1 for g in gs if cs.holds(g, a))
            if n != 1:
                bad.append((a, n))
        ctx.require(not bad, "every element", f, "%s: %s" % (what, s.keyword),
                    "%s: %s prints an element %s when %s" % (what, s.keyword, "%d times" % bad[0][1] if bad and bad[0][1] else "not at all", short(bad[0][0]) if bad else ""), key)
        return p
    for x in problems:
        ctx.violation("typed list", f, "%s: %s: %s" % (what, s.keyword, x), key)
    ex = exclusions(o.facts, coll)
    for e, guard, grp in ents:
        gd = [guard] + ex
        if spec.map:
            gd.append(((App("isnone", (spec.type_expr,)), True),))
        else:
            gd.append(((App("card", (spec.tags, frozenset([0]))), True),))
        cs = Cases(gd)
        bad = None
        for a in cs:
            if not spec.possible(a) or spec.ignored(a) or any(cs.holds(x, a) for x in ex) or not cs.holds(guard, a):
                continue
            none = spec.none(a)
            if e.type is None:
                okay = none is True or spec.is_word(a, "object")
            elif isinstance(e.type, str):
                okay = spec.is_word(a, e.type) or e.type == "object" and none is True and spec.map and not spec.skeleton
            else:
                okay = none is False and spec.type_ok(e.type) and (grp is None or spec.type_ok(("val", grp.args[1])))
            if not okay:
                bad = a
                break
        ctx.require(bad is None, "types", f, "%s: %s - %s" % (what, s.keyword, short(e.type)),
                    "%s: %s prints an element with the type %s when %s" % (what, s.keyword, short(e.type), short(bad)), key)
    return p
