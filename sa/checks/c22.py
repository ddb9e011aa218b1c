"""Each requirement has one keyword: the grammar reads it, the parsers turn it into the flag, the flag prints as it.

The alternatives of the grammar's requirement keywords are compared with the flags of the enumeration: the callback of each parser that has a
requirements section is interpreted with each keyword alone and with all of them, and the text of each flag is evaluated.
"""
from ..api import *
from ..parsing import Table

MINIMUM = 60
KEYS = "require_key"


def run(ctx):
    tb = Table(ctx)
    tb.build()
    enum = ctx.prog.classes.get("pddl.requirements.Requirements")
    if enum is None:
        ctx.undecided("flags", "pddl/requirements.py", "no enumeration of requirements")
        return
    ctx.guard("flags", enum, flags, ctx, tb, enum)


def keywords(g, rule, seen=()):
    """The fixed texts a rule of single terminals stands for."""
    out = []
    for alt in g.rules[rule].alts:
        for v in g.variants(alt):
            if len(v) != 1:
                raise Undecided("an alternative of %s is not a single keyword" % rule)
            x = v[0]
            if getattr(x, "name", "") in g.rules and x.name not in seen:
                out += keywords(g, x.name, seen + (rule,))
            elif g.literal(x) is not None:
                out.append((x.name, g.literal(x)))
            else:
                raise Undecided("%s has an alternative that is not a keyword" % rule)
    return out


def flags(ctx, tb, enum):
    g = tb.g
    if KEYS not in g.rules or "requirements" not in g.rules:
        raise Undecided("the grammar has no rule for requirements")
    kws = keywords(g, KEYS)
    members = members_of(enum)
    text = {}
    for m in members:
        f = own_method(enum, "__str__")
        vals = {o.value.v if isinstance(o.value, Const) else o.value for o in outcomes(ctx, f, [], self_=Enum_(enum, m)) if o.kind == "ret"} if f else {"Requirements." + m}
        if len(vals) != 1 or not isinstance(next(iter(vals)), str):
            raise Undecided("text of the flag %s" % m)
        text[m] = vals.pop()
        ctx.require(text[m] in [k for _, k in kws], "printed", enum, "%s prints as %r, a keyword of the grammar" % (m, text[m]), "the requirement %s prints as %r, which the grammar does not read as a requirement" % (m, text[m]), m)
    for m in members:
        same = [x for x in members if text[x] == text[m]]
        ctx.require(len(same) == 1, "distinct", enum, "only %s prints as %r" % (m, text[m]), "the requirements %s print alike, as %r" % (" and ".join(same), text[m]), text[m])
    cases = [c for c in tb.cases if c.rule.name == "requirements" and c.outs is not None]
    seen = {}
    for c in cases:
        seen.setdefault((c.tr, c.func), c)
    if not seen:
        raise Undecided("no parser has a requirements section")
    head = [g.literal(x) for x in variant_head(g)]
    for (tr, f), c in sorted(seen.items(), key=lambda x: x[0][0].qualname):
        everything = []
        for t, kw in kws:
            got = read(ctx, tb, c, head + [kw, ")"], enum)
            if got is None:
                ctx.undecided("read", f, "%s: what %r is read as" % (tr.name, kw))
                continue
            ok = len(got) == 1 and text.get(next(iter(got))) == kw
            everything += sorted(got)
            ctx.require(ok, "read", f, "%s reads %r as the flag that prints as it" % (tr.name, kw),
                        "%s: the grammar has the requirement %r, but it is read as %s" % (tr.name, kw, ", ".join("%s, which prints as %r" % (x, text.get(x)) for x in sorted(got)) or "nothing or an error"), "%s.%s" % (tr.name, kw))
        for m in members:
            ctx.require(m in everything, "readable", f, "%s: some keyword is read as %s" % (tr.name, m), "%s: no requirement keyword of the grammar is read as %s" % (tr.name, m), "%s.%s" % (tr.name, m))
        got = read(ctx, tb, c, head + [k for _, k in kws] + [kws[0][1], ")"], enum)
        if got is None:
            ctx.undecided("all", f, "%s: all requirements together" % tr.name)
        else:
            ctx.require(got == set(members), "all", f, "%s: all requirements together are all flags" % tr.name, "%s: a text with all requirements gives only %s" % (tr.name, ", ".join(sorted(got))), tr.name)


def variant_head(g):
    """Terminals before the keywords of the requirements section."""
    from .. import grammar as G
    for a in g.rules["requirements"].alts:
        out = []
        for x in a:
            if not isinstance(x, G.T):
                return out
            out.append(x)
    raise Undecided("the requirements section has no keywords")


def read(ctx, tb, c, texts, enum):
    """Names of the flags in what the callback returns for the given tokens (None: several answers; empty: it fails)."""
    arg = Seq("list", tuple(One(Const(t)) for t in texts))
    it = Interp(ctx.prog, no_inline=tb.opaque)
    it.attr_types = dict(tb.attr_hints(c))
    got = set()
    res = it.run(c.func, [arg], None, tb.selfval(c.tr), tb.state(c))
    ctx.analysed.add(c.func.qualname)
    for st, k, v in res:
        o = Outcome(it, st, k, v)
        if k != "ret":
            got.add(frozenset())
            continue
        got.add(frozenset(x.member for x in walk(o.value) if isinstance(x, Enum_) and x.cls is enum))
    return set(got.pop()) if len(got) == 1 else None


def members_of(enum):
    import ast
    out = []
    for n in enum.node.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name) and not t.id.startswith("_") and n.value is not None:
                    out.append(t.id)
    return out
