"""Every production of the grammar is given a meaning by the parser that uses it.

For each transformer and each variant of each production reachable from its start symbol: a callback exists (or the
production passes a single value on, or its tree is taken apart by the callback above), some outcome of the callback
accepts, no outcome returns None, an exception object, an exception class or a raw syntax tree, and no outcome fails
with an error other than a validation, syntax or value error.
"""
from .. import grammar as G
from ..parsing import *
from .c21 import is_typed_list

MINIMUM = 150
ACCEPTED = ("PDDLError", "ParseError", "ValueError", "LarkError")


def run(ctx):
    tb = Table(ctx).build()
    done = {}
    for tr, rule in tb.missing:
        used = any(getattr(c, "tree", None) and c.tree[0].name == "r:" + rule.name for c in tb.cases if c.tr is tr and c.outs)
        ctx.require(used, "callback", tr, "%s: the tree of %r is taken apart by the callback above it" % (tr.name, rule.name),
                    "%s has no callback for the grammar rule %r (grammar.lark:%s), and nothing takes its tree apart" % (tr.name, rule.name, rule.line), "%s.%s" % (tr.name, rule.name))
    for c in tb.cases:
        ctx.guard("total", c.func, one, ctx, tb, c)


def one(ctx, tb, c):
    key = "%s.%s" % (c.tr.name, c.rule.name)
    if c.outs is None:
        ctx.undecided("total", c.func, "%r: %s" % (c, c.error))
        return
    outs = [o for o in c.outs if not impossible_name(o.facts)]
    rets = [o for o in outs if o.kind == "ret"]
    ctx.require(rets, "accepts", c.func, repr(c), "%r is in the grammar, but the callback always fails: %s" % (c, short(outs[0].value if outs else "no outcome")), key)
    trees = {p.src.name for s, p in zip(c.symbols, c.args) if isinstance(p, Spread) and isinstance(p.src, Sym) and rep_of_trees(tb, c, s)}
    for o in rets:
        v = o.value
        bad = None
        if v == NONE:
            bad = "None"
        elif isinstance(v, (ExcV, Exc)) or isinstance(v, Cls) and any(x.endswith(("Exception", "Error")) for x in ext_names(v.c)):
            bad = "an exception instead of raising it"
        elif isinstance(v, Ext) and v.name.endswith(("Error", "Exception")):
            bad = "an exception class"
        elif any(isinstance(x, Sym) and x.name.startswith("r:") and tree_rule(tb, c, x) for x in walk(v)) or any(isinstance(x, Sym) and x.name in trees for x in walk(v)):
            bad = "a raw syntax tree"
        if bad:
            ctx.violation("meaning", c.func, "%r: the callback returns %s when %s" % (c, bad, short(fmt_guard(o.facts))), key)
            break
    else:
        ctx.ok("meaning", c.func, repr(c))
    if is_typed_list(tb, c.rule):
        return
    for o in outs:
        if o.kind == "exc" and not accepted(o.value) and not about_state(o):
            ctx.violation("errors", c.func, "%r: fails with %s when %s" % (c, short(o.value, 120), short(fmt_guard(o.facts), 300)), key)
            break
    else:
        ctx.ok("errors", c.func, repr(c))


def ext_names(c):
    from ..program import ext_ancestors
    return [str(x) for x in ext_ancestors(c)] if isinstance(c, ClassInfo) else [str(c)]


def tree_rule(tb, c, x):
    r = tb.g.rules.get(x.name[2:].rstrip("0123456789"))
    return r is not None and own_method(c.tr, r.name) is None and not r.inline


def rep_of_trees(tb, c, s):
    return isinstance(s, G.Rep) and any(isinstance(x, G.N) and own_method(c.tr, x.name) is None and not tb.g.rules[x.name].inline for v in s.body for x in v)


def accepted(e):
    k = getattr(e, "exc", e).cls
    if isinstance(k, ClassInfo):
        names = [getattr(m, "name", str(m)).split(".")[-1] for m in k.mro()] + [x.split(".")[-1] for x in ext_names(k)]
    else:
        last = str(k).split(".")[-1]
        b = __builtins__.get(last) if isinstance(__builtins__, dict) else getattr(__builtins__, last, None)
        names = [last] + ([m.__name__ for m in b.__mro__] if isinstance(b, type) else [])
    return any(n in ACCEPTED for n in names)


def about_state(o):
    """Was the failure decided by something the parser has not recorded before, and not by the text at hand?"""
    for c, b in o.facts:
        if missing_state(c, b):
            return True
    syms = {x.name for x in walk(o.facts[-1][0]) if isinstance(x, Sym)} if o.facts else set()
    return syms == {"self"}


def missing_state(c, b):
    if isinstance(c, App) and c.op == "isnone" and b and isinstance(c.args[0], Attr) and isinstance(c.args[0].base, Sym) and c.args[0].base.name == "self":
        return True
    if isinstance(c, App) and c.op == "exists" and b:
        return any(missing_state(x, y) for x, y in c.args[1])
    return False
