"""Names that get into objects are names of the grammar and none of its keywords.

The class of names: the strings its constructor accepts (a Boolean combination of regular expressions, taken from the facts of its paths) are compared
with those of the NAME token of the grammar, as languages.  The constructors: every parameter that takes a name, a collection of names or a mapping of
names is tried with every keyword the parser can meet where a name may stand (LR automaton of the grammar), with other keywords, and with words that
are none; what is stored must have gone through the class of names.
"""
import ast

from .. import grammar as G
from ..api import *
from ..checked import loops_while
from ..model import *
from .c12 import graph
from .c20 import accepted as ok_error
from ..regexlang import Pattern, Unknown, difference

MINIMUM = 120


def run(ctx):
    tb = grammars(ctx)
    base = ctx.prog.classes.get("pddl.custom_types.name")
    if base is None:
        ctx.undecided("syntax", "pddl/custom_types.py", "no class of names")
        return
    ctx.guard("syntax", base, syntax, ctx, base, tb)
    for c in concrete_classes(ctx):
        f = c.methods.get("__init__") if hasattr(c, "methods") else own_method(c, "__init__")
        if f is None or own_method(c, "__init__") is not f:
            continue
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            shape = kind_of(x.annotation)
            if shape:
                ctx.guard("names", f, names, ctx, base, tb, c, f, x.arg, shape)


def grammars(ctx):
    """(grammar, words the parser may meet where a name may stand, all words of the grammar)"""
    g = G.find(ctx.root)
    contextual = True
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) == "Lark":
                kw = {k.arg: k.value.value if isinstance(k.value, ast.Constant) else None for k in n.keywords}
                contextual &= kw.get("parser") == "lalr" and kw.get("lexer", "contextual") == "contextual"
    words = {n: s for n, s in g.literals().items() if s[0].isalpha()}
    hard = set()
    if contextual:
        for start in ("domain", "problem", "plan"):
            for t in G.Automaton(g, start).takes.values():
                if "NAME" in t:
                    hard |= {words[x] for x in t if x in words}
    else:
        hard = set(words.values())
    return g, hard, set(words.values())


def kind_of(ann):
    """name | some (collection) | map (names to names) for annotations made of names."""
    if ann is None:
        return None
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(ann, ast.Name):
        return "name" if ann.id in ("namelike", "name", "name_type") else None
    if isinstance(ann, ast.Subscript):
        h = ann.value.id if isinstance(ann.value, ast.Name) else getattr(ann.value, "attr", "")
        if h == "Optional":
            return kind_of(ann.slice)
        xs = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        ks = [kind_of(x) for x in xs]
        if h in ("Dict", "dict", "Mapping") and ks == ["name", "name"]:
            return "map"
        if h in ("Collection", "Sequence", "Set", "AbstractSet", "FrozenSet", "List", "Iterable", "set", "list", "frozenset") and ks == ["name"]:
            return "some"
    return None


# -- syntax ------------------------------------------------------------------------------------
def syntax(ctx, base, tb):
    g = tb[0]
    f = own_method(base, "__init__")
    if f is None:
        raise Undecided("the class of names has no constructor")
    me = selfsym(base)
    outs = outcomes(ctx, f, [Sym("value", ("py", "str"))], self_=me)
    pats, lits = [], {}

    def literal(c):
        """Index of the pattern of a condition, and whether a match means true."""
        v, sign = c, True
        if isinstance(c, App) and c.op in ("truthy", "isnone") and len(c.args) == 1:
            v, sign = c.args[0], c.op == "truthy"
        if v not in lits:
            lits[v] = len(pats)
            pats.append(pattern(v, me))
        return lits[v], sign

    def alts(o, neg=False):
        return [(literal(c), b) for c, b in o.facts]
    rets = [alts(o) for o in outs if o.kind == "ret"]
    excs = [o for o in outs if o.kind == "exc"]
    text = g.regex("NAME")
    if text is None:
        raise Undecided("the NAME token is not a regular expression")
    pats.append(Pattern(text))
    n = len(pats) - 1

    def made(v):
        return any(all((v[i] == sign) == b for (i, sign), b in r) for r in rets)
    w = difference(pats, made, lambda v: v[n])
    if w is None:
        ctx.ok("syntax", f, "the accepted names are those of the NAME token, /%s/" % text)
    else:
        accepted = made([p.accepts(run_(p, w)) for p in pats])
        ctx.violation("syntax", f, "the name %r is %s by the constructor of names but %s the grammar's NAME token /%s/" % (w, "accepted" if accepted else "rejected", "is not read by" if accepted else "is read by", text), "language")
    for o in excs:
        ok = ok_error(o.value)
        ctx.require(ok, "syntax", f, "a malformed name raises a value error", "a malformed name raises %s, which is neither a value error nor a PDDL error" % short(o.value, 80), "error")


def run_(p, w):
    st = p.initial()
    for c in w:
        st = p.advance(st, c)
    return st


def pattern(v, me):
    """The pattern a match value comes from."""
    if not (isinstance(v, App) and v.op == "callv" or isinstance(v, App)):
        raise Undecided("condition %s" % short(v, 80))
    s = v.args
    name, recv, args = None, None, ()
    if v.op == "callv" and isinstance(s[0], Attr):
        name, recv, args = s[0].name, s[0].base, s[1:]
    elif v.op.startswith("ext:"):
        name, args = v.op.split(".")[-1], s
        recv = args[0] if args else None
        args = args[1:]
    if name not in ("match", "fullmatch", "search") or recv is None:
        raise Undecided("condition %s" % short(v, 80))
    text, flags = compiled(recv)
    args = [a.v if isinstance(a, One) else a for a in args]
    if not args or strip_str(args[0]) not in (me, Sym("value", ("py", "str"))) or len(args) > 1:
        raise Undecided("what is matched: %s" % short(v, 80))
    try:
        return Pattern(text, flags, name)
    except Unknown as e:
        raise Undecided(str(e))


def strip_str(v):
    while isinstance(v, App) and v.op == "str" and len(v.args) == 1:
        v = v.args[0]
    return v


def compiled(v):
    import re
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v, 0
    if isinstance(v, Fmt):
        ps = [(x, 0) if isinstance(x, str) else compiled(x) for x in v.parts]
        if any(f for _, f in ps):
            raise Undecided("pattern with flags inside another")
        return "".join(x for x, _ in ps), 0
    if isinstance(v, Attr) and v.name == "pattern":
        return compiled(v.base)
    if isinstance(v, App) and v.op.split(".")[-1] == "compile" and v.args and isinstance(v.args[0], Const):
        flags = 0
        for a in v.args[1:]:
            for x in walk(a.v if isinstance(a, One) else a):
                if isinstance(x, Ext):
                    fl = getattr(re, x.name.split(".")[-1], None)
                    if not isinstance(fl, re.RegexFlag):
                        raise Undecided("flags of %s" % short(v, 80))
                    flags |= int(fl)
                elif isinstance(x, Const) and isinstance(x.v, int):
                    flags |= x.v
        return v.args[0].v, flags
    raise Undecided("pattern %s" % short(v, 80))


# -- constructors ---------------------------------------------------------------------------------
def filler(ann):
    """A harmless value of another parameter."""
    t = ast.unparse(ann) if ann is not None else ""
    if kind_of(ann) == "name":
        return Const("w")
    if t.startswith(("Collection", "Sequence", "List", "Set", "AbstractSet", "Tuple")):
        return Seq("tuple", ())
    return Sym("other", None)


def names(ctx, base, tb, c, f, param, shape):
    g, hard, words = tb
    a = f.node.args
    ps = (a.posonlyargs + a.args)[1:] + a.kwonlyargs
    s = Sym("N", ("py", "str"))
    forms = {"name": [("", s)], "some": [("", Seq("tuple", (One(s),)))],
             "map": [("key ", Seq("dict", (One(Pair(s, NONE)),))), ("value ", Seq("dict", (One(Pair(Const("w"), s)),)))]}[shape]
    optional = {x.arg for x, d in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]}
    for label, v in forms:
        what = "%s(%s%s)" % (c.name, label, param)
        kwargs = {}
        for x in ps:
            if x.arg == param:
                kwargs[x.arg] = v
            elif x.arg not in optional or kind_of(x.annotation) == "name" and not any(k in x.arg for k in ("type",)):
                kwargs[x.arg] = filler(x.annotation)
            elif x.arg == "requirements" and shape == "map":
                req = ctx.prog.classes["pddl.requirements.Requirements"]
                kwargs[x.arg] = Seq("frozenset", (One(Enum_(req, "TYPING")),))
            elif any(k in x.arg for k in ("skip",)):
                kwargs[x.arg] = Const(True)
        searches = frozenset(q.qualname for q in ctx.prog.functions.values() if loops_while(q))
        it = Interp(ctx.prog, opaque=searches, max_states=4000)
        it.attr_types = {}
        it.nstates = 0
        outs = [Outcome(it, st, "exc" if isinstance(r, Exc) else "ret", r) for st, r in it.instantiate(c, [], kwargs, State(), None)]
        for q in it.visited:
            ctx.analysed.add(q)
        rets = [o for o in outs if o.kind == "ret"]
        if not rets:
            raise Undecided("%s: no path accepts anything" % what)
        type_role = "type" in param
        cases = []
        for w in sorted(words | {"a", "A1", "strips", "typing", "Object", "ands", "object1", "x-y_z", "n", "total-costs", "requirements", "action"}):
            if w in hard and not (type_role and w == "object"):
                cases.append(Case("the name %r" % w, Model({s: w}, {q: graph for q in searches}), "it is a keyword of the grammar"))
            elif w not in words or type_role and w == "object" or "Function" in c.name and w == "total-cost":
                cases.append(Case("the name %r" % w, Model({s: w}, {q: graph for q in searches}), ""))
        table(ctx, "keywords", f, outs, cases, what)
        for w in ("", " ", "1a", "a b", "-", "a?", "_", "a\n"):
            # accepted on a path of its own, without having been made a name
            past = [o for o in rets if o.raw is not None and any(mentions(x[0], s) for x in o.facts) and not any(is_name(x, s) for x in walk(o.value))
                    and Model({s: w}, {q: graph for q in searches}).all(o.facts) is True]
            ctx.require(not past, "syntax everywhere", f, "%s: no way round the syntax check for %r" % (what, w),
                        "%s: the string %r, which is no name, is accepted when %s" % (what, w, short(fmt_guard(past[0].facts), 160) if past else ""), "%s.%s:skipped" % (c.name, param))
        bad = None
        for o in rets:
            if o.raw is None:
                continue
            v2 = o.value
            for x in loose(v2, s):
                bad = o
        ctx.require(bad is None, "stored", f, "%s: what is stored went through the class of names" % what,
                    "%s: the given string is stored as it is, without the syntax check of names, when %s" % (what, short(fmt_guard([x for x in bad.facts if not mentions(x[0], s)]) if bad else "", 160)), "%s.%s" % (c.name, param))


def is_name(v, s):
    return isinstance(v, App) and v.args and v.args[0] == s and v.op in ("name", "convert:name") or isinstance(v, New) and v.cls.name == "name"


def loose(v, s):
    """Occurrences of s in v outside the class of names."""
    if isinstance(v, V):
        if v == s:
            yield v
            return
        if is_name(v, s):
            return
        for x in v.FIELDS:
            yield from loose(getattr(v, x), s)
    elif isinstance(v, (tuple, list, frozenset)):
        for x in v:
            yield from loose(x, s)
    elif isinstance(v, dict):
        for x in v.values():
            yield from loose(x, s)
