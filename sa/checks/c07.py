"""C07: values do not share collections with the outside.

Every constructor is interpreted with symbolic arguments: no field of the new object (or of an object made for it) may be the very collection
that was passed in.  For values with a hash, the result of every public property is compared with the fields: it may not be one of the
mutable collections of the object, and no component may have a setter or be a plain public attribute.
"""
from .c11 import *

MINIMUM = 60

CONTAINERS = ("Domain", "Problem", "Plan")


def mutable(it, v, s):
    """The value is an object of a kind that can be changed: an allocated list, set or dict, or a collection passed in."""
    if isinstance(v, Ref):
        h = s.heap.get(v.id)
        return isinstance(h, HSeq) and h.kind in ("list", "set", "dict")
    if isinstance(v, Seq):
        return v.kind in ("list", "set", "dict")
    if isinstance(v, App) and v.op in ("list", "set", "dict", "sorted"):
        return True
    return shared(v, s)


def shared(v, s):
    """The collection passed in itself, unless it is known to be of an immutable kind."""
    if not (isinstance(v, Sym) and v.typ):
        return False
    for c, b in s.log:
        if b and isinstance(c, App) and len(c.args) == 2:
            kinds = [x.name.split(".")[-1] for x in c.args if isinstance(x, Ext)]
            if kinds and kinds[0] in ("frozenset", "tuple", "str", "MappingProxyType") and (v in c.args or App("type", (v,)) in c.args):
                return False
    t = v.typ[1] if v.typ[0] == "opt" else v.typ
    return bool(t) and t[0] in ("coll", "map") and not (t[0] == "coll" and v.name.startswith("*"))


def collection(t):
    t = t[1] if t and t[0] == "opt" else t
    return bool(t) and t[0] in ("coll", "map") and not (len(t) > 3 and t[3])


def within(t):
    """A type whose values hold collections (a list of lists, or of pairs with a list)."""
    t = t[1] if t and t[0] == "opt" else t
    if not t or t[0] != "coll":
        return False
    return any(collection(x) or within(x) for x in (t[3] if len(t) > 3 and t[3] else (t[2],)))


def inner(it, v, s, top=True):
    """A collection inside the value that belongs to the maker: a member of what was passed in that is itself a collection and was not copied."""
    if isinstance(v, (Sym, Elem, Idx)) or isinstance(v, App) and v.op == "item":
        t = it.type_of(v, s)
        if isinstance(v, Sym) and v.name.startswith("*"):
            return None
        return v if within(t) or collection(t) and not top else None
    if isinstance(v, Seq):
        for p in v.parts:
            if isinstance(p, One):
                r = inner(it, p.v, s, False)
            elif isinstance(p, Spread):
                src = strip(p.src)
                r = src if within(it.type_of(src, s)) else inner(it, src, s)
            elif isinstance(p, Each):
                r = next((x for g, ps in p.alts for q in ps for x in [inner(it, getattr(q, "v", getattr(q, "src", None)), s, not isinstance(q, One))] if x is not None), None)
            else:
                r = None
            if r is not None:
                return r
    if isinstance(v, App) and v.op in ("list", "set", "tuple", "sorted", "reversed"):
        return inner(it, v.args[0], s)
    return None


def fields_of(s, ref, seen=None):
    """(name, raw value) of every field of an object and of the objects made for it."""
    h = s.heap[ref.id]
    for k, v in h.fields.items():
        if isinstance(v, Ref) and isinstance(s.heap.get(v.id), HInst):
            for k2, v2 in fields_of(s, v):
                yield k + "." + k2, v2
        else:
            yield k, v


def symbols(it, f, ps, var):
    syms = {n: Sym(n, annotated(it, f, n)) for n in ps}
    rest = [Spread(Sym("*" + var, ("coll", "seq", None)))] if var else []
    return syms, rest


def constructor(ctx, c):
    f = c.find("__init__")
    if not f or f[1] != "method":
        return
    f = f[2]
    ps, var = init_params(c)
    hashed = c.find("__hash__")
    hashed = bool(hashed and hashed[1] == "method")
    opaque = frozenset(Prover(ctx, None, None, "").generics) | frozenset(g.qualname for g in ctx.prog.functions.values() if loops_while(g))
    big = c.name in CONTAINERS
    it = Interp(ctx.prog, opaque=opaque, max_states=8000)
    it.attr_types = {}
    syms, rest = symbols(it, f, ps, var)
    for p in ps if big else [None]:
        if p in ("name", "domain") and big:
            continue
        it.nstates = 0
        args = [One(syms[n] if p in (None, n) or n in ("name", "domain") else NONE) for n in ps]
        rets = 0
        for s, r in it.instantiate(c, args + rest, {}, State(), None, skip_meta=True):
            if isinstance(r, Exc) or not isinstance(r, Ref):
                continue
            rets += 1
            fs = list(fields_of(s, r))
            for k, v in fs:
                bad = shared(v, s)
                ctx.require(not bad, "held", f, "%s.%s is not the collection passed in" % (c.name, k),
                            "%s keeps the very collection passed as %s (%s): changing it afterwards changes the %s" % (c.name, getattr(v, "name", v), k, c.name.lower()), "held:%s:%s" % (c.name, k))
                x = None if bad else inner(it, it.fz(v, s), s)
                ctx.require(x is None, "inner", f, "%s.%s holds none of the collections inside the one passed in" % (c.name, k),
                            "%s keeps a collection found inside what it is given (%s): changing it afterwards changes the %s" % (c.name, x, c.name.lower()), "inner:%s:%s" % (c.name, k))
            if hashed:
                given_out(ctx, c, it, s, r, fs)
        if not rets:
            ctx.undecided("held", f, "no normal outcome of the constructor of %s with %s" % (c.name, p))
        ctx.analysed.update(it.visited)


def given_out(ctx, c, it, s, r, fs):
    for k in sorted({n for b in c.mro() if isinstance(b, ClassInfo) for n, m in b.methods.items() if m.kind == "property" and not n.startswith("_")}):
        if c.find_setter(k):
            ctx.violation("assigned", c.find_setter(k), "%s of the hashable %s can be assigned" % (k, c.name), "assigned:%s:%s" % (c.name, k))
        outs = it.getattr(r, k, s, None)
        for s2, v in outs:
            if isinstance(v, Exc):
                continue
            same = [n for n, x in fs if mutable(it, x, s) and (x == v or isinstance(v, Ref) and x == v)]
            ctx.require(not same, "given", c.find(k)[2], "%s.%s gives out nothing that can be changed" % (c.name, k),
                        "%s.%s gives out its own %s, which can be changed although the %s can be a key" % (c.name, k, s.heap[v.id].kind if isinstance(v, Ref) else "collection", c.name), "given:%s:%s" % (c.name, k))
    for k, v in s.heap[r.id].fields.items():
        ctx.require(k.startswith("_"), "assigned", c, "%s.%s is private" % (c.name, k), "%s.%s of a hashable value is a plain attribute that can be assigned" % (c.name, k), "assigned:%s:%s" % (c.name, k))


def run(ctx):
    done = {}
    for c in value_classes(ctx):
        f = c.find("__init__")
        ctx.guard("held", f[2] if f and f[1] == "method" else c, constructor, ctx, c)
