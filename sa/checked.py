"""Does a checking procedure look at every part of what it is given?

`Prover.covers(v, o)` asks whether the outcome o of a function has established the property for the value v: by a call
of a procedure that establishes it for every object of the kind of v (which is proved separately, by interpreting that procedure on
a symbolic object of each class and asking the same of each of its components), by such a call for every element of v,
or directly (`base`) when v is a term.
"""
from .eqcommon import *

VALUE_MODULES = ("pddl.core",)


class Prover:
    def __init__(self, ctx, base, reject, where):
        self.ctx, self.base, self.reject, self.where = ctx, base, reject, where
        self.memo = {}
        self.rejects = {}
        self.classes = [c for c in value_classes(ctx) if not c.module.name.startswith(VALUE_MODULES)]
        self.term = ctx.prog.classes["pddl.logic.terms.Term"]
        self.fields = {}
        self.generics = {f.qualname: f for f in ctx.prog.functions.values() if f.kind == "generic"}
        for k in ctx.prog.classes.values():
            for f in k.functions:
                if f.kind == "generic":
                    self.generics[f.qualname] = f
        self.opaque = set(self.generics) | {f.qualname for f in ctx.prog.functions.values() if loops_while(f) or f.module.name == "pddl.custom_types" and f.name.startswith("to_")}

    # -- structure -------------------------------------------------------------------
    def components(self, c):
        """[(constructor parameter, field)] of the parts of a class that hold terms."""
        if c not in self.fields:
            self.fields[c] = []
            it = Interp(self.ctx.prog)
            it.attr_types = {}
            x = Sym("x", ("inst", c, True))
            out = []
            for p, fs in component_fields(self.ctx, c).items():
                for f in fs:
                    for s, v in it.getattr(x, f, State(), None):
                        if not isinstance(v, Exc) and self.bearing(it.type_of(v, s), c):
                            out.append((p, f))
            self.fields[c] = sorted(set(out))
        return self.fields[c]

    def bearing(self, t, c=None):
        """Can a value of this type hold terms?"""
        if t is None:
            return True
        if t[0] == "opt":
            return self.bearing(t[1])
        if t[0] == "coll":
            return self.bearing(t[2])
        if t[0] == "map":
            return self.bearing(t[1]) or self.bearing(t[2])
        if t[0] == "inst":
            if t[1].is_enum:
                return False
            return any(k.is_subclass(self.term) or self.bears(k) for k in self.kinds(t))
        return t[0] == "union" and any(self.bearing(x) for x in t[1:] if isinstance(x, tuple))

    def bears(self, k):
        if k.is_subclass(self.term):
            return True
        if k in self.fields:
            return bool(self.fields[k]) or True
        return bool(self.components(k))

    def kinds(self, t):
        """Concrete classes of a type."""
        while t and t[0] == "opt":
            t = t[1]
        if t is None:
            return [c for c in self.classes if c.module.name.startswith("pddl.logic") and c.name != "Metric" and not c.is_subclass(self.term)]
        if t[0] == "inst" and t[1].name == "Formula":
            return self.kinds(None)
        if t[0] == "inst":
            return [c for c in self.classes if c.is_subclass(t[1]) and (c.name != "Metric" or c is t[1])] or [t[1]]
        return []

    # -- outcomes ---------------------------------------------------------------------
    def run(self, f, args, coarse=False, st=None):
        cut = (lambda g: g is not f and procedure(g) and has_loop(g)) if coarse else None
        it = Interp(self.ctx.prog, opaque=self.opaque - {f.qualname}, no_inline=cut, max_states=4000)
        it.attr_types = {}
        impl = f
        if f.kind == "generic":
            k = 1 if f.cls is not None else 0
            t = it.type_of(args[k], State())
            if t and t[0] == "inst":
                impl = it.dispatch(f, t[1])
            elif t and t[0] in ("coll", "map"):
                impl = it.dispatch(f, "coll")
            else:
                raise Undecided("dispatch of %s on a value of unknown kind" % f.qualname)
            it.opaque = it.opaque | {f.qualname}
        self_ = None
        res = it.run(impl, list(args), None, self_, st)
        self.ctx.analysed.add(impl.qualname)
        for q in it.visited:
            self.ctx.analysed.add(q)
        return impl, [Outcome(it, s, k, v) for s, k, v in res]

    def outcomes(self, f, args, st=None):
        try:
            return self.run(f, args, False, st)
        except Undecided:
            return self.run(f, args, True, st)

    # -- proofs -----------------------------------------------------------------------
    # A proof fails with a list of causes: (rule, where, message, key).
    def covers(self, v, o, events=None, typ=None, clauses=()):
        """None if the outcome has established the property for v, else the reasons why not."""
        top = events is None
        if top:
            events = expand(o)
        v = strip(v)
        if v == NONE or o.it.decide(App("isnone", (v,)), o.st) is True:
            return None
        t = typ or o.it.type_of(v, o.st)
        if t and t[0] == "opt":
            t = t[1]
        if not self.bearing(t):
            return None
        if isinstance(v, Seq):
            return self.parts(v, o, events)
        if t and t[0] in ("coll", "map") and o.it.decide(App("card", (v, frozenset({0}))), o.st) is True:
            return None
        why = []
        if t and t[0] == "inst" and t[1].is_subclass(self.term):
            r = self.base(v, list(clauses) + [frozenset([x]) for x in o.facts], o)
            if r is None:
                return None
            why.append([("term", None, r, "")])
        for e in events:
            if e.loops or not trivial(e.guard, o):
                continue
            r = self.via(e, v, t, o)
            if r is None:
                return None
            if r:
                why.append(r)
        ks = self.kinds(t) if t and t[0] == "inst" else []
        if len(ks) == 1 and not ks[0].is_subclass(self.term) and top and not any(k[2] == ("inst", ks[0], True) and r is None for k, r in self.memo.items() if len(k) == 3):
            # an object of one known class: part by part
            rs = []
            for p, fld in self.components(ks[0]):
                for s, x in o.it.getattr(v, fld, o.st, None):
                    if not isinstance(x, Exc):
                        rs.append(self.covers(o.it.fz(x, s), Outcome(o.it, s, o.kind, o.raw)))
            if rs and all(r is None for r in rs):
                return None
            why.extend(r for r in rs if r)
        if t is None or t[0] in ("coll", "map"):
            el = Elem(v, 0)
            et = (t[2] if t[0] == "coll" else t[1]) if t else None
            if any(e.kind == "cut" and strip(e.args[0]) == v for e in o.events):
                why.append([("loop", None, "the loop over %s may end before the last element" % short(v, 80), "")])
            else:
                guards = []
                for e in events:
                    if e.loops and strip(keys_of(e.loops[0])) == v:
                        if len(e.loops) == 1:
                            g = [x for x in e.guard if x not in o.facts]
                            e1 = Event(e.kind, e.name, e.args, e.node, e.fn, (), ())
                        else:
                            g = []
                            e1 = Event(e.kind, e.name, e.args, e.node, e.fn, e.guard, e.loops[1:])
                        r = self.covers(el, o, [e1], et)
                        if r is None:
                            guards.append(tuple(g))
                        elif r and not (r[0][0] == "none" and r[0][1] is None):
                            why.append(r)
                if guards and o.it.total(guards):
                    return None
                if guards:
                    why.append([("loop", None, "only the elements of %s with %s are checked" % (short(v, 80), fmt_guard(guards[0])), "")])
            extra = [frozenset((c, not b) for c, b in f.args[1]) for f, b in o.facts if not b and isinstance(f, App) and f.op == "exists" and strip(f.args[0]) == v]
            if extra and et and et[0] == "inst" and et[1].is_subclass(self.term):
                r = self.base(el, list(clauses) + [frozenset([x]) for x in o.facts] + extra, o)
                if r is None:
                    return None
                why.append([("term", None, r, "")])
        best = min(why, key=self.vague) if why else None
        return best if best and (best[0][1] is None or not self.vague(best)[0]) else [("none", None, "%s is not checked" % short(v, 120), "")]

    def parts(self, v, o, events):
        for p in v.parts:
            if isinstance(p, One):
                r = self.covers(p.v.k if isinstance(p.v, Pair) else p.v, o, events)
            elif isinstance(p, Spread):
                r = self.covers(keys_of(p.src), o, events)
            else:
                raise Undecided("collection %s" % short(v))
            if r is not None:
                return r
        return None

    def via(self, e, v, t, o):
        """Does the call e establish the property for v?  None: yes; []: it has nothing to do with v."""
        f = self.ctx.prog.functions.get(e.name) or self.generics.get(e.name)
        if f is None:
            return []
        why = []
        for i, a in enumerate(e.args):
            if strip(a) == v:
                r = self.summary(f, e.args, i, t)
            elif isinstance(a, Seq) and any((isinstance(p, One) and strip(p.v) == v) or (isinstance(p, Spread) and strip(keys_of(p.src)) == v) for p in a.parts):
                r = self.summary(f, e.args, i, t if t and t[0] in ("coll", "map") else ("coll", "seq", t))
            elif isinstance(a, V) and not isinstance(a, Fn) and deep_mentions(a, v) and f.kind != "generic":
                r = self.deep(f, e.args, v, t)
            else:
                continue
            if r is None:
                return None
            why.append(r)
        return min(why, key=self.vague) if why else []

    def vague(self, causes):
        """Order of the explanations: those of procedures that work for other values first."""
        good = {k[0] for k, r in self.memo.items() if r is None and k[0] != "deep"}
        return (not any(w is not None and (w.qualname in good or w.generic_of and (w.cls.qualname + "." + w.generic_of.split(".")[-1]) in good) for _, w, _, _ in causes), len(causes))

    def deep(self, f, args, v, t):
        key = ("deep", f.qualname, args, v)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = [("deep", f, "%s calls itself" % f.name, "deep")]
        impl, outs = self.outcomes(f, list(args))
        res = None
        for o in outs:
            if o.kind == "ret":
                r = self.covers(v, o, typ=t)
                if r:
                    res = self.located(r, impl)
                    break
        self.memo[key] = res
        return res

    def located(self, r, impl):
        return [(rule, w or impl, m, k) for rule, w, m, k in r]

    def summary(self, f, args, i, t):
        """Does a normal return of f establish the property for every argument i of the given type?"""
        if t and t[0] in ("coll", "map"):
            t = ("coll", "set" if t[0] == "map" else t[1], t[1] if t[0] == "map" else t[2])
            return self.one(f, args, i, Sym("$c", t), None)
        out = []
        for k in self.kinds(t):
            if self.bears(k):
                out.extend(x for x in self.one(f, args, i, Sym("$x", ("inst", k, True)), k) or () if x not in out)
        return out or None

    def one(self, f, args, i, x, k):
        a = tuple(args[:i]) + (x,) + tuple(args[i + 1:])
        key = (f.qualname, a, x.typ)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        impl, outs = self.outcomes(f, list(a))
        res, rej = [], []
        name = k.name if k else "collection"
        for o in outs:
            if o.kind != "ret":
                r = self.reject(x, k, o)
                if r:
                    rej.append(("rejects", impl, r, "rejects:%s" % name))
                continue
            if k is None or k.is_subclass(self.term):
                r = self.covers(x, o)
                if r:
                    res.extend((rule, w or impl, m, q or ("%s:%s" % (rule, name))) for rule, w, m, q in r)
                continue
            for p, fld in self.components(k):
                for s, v in o.it.getattr(x, fld, o.st, None):
                    if isinstance(v, Exc):
                        continue
                    v = o.it.fz(v, s)
                    r = self.covers(v, Outcome(o.it, s, o.kind, o.raw))
                    if r:
                        res.extend((rule, w or impl, m if w else "%s of a %s: %s" % (p, name, m), q or "part:%s:%s" % (name, p)) for rule, w, m, q in r)
        res = list(dict.fromkeys(res)) or None
        if res is None and not any(o.kind == "ret" for o in outs) and not rej:
            raise Undecided("%s never returns for a %s" % (f.name, name))
        self.memo[key] = res
        self.rejects[key] = (impl, name, rej)
        return res

    def report(self, where):
        """Proved summaries: obligations and unjustified rejections."""
        for key, (impl, name, rej) in self.rejects.items():
            if self.memo.get(key) is None:
                if not rej:
                    self.ctx.ok("kind", impl, "%s: %s of every %s, no unjustified rejection" % (where, self.where, name))
                for rule, w, m, q in rej[:1]:
                    self.ctx.violation(rule, w, m, q)


def loops_while(f):
    return not isinstance(f.node, ast.Lambda) and any(isinstance(n, ast.While) for n in ast.walk(f.node))


def has_loop(f):
    return any(isinstance(n, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for n in ast.walk(f.node))


def procedure(f):
    """A function that neither returns a value nor changes an attribute: it can only raise."""
    if isinstance(f.node, ast.Lambda) or f.is_generator or f.name in ("__init__", "__new__"):
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return False
    return True


def trivial(guard, o):
    return all(x in o.facts for x in guard)


def keys_of(src):
    src = strip(src)
    while isinstance(src, App) and src.op in (".keys", ".items") and len(src.args) == 1:
        src = strip(src.args[0])
    return src


def deep_mentions(a, v):
    return any(strip(x) == v for x in walk(a) if isinstance(x, V))


def expand(o):
    """The calls of an outcome; a call with a collection put together from another one is also a call per element of that one."""
    out = []
    for e in o.events:
        if e.kind != "call":
            continue
        out.append(e)
        for i, a in enumerate(e.args):
            if isinstance(a, Seq):
                for p in a.parts:
                    if isinstance(p, Each):
                        for g, ps in p.alts:
                            a2 = Seq(a.kind, tuple(ps))
                            out.append(Event(e.kind, e.name, e.args[:i] + (a2,) + e.args[i + 1:], e.node, e.fn, tuple(e.guard) + tuple(g), tuple(e.loops) + (p.src,)))
    return out


# -- small propositional reasoning ------------------------------------------------------
def contradiction(clauses, known, value=None):
    """Do the clauses (disjunctions of literals) contradict the known literals?  value(c, b) may decide further literals."""
    known = dict(known)
    clauses = [set(c) for c in clauses]
    while True:
        changed = False
        for cl in clauses:
            open_ = []
            sat = False
            for c, b in cl:
                x = known.get(c)
                if x is None and value is not None:
                    x = value(c)
                if x is None:
                    open_.append((c, b))
                elif x == b:
                    sat = True
                    break
            if sat:
                continue
            if not open_:
                return True
            if len(open_) == 1 and open_[0][0] not in known:
                known[open_[0][0]] = open_[0][1]
                changed = True
        if not changed:
            return False
