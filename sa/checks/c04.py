"""Equal objects have equal hashes, for every hashable class and across cached or restored hashes.

The value returned by every path of a hash is shown to be a function of things that the equality of the
class forces to coincide; a remembered hash is dropped when the object is saved or restored.
"""
from ..eqcommon import *

MINIMUM = 30


def run(ctx):
    for c in value_classes(ctx):
        h = hash_of(ctx, c)
        if h is None:
            ctx.ok("unhashable", own_method(c, "__eq__"), "%s has no hash" % c.name)
            continue
        ctx.guard("hash", h, one, ctx, c, h)
    ctx.guard("memo", "hash cache", memo, ctx)


def hash_of(ctx, c):
    """The hash in effect; defining __eq__ without __hash__ makes a class unhashable."""
    for k in c.mro():
        if not isinstance(k, ClassInfo):
            continue
        if "__hash__" in k.methods:
            return k.methods["__hash__"]
        if "__hash__" in k.attrs:
            return None
        if "__eq__" in k.methods:
            return None
    return None


def one(ctx, c, h):
    f, true, false, raised = eq_true_outcomes(ctx, c)
    a, b = selfsym(c), Sym(OTHER, inst(c, True))
    ha = {}
    outs = outcomes(ctx, h, [], self_=a)
    for o in outs:
        if o.kind == "exc":
            ctx.violation("hash", h, "hash(%s) can raise %r" % (c.name, o.value))
            return
    for facts, _, s in true:
        for o in outs:
            ef = Determined(ctx, facts, o)
            v = o.value
            if isinstance(v, App) and v.op == "hash":
                v = v.args[0]
            w = swap(v, Sym(SELF, None), Sym(OTHER, None))
            good = same_hash(ef, v, w)
            ctx.require(good, "hash", h, "%s: hash of %s" % (c.name, short(v, 80)),
                        "equal %s objects can have different hashes: the hash reads %s, equality establishes only %s"
                        % (c.name, short(v), short(fmt_guard([g for g in facts if g[1]]))), "%s.hash" % c.name)
            for x in walk(v):
                if isinstance(x, App) and x.op in ("ext:id", "id") or isinstance(x, Ext) and x.name.endswith("builtins.id"):
                    ctx.violation("hash", h, "%s: hash depends on the identity of an object" % c.name)


class Determined(EqFacts):
    """Equal values give equal results only under functions that see no more than equality does."""

    def __init__(self, ctx, facts, o):
        EqFacts.__init__(self, facts)
        self.ctx, self.o = ctx, o

    def same(self, a, b, depth=0):
        if a == b:
            return True
        if isinstance(a, App) and a.op in TEXT:
            if not self.textual(a.args[0], a.op):
                return False
            if isinstance(a.args[0], Sym) and a.args[0].name == SELF and isinstance(b, App) and b.op == a.op and rename_sym(a, SELF, OTHER) == b:
                return True
        if isinstance(a, Attr) and not (isinstance(a.base, Sym) and a.base.name in (SELF, OTHER)) and not self.covered(a):
            return False
        return EqFacts.same(self, a, b, depth)

    def types(self, v):
        t = self.o.it.type_of(swap(v, Sym(OTHER, None), Sym(SELF, None)), self.o.st) or self.o.it.type_of(v, self.o.st)
        if t and t[0] == "opt":
            t = t[1]
        return t

    def textual(self, v, op):
        """Do equal values of this kind have the same text?  Numbers do not: 1 == 1.0 == True."""
        t = self.types(v)
        if t is None:
            return isinstance(v, Const)
        if t[0] == "py":
            return t[1] in ("str", "bytes", "bool", "NoneType")
        if t[0] not in ("inst", "union"):
            return False
        ks = [t[1]] if t[0] == "inst" else [x[1] for x in t[1]]
        return all(c.is_enum or same_text(self.ctx, c, "__repr__" if "repr" in op else "__str__") for k in ks for c in self.ctx.prog.subclasses(k)
                   if c in value_classes(self.ctx))

    def covered(self, a):
        """Does the equality of the object fix this attribute?"""
        t = self.types(a.base)
        if t is None or t[0] not in ("inst", "union"):
            return True
        ks = [t[1]] if t[0] == "inst" else [x[1] for x in t[1]]
        for k in ks:
            for c in self.ctx.prog.subclasses(k) if not k.is_enum else ():
                if not fixes(self.ctx, c, a.name):
                    return False
        return True


TEXT = {"str", "repr", "ext:str", "ext:repr", "format", "ascii"}
FIXES = {}      # (class, attribute or method) -> is it the same for equal objects?


def fixes(ctx, cls, attr):
    key = (cls, attr)
    if key not in FIXES:
        FIXES[key] = True
        if own_method(cls, "__eq__") is not None and cls in value_classes(ctx):
            a, b = selfsym(cls), Sym(OTHER, inst(cls, True))
            f, true, false, raised = eq_true_outcomes(ctx, cls)
            for facts, o, st in true:
                x, y = attr_value(ctx, o, st, a, attr), attr_value(ctx, o, st, b, attr)
                if x is None or y is None or x == y:
                    continue
                ef = EqFacts(facts)
                y = next((z for z in (swap(x, Sym(SELF, None), Sym(OTHER, None)), y)), y)
                if not ef.same(x, rename_sym(x, SELF, OTHER)):
                    FIXES[key] = False
    return FIXES[key]


def same_text(ctx, cls, meth):
    """Do equal objects of the class have the same text?"""
    key = (cls, meth)
    if key not in FIXES:
        FIXES[key] = True
        f = own_method(cls, meth) or (own_method(cls, "__repr__") if meth == "__str__" else None)
        if f is None:
            raise Undecided("text of %s" % cls.name)
        fa, true, false, raised = eq_true_outcomes(ctx, cls)
        for o in outcomes(ctx, f, [], self_=selfsym(cls)):
            for facts, _, st in true:
                if o.kind == "ret" and not Determined(ctx, facts, o).same(o.value, rename_sym(o.value, SELF, OTHER)):
                    FIXES[key] = False
    return FIXES[key]


def rename_sym(v, a, b):
    return subst(v, lambda x: Sym(b, None) if isinstance(x, Sym) and x.name == a else None)


def same_hash(ef, v, w):
    return ef.same(v, w)


def memo(ctx):
    """Attributes remembered by the hash are removed from saved state or on restore."""
    prog = ctx.prog
    n = 0
    for m in prog.modules.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.FunctionDef) or node.name != "__hash__":
                continue
            stored = {t.attr for x in ast.walk(node) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign))
                      for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Attribute)}
            stored |= {x.args[1].value for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr"
                       and len(x.args) == 3 and isinstance(x.args[1], ast.Constant)}
            for attr in sorted(stored):
                n += 1
                dropped = [g for g in ast.walk(m.tree) if isinstance(g, ast.FunctionDef) and g.name in ("__getstate__", "__setstate__", "__reduce__") and drops(g, attr)]
                ctx.require(bool(dropped), "memo", (m.relpath, node.lineno), "remembered hash %r dropped by %s" % (attr, [g.name for g in dropped]),
                            "the remembered hash %r is kept in pickled state and is wrong under another hash seed" % attr)
                # the guard tests the attribute that is stored
                tests = {x.args[1].value for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr")
                         and len(x.args) >= 2 and isinstance(x.args[1], ast.Constant)}
                if tests:
                    ctx.require(tests <= stored, "memo", (m.relpath, node.lineno), "guard and store use the same attribute",
                                "the guard reads %s but the hash is stored under %s" % (sorted(tests), sorted(stored)))
    if not n:
        ctx.ok("memo", "package", "no hash is remembered")


def drops(g, attr):
    for x in ast.walk(g):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == attr:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "delattr" and len(x.args) == 2 and isinstance(x.args[1], ast.Constant) and x.args[1].value == attr:
            return True
        if isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Attribute) and t.attr == attr:
                    return True
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == attr:
                    return True
        if isinstance(x, ast.DictComp) and any(isinstance(y, ast.Constant) and y.value == attr for i in x.generators for z in i.ifs for y in ast.walk(z)):
            return True
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in x.targets) and isinstance(x.value, ast.Constant) and x.value.value is None:
            return True
    return False
