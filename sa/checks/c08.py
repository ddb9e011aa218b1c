"""C08: nothing that is asked about a value changes it, nor anything it is given.

Every public method of a value class and every function offered to the user is an entry of a points-to analysis in which its parameters, and
all that can be reached from them, are watched: no store may hit them (a constructor may fill the new object, a setter its own).  What is
stored in an attribute that only the storing function reads is a cache of that function.
"""
import ast

from ..effects import Effects
from ..eqcommon import value_classes
from ..program import ClassInfo

MINIMUM = 150


def references(prog):
    """Names of functions used by another function of the package (the command line apart)."""
    out = set()
    for m in prog.modules.values():
        if m.name.endswith("__main__"):
            continue
        for d in ast.walk(m.tree):
            if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(d):
                    if isinstance(n, ast.Name) and n.id != d.name:
                        out.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        out.add(n.attr)
            elif isinstance(d, (ast.ClassDef,)):
                for x in d.decorator_list:
                    out |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
    return out


def loads(prog):
    """{attribute: functions that read it}"""
    out = {}

    def visit(node, fn):
        for n in ast.iter_child_nodes(node):
            g = n if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.setdefault(n.attr, set()).add(g)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.setdefault(n.args[1].value, set()).add(g)
            visit(n, g)
    for m in prog.modules.values():
        visit(m.tree, None)
    return out


def entries(ctx):
    """[(function, may it change its own object)]"""
    out = []
    used = references(ctx.prog)
    seen = set()
    for c in value_classes(ctx):
        for b in c.mro():
            if not isinstance(b, ClassInfo):
                continue
            for n, f in list(b.methods.items()) + list(b.setters.items()):
                private = n.startswith("_") and not n.startswith("__")
                if private or id(f.node) in seen or n in ("__setstate__", "__new__"):
                    continue
                seen.add(id(f.node))
                out.append((f, n == "__init__", f.kind == "setter"))
    for q, f in sorted(ctx.prog.functions.items()):
        if f.cls is not None or f.module.name.endswith("__main__") or f.name.startswith("_") and f.generic_of is None:
            continue
        if f.generic_of is not None or f.name in used:
            continue
        out.append((f, False, False))
    return out


def judge(ctx, f, fresh, own, read):
    e = Effects(ctx.prog)
    found = e.run(f, fresh_self=fresh)
    ctx.analysed.update(e.visited)
    bad = 0
    said = set()
    for o, what, file, line, fn in found:
        if own and o.kind == "param" and o.label == "self":
            continue
        if o.kind == "param" and fn.cls is not None and what not in ("[]",) and read.get(what, set()) <= {fn.node}:
            continue        # a cache of that function
        if o.kind == "global" and f.module.name.startswith("pddl.parser"):
            pass
        thing = {"param": "its argument %s" % o.label if o.label != "self" else "its own object", "reach": "something that belongs to its argument %s" % o.label if o.label != "self" else "a part of its object",
                 "global": "the module-level object %s" % o.label}[o.kind]
        key = "changed:%s:%s:%s" % (f.qualname, o.label, what)
        if key in said:
            continue
        said.add(key)
        bad += 1
        ctx.violation("changed", (file, "%d %s" % (line, fn.qualname)), "%s changes %s here (%s)" % (f.qualname, thing, what), key)
    if not bad:
        ctx.ok("changed", f, "%s changes nothing it is given" % f.qualname)


def run(ctx):
    read = loads(ctx.prog)
    for f, fresh, own in entries(ctx):
        ctx.guard("changed", f, judge, ctx, f, fresh, own, read)
