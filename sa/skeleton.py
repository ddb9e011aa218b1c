"""What a skeleton text means, read by an independent reader of parenthesised words, and what the objects built by the interpreted parser hold.

Both are nested tuples: (kind, part, ...) with ("set", [...]) for collections without order.  The scoping of variables is decided here: an occurrence has the
types of the innermost quantifier that lists it, failing that those of the parameters of the action (or of the head of the derived predicate), failing that none.
"""
import re

from .api import *
from .texts import bare, is_word, PLACE

ANY = ("any",)
COMPARE = {">": "GreaterThan", ">=": "GreaterEqualThan", "<": "LesserThan", "<=": "LesserEqualThan", "=": "EqualTo"}
ARITH = {"+": "Plus", "-": "Minus", "*": "Times", "/": "Divide"}
ASSIGN = {"assign": "Assign", "increase": "Increase", "decrease": "Decrease", "scale-up": "ScaleUp", "scale-down": "ScaleDown"}


class Refused(Exception):
    """The text does not mean anything."""


def sexp(text):
    toks = re.findall(r"\(|\)|\?[^\s()]+|[^\s()]+", text)

    def one(i):
        if toks[i] == "(":
            out, i = [], i + 1
            while toks[i] != ")":
                x, i = one(i)
                out.append(x)
            return out, i + 1
        return toks[i], i + 1
    return one(0)[0]


def typed(ws):
    """[(word, types)]; object says nothing."""
    out, cur, i = [], [], 0
    while i < len(ws):
        if ws[i] == "-":
            t = ws[i + 1]
            ts = t[1:] if isinstance(t, list) else [t]
            out += [(w, tuple(ts)) for w in cur]
            cur, i = [], i + 2
        else:
            cur.append(ws[i])
            i += 1
    return out + [(w, ()) for w in cur]


def tags(ts):
    return ("set", sorted(set(ts)))


def variables(ws):
    seen, out = set(), []
    for w, t in typed(ws):
        if w not in seen:
            seen.add(w)
            out.append((w[1:], t))
    return out


def var(n, env):
    return ("Variable", n, tags(env.get(n, ())))


class Meaning:
    """Reads the formulas of a domain (constants are declared) or of a problem (they are not)."""

    def __init__(self, constants=None):
        self.constants = constants

    def term(self, w, env):
        if w.startswith("?"):
            return var(w[1:], env)
        if self.constants is None:
            return ("Constant", w, ANY)
        if w not in self.constants:
            raise Refused("the constant %s is not declared" % w)
        return ("Constant", w, tags(self.constants[w]))

    def terms(self, ws, env):
        return tuple(self.term(w, env) for w in ws)

    def expression(self, x, env):
        if isinstance(x, str):
            if PLACE.fullmatch(x):
                return ("NumericFunction", x, ())
            return ("NumericValue", x)
        if x[0] in ARITH:
            return (ARITH[x[0]], tuple(self.expression(y, env) for y in x[1:]))
        return ("NumericFunction", x[0], self.terms(x[1:], env))

    def atom(self, x, env):
        if x[0] == "=":
            return ("predicates.EqualTo", self.term(x[1], env), self.term(x[2], env))
        return ("Predicate", x[0], self.terms(x[1:], env))

    def formula(self, x, env):
        if not x:
            return ("And", ())
        h = x[0]
        if h in ("and", "or", "imply"):
            return ({"and": "And", "or": "Or", "imply": "Imply"}[h], tuple(self.formula(y, env) for y in x[1:]))
        if h == "not":
            return ("Not", self.formula(x[1], env))
        if h in ("forall", "exists"):
            vs = variables(x[1])
            return ("ForallCondition" if h == "forall" else "ExistsCondition", ("set", [("Variable", n, tags(t)) for n, t in vs]), self.formula(x[2], {**env, **dict(vs)}))
        if h in COMPARE and not (h == "=" and all(isinstance(y, str) and (y[0] == "?" or PLACE.fullmatch(y)) for y in x[1:])):
            return ("functions.EqualTo" if h == "=" else COMPARE[h], tuple(self.expression(y, env) for y in x[1:]))
        return self.atom(x, env)

    def effect(self, x, env):
        if not x:
            return ("And", ())
        h = x[0]
        if h == "and":
            return ("And", tuple(self.effect(y, env) for y in x[1:]))
        if h == "oneof":
            return ("OneOf", tuple(self.effect(y, env) for y in x[1:]))
        if h == "not":
            return ("Not", self.atom(x[1], env))
        if h == "forall":
            vs = variables(x[1])
            return ("Forall", ("set", [("Variable", n, tags(t)) for n, t in vs]), self.effect(x[2], {**env, **dict(vs)}))
        if h == "when":
            return ("When", self.formula(x[1], env), self.effect(x[2], env))
        if h in ASSIGN:
            return (ASSIGN[h], (self.expression(x[1], env), self.expression(x[2], env)))
        return self.atom(x, env)

    def action(self, x):
        parts = {x[i]: x[i + 1] for i in range(2, len(x), 2)}
        env = dict(variables(parts.get(":parameters", [])))
        return ("Action", x[1], tuple(var(n, env) for n in env), self.formula(parts[":precondition"], env) if ":precondition" in parts else None,
                self.effect(parts[":effect"], env) if ":effect" in parts else None)

    def derived(self, x, predicates):
        head = typed(x[1][1:])
        if x[1][0] not in predicates:
            raise Refused("the derived predicate is not declared")
        decl = predicates[x[1][0]]
        if len(decl) != len(head):
            raise Refused("the derived predicate has other arguments than declared")
        env = {n[1:]: t or d for (n, t), d in zip(head, decl)}
        return ("DerivedPredicate", ("Predicate", x[1][0], tuple(var(n[1:], env) for n, _ in head)), self.formula(x[2], env))


def domain(text):
    x = sexp(text)
    out = {"types": {}, "constants": [], "predicates": [], "functions": [], "actions": [], "derived_predicates": [], "requirements": []}
    m = Meaning({})
    preds = {}
    for sec in x[1:]:
        h = sec[0]
        if h == "domain":
            out["name"] = sec[1]
        elif h == ":requirements":
            out["requirements"] = [r[1:] for r in sec[1:]]
        elif h == ":types":
            out["types"] = {n: t[0] if t and t[0] != "object" else None for n, t in typed(sec[1:])}
        elif h == ":constants":
            m.constants = {n: t for n, t in typed(sec[1:])}
            out["constants"] = [("Constant", n, tags(t)) for n, t in m.constants.items()]
        elif h == ":predicates":
            for p in sec[1:]:
                vs = typed(p[1:])
                preds[p[0]] = [t for _, t in vs]
                out["predicates"].append(("Predicate", p[0], tuple(("Variable", n[1:], tags(t)) for n, t in vs)))
        elif h == ":functions":
            items, i = [], 1
            while i < len(sec):
                if sec[i] == "-":
                    items = [(f, t or "number") for f, t in items]
                    i += 2
                    continue
                items.append((("NumericFunction", sec[i][0], tuple(("Variable", n[1:], tags(t)) for n, t in typed(sec[i][1:]))), None))
                i += 1
            out["functions"] = items
        elif h == ":action":
            out["actions"].append(m.action(sec))
        elif h == ":derived":
            out["derived_predicates"].append(m.derived(sec, preds))
    return ("Domain", out["name"], ("set", sorted(out["requirements"])), ("set", sorted(out["types"].items())), ("set", out["constants"]), ("set", out["predicates"]),
            ("set", out["functions"]), ("set", out["derived_predicates"]), ("set", out["actions"]))


def problem(text):
    x = sexp(text)
    m = Meaning(None)
    out = {"requirements": None, "objects": [], "metric": None}
    objects = {}

    def fact(y):
        if y[0] == "not":
            return ("Not", fact(y[1]))
        return ("Predicate", y[0], tuple(("Constant", w, tags(objects.get(w, ()))) for w in y[1:]))
    for sec in x[1:]:
        h = sec[0]
        if h == "problem":
            out["name"] = sec[1]
        elif h == ":domain":
            out["domain"] = sec[1]
        elif h == ":requirements":
            out["requirements"] = [r[1:] for r in sec[1:]]
        elif h == ":objects":
            objects = {n: t for n, t in typed(sec[1:])}
            out["objects"] = [("Constant", n, tags(t)) for n, t in objects.items()]
        elif h == ":init":
            out["init"] = [("functions.EqualTo", (m.expression(y[1], {}), ("NumericValue", y[2]))) if y[0] == "=" else fact(y) for y in sec[1:]]
        elif h == ":goal":
            out["goal"] = m.formula(sec[1], {})
        elif h == ":metric":
            out["metric"] = ("Metric", m.expression(sec[2], {}), sec[1])
    return ("Problem", out["name"], out["domain"], ANY if out["requirements"] is None else ("set", sorted(out["requirements"])), ("set", out["objects"]), ("set", out["init"]), out["goal"], out["metric"])


FIELDS = {"Variable": ("name", "type_tags"), "Constant": ("name", "type_tags"), "Predicate": ("name", "terms"), "predicates.EqualTo": ("left", "right"),
          "NumericFunction": ("name", "terms"), "NumericValue": ("value",), "Not": ("argument",), "ForallCondition": ("variables", "condition"),
          "ExistsCondition": ("variables", "condition"), "Forall": ("variables", "effect"), "When": ("condition", "effect"), "Metric": ("expression", "optimization"),
          "Action": ("name", "parameters", "precondition", "effect"), "DerivedPredicate": ("predicate", "condition"),
          "Domain": ("name", "requirements", "types", "constants", "predicates", "functions", "derived_predicates", "actions"),
          "Problem": ("name", "domain_name", "requirements", "objects", "init", "goal", "metric")}
for c in ["And", "Or", "Imply", "OneOf", "functions.EqualTo"] + [v for d in (COMPARE, ARITH, ASSIGN) for v in d.values() if v != "EqualTo"]:
    FIELDS[c] = ("operands",)
SETS = {"type_tags", "variables", "requirements", "constants", "predicates", "derived_predicates", "actions", "objects", "init"}
MAPS = {"types", "functions"}


class Held:
    """What the attributes of the objects built by an interpreter hold."""

    def __init__(self, it):
        self.it = it

    def kind(self, c):
        k = c.qualname.split(".")[-2] + "." + c.name
        return k if k in FIELDS else c.name if c.name in FIELDS else None

    def text(self, v):
        v = bare(v)
        if is_word(v):
            return v.name[5:]
        if isinstance(v, Const):
            return None if v.v is None else str(v.v)
        if isinstance(v, Enum_):
            r = self.it.getattr(v, "value", State(), None)
            return self.text(r[0][1]) if len(r) == 1 and isinstance(r[0][1], Const) else v.member
        if isinstance(v, App) and v.op in ("int", "float", "num") and len(v.args) == 1:
            return self.text(v.args[0])
        raise Undecided("a name is not known: %s" % short(v, 60))

    def get(self, v, name, st):
        self.it.nstates = 0
        r = self.it.getattr(v, name, st, None)
        if len(r) != 1:
            raise Undecided("the attribute %s has %d values" % (name, len(r)))
        return r[0]

    def items(self, v, st):
        v = self.it.fz(v, st)
        ps = self.it.parts_of(v, st)
        if ps is None or not all(isinstance(p, One) for p in ps):
            raise Undecided("the elements of %s are not known" % short(v, 60))
        return [p.v for p in ps]

    def value(self, v, st):
        v = self.it.fz(v, st)
        if isinstance(v, New) and v.cls.name == "Plan":
            s, x = self.get(v, "actions", st)
            out = []
            for p in self.items(x, s):
                q = self.it.parts_of(p, s)
                if q is None or len(q) != 2 or not all(isinstance(y, One) for y in q):
                    raise Undecided("a step of a plan: %s" % short(p, 80))
                out.append((self.value(q[0].v, s), tuple(self.value(c, s) for c in self.items(q[1].v, s))))
            return ("plan", tuple(out))
        if isinstance(v, New):
            k = self.kind(v.cls)
            if k is None:
                raise Undecided("an object of class %s" % v.cls.name)
            out = [k]
            for a in FIELDS[k]:
                s, x = self.get(v, a, st)
                out.append(self.held(a, x, s))
            return tuple(out)
        return self.text(v)

    def held(self, a, x, s):
        if isinstance(x, Exc):
            return ("raises", getattr(x.exc, "cls", "?"))
        if a in MAPS:
            return ("set", [(self.value(p.k, s), self.value(p.v, s)) for p in self.items(x, s)])
        if a in SETS:
            x = self.it.fz(x, s)
            return None if x == NONE else ("set", [self.value(p, s) for p in self.items(x, s)])
        if a in ("terms", "operands", "parameters"):
            return tuple(self.value(p, s) for p in self.items(x, s))
        return self.value(x, s)


def differs(e, g):
    """None, or (expected part, part found) of the first difference."""
    if e is ANY or e == ANY:
        return None
    if isinstance(e, tuple) and isinstance(g, tuple):
        if e[:1] == ("set",) and g[:1] == ("set",):
            left, gone = list(g[1]), []
            for x in e[1]:
                for y in left:
                    if differs(x, y) is None:
                        left.remove(y)
                        break
                else:
                    gone.append(x)
            if not gone and not left:
                return None
            if len(gone) == 1 and len(left) == 1:
                return differs(gone[0], left[0]) or (gone[0], left[0])
            return (("set", gone), ("set", left))
        if len(e) != len(g):
            return (e, g)
        for x, y in zip(e, g):
            d = differs(x, y)
            if d is not None:
                # the smallest object that differs
                return (e, g) if not isinstance(d[0], tuple) or not isinstance(d[1], tuple) else d
        return None
    if isinstance(e, str) and isinstance(g, str) and re.fullmatch(r"[\d.]+", e) and re.fullmatch(r"[\d.]+", g):
        return None if float(e) == float(g) else (e, g)
    return None if e == g else (e, g)


def show(x):
    if isinstance(x, tuple) and x[:1] == ("set",):
        return "{%s}" % ", ".join(show(y) for y in x[1])
    if isinstance(x, tuple) and x and x[0] in ("Variable", "Constant"):
        ts = "any" if x[2] == ANY else ", ".join(show(t) for t in x[2][1])
        return "%s%s%s" % ("?" if x[0] == "Variable" else "", x[1], " - " + ts if ts else "")
    if isinstance(x, (tuple, list)):
        return "(%s)" % " ".join(show(y) for y in x)
    return str(x)
