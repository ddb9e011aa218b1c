"""Interpretation of the parser callbacks on every alternative of every grammar rule."""
import re

from . import grammar as G
from .api import *

STARTS = {"domain": "Domain", "problem": "Problem", "plan": "Plan"}


class Case:
    """One variant of one alternative of a rule, with the interpreted callback."""

    def __init__(self, tr, rule, alt, symbols, args, func):
        self.tr, self.rule, self.alt, self.symbols, self.args, self.func = tr, rule, alt, symbols, args, func
        self.outs, self.error = None, None

    @property
    def name(self):
        return "%s(%s)" % (self.rule.name, " ".join("-" if s is None else repr(s) for s in self.symbols))

    def __repr__(self):
        return "%s.%s" % (self.tr.name, self.name)


class Table:
    def __init__(self, ctx):
        self.ctx = ctx
        self.g = G.find(ctx.root)
        self.parsers = self._parsers()
        self.cases = []
        self.produced = {}     # (transformer, rule) -> set of ClassInfo | 'str' | 'tree' | 'other'
        self.missing = []
        self.notes = []
        self.memo = {}
        self.fields = {}       # (transformer, rule) -> {field: type}
        self.shapes = {}       # (transformer, rule) -> fixed-key dict or tagged tuple the callback returns

    def _parsers(self):
        """[(start rule, transformer class, parser class)] as declared by the parser classes."""
        out = []
        prog = self.ctx.prog
        for c in sorted(set(prog.classes.values()), key=lambda c: c.qualname):
            st, tr = c.attrs.get("start_symbol"), c.attrs.get("transformer_cls")
            if st is None or tr is None:
                continue
            start = st.value if isinstance(st, ast.Constant) else None
            k = prog.resolve_expr_class(c.module, tr)
            if start is None or not isinstance(k, ClassInfo):
                raise AnalysisError("parser class %s: start symbol or transformer not understood" % c.name)
            out.append((start, k, c))
        if len(out) < 3:
            raise AnalysisError("only %d parser classes found" % len(out))
        return out

    # -- abstract values of grammar symbols --------------------------------------------
    def choices(self, sym, tr, n):
        """[(value, type, symbol)] a grammar symbol can contribute to the argument list."""
        g = self.g
        if isinstance(sym, G.T):
            lit = g.literal(sym)
            if lit is not None:
                return [(Const(lit), ("py", "str"), sym)]
            return [(Sym("%s%s" % (sym.name, n), ("py", "str")), ("py", "str"), sym)]
        rule = g.rules[sym.name]
        if rule.inline and own_method(tr, rule.name) is None:
            out = []
            for alt in rule.alts:
                for v in g.variants(alt):
                    kept = [s for s in v if not (isinstance(s, G.T) and not s.keep)]
                    if len(kept) == 1 and not isinstance(kept[0], G.Rep) and kept[0] is not None:
                        out += self.choices(kept[0], tr, n)
                    else:
                        out.append((Sym("r:%s%s" % (rule.name, n), None), None, sym))
                        break
            uniq = {}
            for c in out:
                uniq.setdefault(c[0], c)
            return list(uniq.values())
        shape = self.shapes.get((tr, rule.name))
        if shape is not None:
            return [(reshape(shape, "r:%s%s" % (rule.name, n)), None, sym)]
        return [(Sym("r:%s%s" % (rule.name, n), self.rule_type(tr, rule.name)), self.rule_type(tr, rule.name), sym)]

    def rule_type(self, tr, rule):
        p = self.produced.get((tr, rule))
        if not p:
            return None
        if all(isinstance(x, ClassInfo) for x in p):
            return common_type(p)
        if p == {"str"}:
            return ("py", "str")
        if p == {"num"}:
            return ("py", "float")
        return None

    def arguments(self, variant, tr):
        """Argument lists for one variant: [(symbols, parts)], expanding the choices of inlined rules."""
        outs = [([], [])]
        count = {}
        for x in variant:
            if x is None:
                new = [([None], [One(NONE)])]
            elif isinstance(x, G.Rep):
                new = self.rep(x, tr, count)
            elif isinstance(x, G.T) and not x.keep:
                continue
            else:
                k = x.name
                count[k] = count.get(k, 0) + 1
                n = "" if count[k] == 1 else str(count[k])
                cs = self.choices(x, tr, n)
                new = [([c[2]], [One(c[0])]) for c in cs]
            outs = [(a + s, b + p) for a, b in outs for s, p in new]
        return outs

    def rep(self, x, tr, count):
        """A repetition: a spread over an unknown sequence (with one definite element when lo is 1)."""
        bodies = [v for a in x.body for v in self.g.variants(a)]
        elems = []
        for b in bodies:
            elems.append([s for s in b if not (isinstance(s, G.T) and not s.keep)])
        key = "+".join("_".join(getattr(s, "name", "rep") for s in e) for e in elems)
        count[key] = count.get(key, 0) + 1
        nm = "*%s%s" % (key, "" if count[key] == 1 else count[key])
        if all(len(e) == 1 and not isinstance(e[0], G.Rep) for e in elems):
            cs = [c for e in elems for c in self.choices(e[0], tr, "")]
            types = {c[1] for c in cs}
            t = types.pop() if len(types) == 1 else self.union(types)
            src = Sym(nm, ("coll", "seq", t))
            if x.lo:
                st = Sym("first" + nm, t)
                return [([x], [One(st), Spread(src)])]
            return [([x], [Spread(src)])]
        return [([x], [Spread(Sym(nm, ("coll", "seq", None)))])]

    def union(self, types):
        cl = set()
        for t in types:
            if t is None or t[0] != "inst":
                return None
            cl.add(t[1])
        return common_type(cl) or ("union", tuple(("inst", k, True) for k in sorted(cl, key=lambda k: k.qualname)))

    # -- the table ------------------------------------------------------------------------
    def build(self):
        for rnd in range(12):
            self.cases, self.missing = [], []
            before = (dict(self.produced), dict(self.shapes), dict(self.fields))
            for start, tr, pc in self.parsers:
                self.current = tr
                for rn in reversed(self.g.reachable(start)):
                    self._rule(tr, self.g.rules[rn], last=False)
            if (self.produced, self.shapes, self.fields) == before:
                break
        return self

    def _rule(self, tr, rule, last):
        f = own_method(tr, rule.name)
        if f is None and rule.inline:
            kinds = set()
            tree = False
            for alt in rule.alts:
                for v in self.g.variants(alt):
                    kept = [s for s in v if not (isinstance(s, G.T) and not s.keep)]
                    if len(kept) != 1 or isinstance(kept[0], G.Rep):
                        tree = True
                    elif isinstance(kept[0], G.N):
                        kinds |= self.produced.get((tr, kept[0].name), set())
                    elif kept[0] is not None:
                        kinds.add("str")
            if tree:
                kinds.add("tree")
                self.missing.append((tr, rule))
            self.produced[(tr, rule.name)] = kinds
            return
        if f is None:
            self.missing.append((tr, rule))
            self.produced[(tr, rule.name)] = {"tree"}
            return
        kinds = set(self.produced.get((tr, rule.name), ()))
        shapes = set()
        for i, alt in enumerate(rule.alts):
            for v in self.g.variants(alt):
                for symbols, parts in self.arguments(v, tr):
                    case = Case(tr, rule, i, symbols, parts, f)
                    self.cases.append(case)
                    self.interpret(case)
                    for o in case.outs or ():
                        if o.kind == "ret" and not impossible_name(o.facts):
                            kinds |= self.kinds_of(tr, o)
                            shapes.add(shape_of(o.value))
        self.produced[(tr, rule.name)] = kinds
        self.fields[(tr, rule.name)] = self.field_types([o for c in self.of(rule.name, tr) for o in c.outs or () if o.kind == "ret" and not impossible_name(o.facts)])
        if len(shapes) == 1 and None not in shapes:
            self.shapes[(tr, rule.name)] = shapes.pop()
        else:
            self.shapes.pop((tr, rule.name), None)

    def kinds_of(self, tr, o):
        v = o.value
        if isinstance(v, New):
            return {v.cls}
        if isinstance(v, Sym) and v.name.startswith("r:"):
            rn = v.name[2:].rstrip("0123456789")
            return set(self.produced.get((tr, rn), ()))
        t = o.it.type_of(o.raw, o.st)
        if t and t[0] == "inst":
            return {t[1]}
        if t and t[0] == "py" and t[1] in ("int", "float") or isinstance(v, App) and v.op in ("builtins.int", "builtins.float", "ext:float", "ext:int", "int", "float"):
            return {"num"}
        if t == ("py", "str") or isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Fmt):
            return {"str"}
        return {"other"}

    def selfval(self, tr):
        return Sym("self", ("inst", tr, True))

    def state(self, case):
        """A state in which Tree values have their children."""
        st = State()
        for p in case.args:
            v = getattr(p, "v", None)
            if isinstance(v, Sym) and v.name.startswith("r:"):
                rn = v.name[2:].rstrip("0123456789")
                r = self.g.rules.get(rn)
                if r is not None and own_method(case.tr, rn) is None:
                    yield_children = self.children(case.tr, r)
                    st.over[(v, "children")] = yield_children[0] if len(yield_children) == 1 else None
                    case.tree = (v, yield_children)
        return st

    def children(self, tr, rule):
        out = []
        for alt in rule.alts:
            for v in self.g.variants(alt):
                for symbols, parts in self.arguments(v, tr):
                    out.append(Seq("list", tuple(parts)))
        return out

    def interpret(self, case):
        key = (case.tr, case.rule.name, tuple(repr(p) for p in case.args), tuple(repr(self.argtype(p)) for p in case.args), repr(sorted(map(repr, self.attr_hints(case).items()))))
        if key in self.memo:
            case.outs, case.error, t = self.memo[key]
            if t:
                case.tree = t
            return case
        try:
            case.outs = []
            base = self.state(case)
            forks = [base]
            if getattr(case, "tree", None):
                v, chs = case.tree
                forks = []
                for ch in chs:
                    s = base.clone()
                    s.over[(v, "children")] = ch
                    forks.append(s)
            for s in forks:
                lst = Seq("list", tuple(case.args))
                case.outs += outcomes(self.ctx, case.func, [lst], self_=self.selfval(case.tr), st=s, no_inline=self.opaque, attr_types=self.attr_hints(case))
        except (Undecided, AnalysisError) as e:
            case.error = str(e)
            case.outs = None
        self.memo[key] = (case.outs, case.error, getattr(case, "tree", None))
        return case

    def attr_hints(self, case):
        """Element classes of the collections inside the objects other callbacks return."""
        out = {}
        for p in case.args:
            v = getattr(p, "v", None)
            if isinstance(v, Sym) and v.name.startswith("r:"):
                for f, t in self.fields.get((case.tr, v.name[2:].rstrip("0123456789")), {}).items():
                    out[(v, f)] = t
        return out

    def field_types(self, outs):
        """{field: collection type} common to the objects in these outcomes."""
        res = None
        for o in outs:
            v = o.value
            if not isinstance(v, New):
                return {}
            cur = {}
            for f, x in v.fields:
                if isinstance(x, Seq):
                    cs = set()
                    for p in x.parts:
                        xs = [p.v] if isinstance(p, One) else [q.v for g, ps in p.alts for q in ps if isinstance(q, One)] if isinstance(p, Each) else [None]
                        cs |= {q.cls if isinstance(q, New) else None for q in xs}
                    cur[f] = frozenset(cs)
            res = cur if res is None else {f: res[f] | cur[f] for f in res if f in cur}
        out = {}
        for f, cs in (res or {}).items():
            if cs and None not in cs:
                t = common_type(cs)
                if t:
                    out[f] = ("coll", "seq", t)
        return out

    def argtype(self, p):
        v = p.v if isinstance(p, One) else getattr(p, "src", None)
        if isinstance(v, Sym):
            if v.name.startswith("r:") and own_method(self.current, v.name[2:].rstrip("0123456789")) is None:
                return [(c, [getattr(x.v if isinstance(x, One) else x, "typ", None) for x in c.parts]) for c in self.children(self.current, self.g.rules[v.name[2:].rstrip("0123456789")])] \
                    if v.name[2:].rstrip("0123456789") in self.g.rules else v.typ
            return v.typ
        return None

    def opaque(self, f):
        """Constructing a whole domain or problem runs its validation, which is checked elsewhere."""
        return f.qualname in OPAQUE

    def of(self, rule, tr=None):
        return [c for c in self.cases if c.rule.name == rule and (tr is None or c.tr is tr)]


NAME = re.compile(r"[A-Za-z][A-Za-z0-9_-]*")


def impossible_name(facts):
    """Do the facts say that a name token, or the name of an object, is a text that is no name?"""
    for c, b in facts:
        if not (b and isinstance(c, App) and c.op == "eq"):
            continue
        for x, y in (c.args, c.args[::-1]):
            if isinstance(y, Const) and isinstance(y.v, str) and not NAME.fullmatch(y.v):
                while isinstance(x, App) and x.op in ("name", "str") and x.args:
                    x = x.args[0]
                if isinstance(x, Sym) and x.name.startswith("NAME") or isinstance(x, Attr) and x.name == "name":
                    return True
    return False


OPAQUE = {"pddl.core.Domain.__init__", "pddl.core.Problem.__init__"}


def shape_of(v):
    """The fixed keys of a returned dict, or the constant tag of a returned pair."""
    if isinstance(v, Seq) and v.kind == "dict" and v.parts and all(isinstance(p, One) and isinstance(p.v, Pair) and isinstance(p.v.k, Const) for p in v.parts):
        return ("dict", tuple(p.v.k for p in v.parts))
    if isinstance(v, Seq) and v.kind == "tuple" and len(v.parts) == 2 and isinstance(v.parts[0], One) and isinstance(v.parts[0].v, Const):
        return ("tag", v.parts[0].v)
    return None


def reshape(shape, nm):
    if shape[0] == "dict":
        return Seq("dict", tuple(One(Pair(k, Sym("%s.%s" % (nm, k.v), None))) for k in shape[1]))
    return Seq("tuple", (One(shape[1]), One(Sym("%s.%s" % (nm, shape[1].v), None))))


def common_type(classes):
    classes = list(classes)
    if len(classes) == 1:
        return ("inst", classes[0], True)
    mros = [[k for k in c.mro() if isinstance(k, ClassInfo)] for c in classes]
    for k in mros[0]:
        if all(k in m for m in mros[1:]):
            return ("inst", k, False)
    return None
