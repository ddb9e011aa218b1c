"""Type hierarchies are accepted exactly when they are sound.

The constructor of the domain is interpreted with symbolic types and requirements.  The facts of each path are evaluated in every hierarchy
over three names (one of them the universal type), under the requirements that matter: acceptance needs typing (declared or implied) when a type has
a supertype, no supertype of the universal type, and no cycle.  The search for a cycle is taken as given there (it must be handed
the hierarchy itself) and is checked on its own, step by step, to look at every edge that can be reached.
"""
import itertools

from .c11 import *
from ..model import *

MINIMUM = 40


def build(ctx, given, opaque=frozenset()):
    """Outcomes of the constructor of a domain where only the given arguments are not None."""
    dom = ctx.prog.classes["pddl.core.Domain"]
    f = own_method(dom, "__init__")
    pr = Prover(ctx, None, None, "")
    opaque = frozenset(pr.generics) | frozenset(g.qualname for g in ctx.prog.functions.values() if loops_while(g)) | opaque
    it = Interp(ctx.prog, opaque=opaque, max_states=6000)
    it.attr_types = {}
    it.nstates = 0
    ps, _ = init_params(dom)
    syms = {n: Sym(n, annotated(it, f, n)) for n in ps}
    outs = [Outcome(it, s, "exc" if isinstance(r, Exc) else "ret", r)
            for s, r in it.instantiate(dom, [One(syms[n] if n in given or n == "name" else NONE) for n in ps], {}, State(), None)]
    for q in it.visited:
        ctx.analysed.add(q)
    return f, syms, outs


def run(ctx):
    f = own_method(ctx.prog.classes["pddl.core.Domain"], "__init__")
    for g in ctx.guard("hierarchy", f, hierarchy, ctx) or ():
        ctx.guard("search", g, search, ctx, g)


def closing(edges):
    """Some name reaches itself."""
    for a in edges:
        seen, todo = set(), list(edges.get(a) or ())
        while todo:
            x = todo.pop()
            if x == a:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(edges.get(x) or ())
    return False


def graph(g):
    """The result of the search for a cycle in a graph given as a dictionary of collections."""
    return ("cycle",) if closing(g) else None


def hierarchy(ctx):
    f, syms, outs = build(ctx, ("types", "requirements"))
    found = sorted({x.args[0].f for o in outs for c, b in o.facts for x in walk(c)
                    if isinstance(x, App) and x.op == "call" and isinstance(x.args[0], Fn) and len(x.args) == 2 and isinstance(x.args[1], Seq) and x.args[1].kind == "dict"},
                   key=lambda f: f.qualname)
    req = ctx.prog.classes["pddl.requirements.Requirements"]
    R = lambda *ns: tuple(Enum_(req, n) for n in ns)
    names = ["object", "a", "b"]
    sets = [R(), R("TYPING"), R("ADL"), R("STRIPS", "ADL"), R("EQUALITY", "TYPING"), R("STRIPS", "EQUALITY", "FLUENTS", "QUANTIFIED_PRECONDITION")]
    cases = []
    for supers in itertools.product([0, None] + names, repeat=3):
        types = Map({n: s for n, s in zip(names, supers) if s != 0})
        for rs in sets:
            why = ""
            used = any(s is not None for s in types.values())
            if used and not any(r.member in ("TYPING", "ADL") for r in rs):
                why = "typing is neither declared nor implied"
            elif types.get("object") is not None:
                why = "the universal type has a supertype"
            elif closing({k: [s] if s else [] for k, s in types.items()}):
                why = "it has a cycle"
            m = Model({syms["name"]: "d", syms["types"]: types, syms["requirements"]: rs}, {q.qualname: graph for q in found})
            cases.append(Case("the hierarchy {%s} with requirements {%s}" % (", ".join("%s - %s" % (k, s) if s else k for k, s in types.items()), ", ".join(r.member for r in rs)), m, why))
    table(ctx, "hierarchy", f, outs, cases, "domain")
    if not found:
        raise Undecided("no search for cycles is called")
    return found


# -- the search for a cycle -------------------------------------------------------------
CUR, PATH, REST = Sym("$current", ("py", "str")), Sym("$path", ("coll", "seq", ("py", "str"))), Sym("$rest", ("coll", "seq", None))


class Search(Interp):
    """Interprets one iteration of the worklist loop of a function, from an arbitrary worklist of pairs (node, path to it)."""

    def __init__(self, prog, f):
        super().__init__(prog, max_states=3000)
        self.attr_types = {}
        self.fn0 = f
        self.steps, self.entries = [], []
        self.shape = None

    def s_While(self, n, st):
        if not any(n is x for x in ast.walk(self.fn0.node)):
            return super().s_While(n, st)
        t = n.test
        while isinstance(t, (ast.Compare, ast.Call)):
            t = t.left if isinstance(t, ast.Compare) else t.args[0] if t.args else None
        ref = st.locals.get(t.id) if isinstance(t, ast.Name) else None
        if not (isinstance(ref, Ref) and isinstance(st.heap.get(ref.id), HSeq)) or n.orelse:
            raise Undecided("loop over something else than a worklist")
        self.entries.append((st, st.heap[ref.id].parts))
        first = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr == "popleft" or x.func.attr == "pop" and x.args) for x in ast.walk(n))
        pair = [p for p in st.heap[ref.id].parts]
        path_at = None
        if len(pair) >= 1:
            x = pair[-1]
            v = x.v if isinstance(x, One) else x.alts[-1][1][-1].v if isinstance(x, Each) and x.alts[-1][1] and isinstance(x.alts[-1][1][-1], One) else None
            if isinstance(v, Ref):
                v = self.fz(v, st)
            if isinstance(v, Seq) and len(v.parts) == 2 and all(isinstance(p, One) for p in v.parts):
                empties = [i for i, p in enumerate(v.parts) if isinstance(self.fz(p.v, st), Seq) and not self.fz(p.v, st).parts]
                if len(empties) == 1:
                    path_at = empties[0]
        if path_at is None:
            raise Undecided("shape of the worklist")
        self.shape = path_at
        item = One(Seq("tuple", (One(PATH), One(CUR)) if path_at == 0 else (One(CUR), One(PATH))))
        names = {x.id for x in ast.walk(ast.Module(body=n.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in st.locals}
        pre = self.havoc(st, names, set(), set(), n)
        for k, v in list(pre.locals.items()):
            if isinstance(v, Ref) and isinstance(pre.heap.get(v.id), HSeq):
                pre.heap[v.id] = pre.heap[v.id].with_parts((Spread(Sym("$" + k, ("coll", "set" if pre.heap[v.id].kind == "set" else "seq", ("py", "str")))),))
        pre.heap[ref.id] = HSeq("list", (item, Spread(REST)) if first else (Spread(REST), item))
        self.other = {k: Sym("$" + k, None) for k, v in pre.locals.items() if isinstance(v, Ref)}
        out = []
        n0 = len(pre.log)
        for s, c in self.block(n.body, pre):
            self.steps.append((s, c, tuple(s.log[n0:]), s.heap[ref.id].parts, ref))
            if c is not None and c not in ("cont", "brk"):
                out.append((s, c))
        end = pre.clone()
        end.heap[ref.id] = HSeq("list", ())
        return [(end, None)] + out


def search(ctx, f):
    """None is returned only after every node was a root or reached, and every edge of each reached node was followed."""
    g = Sym("graph", ("map", ("py", "str"), ("opt", ("coll", "set", ("py", "str")))))
    it = Search(ctx.prog, f)
    outs = it.run(f, [g] if f.cls is None else [None, g], None, None, State())
    ctx.analysed.add(f.qualname)
    if not it.steps and outs and all(k == "ret" and it.fz(v, s) == NONE for s, k, v in outs):
        ctx.violation("search", f, "%s never reports a cycle" % f.name, "search:never")
        return
    if not it.steps:
        raise Undecided("no worklist in %s" % f.name)
    member = App("in", (CUR, PATH))
    nodes = {"get": App(".get", (g, CUR)), "item": App("item", (g, CUR))}
    closed = 0
    for s, c, facts, parts, ref in it.steps:
        here = ("[%s]" % short(fmt_guard(facts), 160))
        found = (member, True) in facts
        if isinstance(c, Exc):
            ctx.violation("search", f, "%s fails %s" % (f.name, here), "search:fails")
        elif c is not None and c not in ("cont", "brk"):
            v = it.fz(c[1], s) if isinstance(c, tuple) else c
            v = it.fz(v.v, s) if isinstance(v, One) else v
            none = it.decide(App("isnone", (strip(v),)), s) if isinstance(v, V) and not isinstance(v, Seq) else False
            none = v == NONE or none is True
            if found and none:
                ctx.violation("search", f, "%s reports no cycle although a node is reached again on its own path" % f.name, "search:lost")
            elif not found:
                ctx.violation("search", f, "%s ends %s although the node has not been reached from itself %s" % (f.name, "without a cycle" if none else "with a cycle", here), "search:early")
            else:
                closed += 1
                ctx.ok("search", f, "a cycle is reported when a node is on its own path")
        elif c == "brk" or found:
            ctx.violation("search", f, "%s goes on although the node is on its own path %s" % (f.name, here), "search:missed")
        else:
            missing = follow(it, s, facts, parts, g)
            ctx.require(not missing, "search", f, "every edge of the node is followed", "%s: %s %s" % (f.name, missing, here), "search:edges")
    ctx.require(closed, "search", f, "cycles are reported", "%s never reports a cycle" % f.name, "search:never")
    # roots: every node of the graph is put on an empty worklist unless it was seen
    for st, parts in it.entries:
        known = [c for c, b in st.log if b is False and isinstance(c, App) and c.op == "in" and c.args[0] == Elem(g, 0)]
        extra = [(c, b) for c, b in st.log if not (isinstance(c, App) and c.op == "in" and b is False and c.args[0] == Elem(g, 0))]
        if extra and any(Elem(g, 0) in list(walk(c)) for c, b in extra):
            ctx.violation("search", f, "the search starts only at nodes with %s" % short(fmt_guard(tuple(extra)), 200), "search:roots")
        else:
            ok = any(isinstance(p, One) and nodeof(it, st, p.v, it.shape) == Elem(g, 0) or isinstance(p, Each) and strip(p.src) == g and len(p.alts) == 1 and not p.alts[0][0] for p in parts)
            ctx.require(ok, "search", f, "every unseen node is a start", "%s need not start at every node" % f.name, "search:roots")
    for s, k, v in outs:
        if k == "exc":
            ctx.violation("search", f, "%s fails with %s" % (f.name, short(v, 80)), "search:fails")


def nodeof(it, st, v, shape):
    v = it.fz(v, st)
    if isinstance(v, Seq) and len(v.parts) == 2:
        p = v.parts[1 - shape]
        return strip(p.v) if isinstance(p, One) else None
    return None


def follow(it, s, facts, parts, g):
    """What is wrong with the worklist after an iteration that goes on (None: nothing)."""
    edges = [App(".get", (g, CUR)), App("item", (g, CUR))]
    if not any(isinstance(p, Spread) and strip(p.src) == REST for p in parts):
        return "the rest of the worklist is dropped"
    for e in edges:
        if it.decide(App("isnone", (e,)), s) is True or it.decide(App("card", (e, frozenset({1, 2}))), s) is False or it.decide(App("truthy", (e,)), s) is False:
            return None
    if it.decide(App("in", (CUR, g)), s) is False:
        return None
    for c, b in facts:
        if b and isinstance(c, App) and c.op == "in" and c.args[0] == CUR and strip(c.args[1]) != PATH and strip(c.args[1]) != g:
            return None     # seen before: its edges were followed then
    for p in parts:
        if isinstance(p, Each) and (strip(p.src) in edges or isinstance(strip(p.src), App) and strip(p.src).op == "or" or isinstance(strip(p.src), App) and strip(p.src).args[:2] == (g, CUR)):
            for guard, ps in p.alts:
                if guard:
                    return "an edge is followed only if %s" % short(fmt_guard(guard), 120)
                for q in ps:
                    v = it.fz(q.v, s) if isinstance(q, One) else None
                    if not (isinstance(v, Seq) and len(v.parts) == 2):
                        continue
                    if not isinstance(strip(v.parts[1 - it.shape].v), Elem):
                        return "something else than the other end of the edge is put on the worklist"
                    path = it.fz(v.parts[it.shape].v, s)
                    has = flat(path)
                    if CUR not in has or PATH not in has:
                        return "the path to the other end of an edge lacks the node it starts from"
                    return None
    return "the edges of the node are not put on the worklist"


def flat(v):
    if isinstance(v, App) and v.op in ("|", "+"):
        return [y for x in v.args for y in flat(x)]
    if isinstance(v, Seq):
        return [strip(p.v) if isinstance(p, One) else strip(p.src) for p in v.parts if isinstance(p, (One, Spread))]
    return [strip(v)]
