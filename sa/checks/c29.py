"""Files are read in full, and the command line checks what it prints.

The three functions that take a path, and the command-line function, are interpreted with symbolic paths, every call into unknown code (opening, parsing, checking)
both returning and raising.  For the functions, the value has to be the answer of the parser of that kind for all that the file holds.
For the command line, every path that returns has to parse, check and print what was given, in the order domain, problem, plan, and a path on which something
raised must not return.
"""
from ..api import *
from ..program import ext_ancestors
from .c19 import Raising

MINIMUM = 15
KINDS = ("domain", "problem", "plan")
WHOLE = {"strip", "lstrip", "rstrip", "expandtabs"}     # leave a text of the grammar what it is
LOSSY = (Const("ignore"), Const("replace"), Const("backslashreplace"), Const("namereplace"), Const("xmlcharrefreplace"))
PART = {"readline", "splitlines", "split", "rsplit", "partition", "rpartition", "replace", "lower", "upper", "casefold", "swapcase", "title", "translate", "removeprefix", "removesuffix",
        "slice", "item", "capitalize"}


def is_parser(f):
    return f.name == "__call__" and f.cls is not None and f.module.name.startswith("pddl.parser")


class Tool(Raising):
    def raised(self, st, node):
        out = super().raised(st, node)
        if not out:
            return out
        errors = [c for c in self.prog.classes.values() if not self.prog.subclasses(c) and any(b.split(".")[-1] in ("Exception", "ValueError") for b in ext_ancestors(c))]
        return out + [(st.clone(), Exc(ExcV(c, ()), node, self.stack[-1][0])) for c in ["ValueError", "OSError"] + errors]

    def call_ext(self, name, parts, kwargs, st, node):
        if name in ("sys.exit", "builtins.exit", "builtins.quit"):
            return [(st, Exc(ExcV("SystemExit", tuple(p.v for p in parts if isinstance(p, One))), node, self.stack[-1][0]))]
        return super().call_ext(name, parts, kwargs, st, node)


def interp(ctx):
    return Tool(ctx.prog, max_states=4000, max_depth=60, no_inline=lambda f: is_parser(f) or f.name == "check" and f.cls is not None)


def run(ctx):
    for kind in KINDS:
        f = ctx.prog.functions.get("pddl.parse_" + kind)
        if f is None:
            raise AnalysisError("pddl.parse_%s does not exist" % kind)
        ctx.guard("file", f, reading, ctx, f, kind)
    cli = ctx.prog.functions.get("pddl.__main__.cli")
    if cli is None:
        raise AnalysisError("the command line function does not exist")
    for given in (1, 2, 3):
        for quiet in (False, True):
            ctx.guard("command", cli, command, ctx, cli, given, quiet)


class Happened:
    """An event with the name of what was called, and the receiver among the arguments."""

    def __init__(self, e):
        self.kind, self.name, self.args, self.fn = e.kind, e.name, tuple(e.args), e.fn
        if isinstance(e.name, (Attr, Meth)):
            self.name, self.args = e.name.name, ((e.name.base if isinstance(e.name, Attr) else e.name.recv),) + self.args
        elif isinstance(e.name, V):
            self.name, self.args = "?", (e.name,) + self.args


def callee(v):
    """(function, receiver, arguments) of a call that was not entered."""
    if isinstance(v, App) and v.op == "call" and isinstance(v.args[0], Fn):
        f = v.args[0]
        return f.f, tuple(v.args[1:])
    return None, ()


def arg(a):
    return a.v if isinstance(a, One) else a


def content(v):
    """(the path whose whole content a text is, None) or (None, why it is not), or None if that is not known."""
    if isinstance(v, Const):
        return None, "a fixed text"
    if isinstance(v, Fmt) and len(v.parts) == 1:
        return content(arg(v.parts[0]))
    if isinstance(v, Join) and v.sep in ("", Const("")) and len(v.parts) == 1 and isinstance(v.parts[0], Spread):
        src = v.parts[0].src
        if isinstance(src, App) and src.op == "callv" and len(src.args) == 1 and isinstance(src.args[0], (Attr, Meth)):
            m = src.args[0]
            return opened(m.base if isinstance(m, Attr) else m.recv) if m.name == "readlines" else None
        return opened(src)
    if isinstance(v, App) and v.op in ("callv", "call"):
        v = App(".()", (v.args[0],) + tuple(v.args[1:])) if not isinstance(v.args[0], Fn) else v
    if isinstance(v, App) and v.op == ".()":
        m = v.args[0]
        if isinstance(m, (Attr, Meth)):
            base, name = (m.base, m.name) if isinstance(m, Attr) else (m.recv, m.name)
            if name in ("read", "read_text"):
                if len(v.args) > 1 and name == "read" and arg(v.args[1]) not in (NONE, Const(-1)):
                    return None, "a bounded part of the file"
                if name == "read_text" and any((a.v if isinstance(a, Pair) else arg(a)) in LOSSY for a in v.args[1:]):
                    return None, "the file with characters left out"
                return opened(base)
            if name in WHOLE and len(v.args) == 1:
                return content(base)
            if name in PART:
                return None, "the content after .%s()" % name
        return None
    if isinstance(v, App) and v.op.lstrip(".") in WHOLE and len(v.args) == 1:
        return content(v.args[0])
    if isinstance(v, App) and (v.op.lstrip(".") in PART):
        return None, "a part of the content, or the content changed (%s)" % v.op
    if isinstance(v, App) and v.op == "str" and len(v.args) == 1:
        return content(v.args[0])
    return None


def opened(h):
    if isinstance(h, App) and h.op == "enter":
        return opened(h.args[0])
    if isinstance(h, App) and h.op.startswith("ext:"):
        name = h.op[4:]
        if name.split(".")[-1] in ("open",) and h.args:
            named = {a.k.v: a.v for a in h.args if isinstance(a, Pair)}
            ps = [arg(a) for a in h.args if not isinstance(a, Pair)]
            how = named.get("errors", ps[4] if len(ps) > 4 else NONE)
            mode = named.get("mode", ps[1] if len(ps) > 1 else Const("r"))
            if how in LOSSY:
                return None, "the file with characters left out or exchanged"
            if isinstance(mode, Const) and isinstance(mode.v, str) and any(c in mode.v for c in "wax+"):
                return None, "a file opened for writing"
            if not ps:
                return named.get("file", None) and (named["file"], None)
            return ps[0], None
        if name in ("pathlib.Path", "builtins.str", "os.fspath", "os.path.abspath", "os.path.realpath", "os.path.expanduser") and h.args:
            return opened(arg(h.args[0]))
        return None
    if isinstance(h, App) and h.op in ("callv", "call") and isinstance(h.args[0], Attr) and h.args[0].name == "open":
        return opened(h.args[0].base)
    if isinstance(h, Sym):
        return h, None
    return None


def plain(p):
    """A path without conversions that denote the same file."""
    while True:
        if isinstance(p, App) and p.op == "str" and len(p.args) == 1:
            p = p.args[0]
        elif isinstance(p, App) and p.op.startswith("ext:") and p.op[4:] in ("pathlib.Path", "builtins.str", "os.fspath", "os.path.abspath", "os.path.realpath", "os.path.expanduser") and p.args:
            p = arg(p.args[0])
        else:
            return p


def parsed(ctx, v):
    """(kind, path, None), (kind, None, what is wrong), or None if the value is not the answer of a parser."""
    f, args = callee(v)
    if f is None or not is_parser(f):
        return None
    me = arg(args[0]) if args else None
    if not isinstance(me, New) or len(args) < 2:
        raise Undecided("which parser is asked: %s" % short(me, 80))
    start = me.cls.find("start_symbol")
    kind = None
    for k in KINDS:
        if me.cls.name.lower().startswith(k):
            kind = k
    if start is not None:
        for k in mro_consts(ctx, me.cls):
            kind = k
            break
    c = content(arg(args[1]))
    if c is None:
        raise Undecided("what the text for the parser is: %s" % short(arg(args[1]), 200))
    return kind, (plain(c[0]) if c[0] is not None else None), c[1]


def mro_consts(ctx, cls):
    it = Interp(ctx.prog)
    it.attr_types = {}
    for s, r in it.getattr(Cls(cls), "start_symbol", State(), None):
        if isinstance(r, Const) and isinstance(r.v, str):
            yield r.v


def reading(ctx, f, kind):
    it = interp(ctx)
    path = Sym("path", ("py", "str"))
    rets = 0
    for s, k, v in it.run(f, [path], None, None, State()):
        if k == "exc":
            continue
        rets += 1
        v = it.fz(v, s)
        p = parsed(ctx, v)
        if p is None:
            if isinstance(v, (Const, New)):
                ctx.violation("file", f, "parse_%s(path) returns %s, which no parser has read" % (kind, short(v, 100)), kind + " parser")
                continue
            raise Undecided("what is returned: %s" % short(v, 200))
        ctx.require(p[0] == kind, "file", f, "parse_%s asks the parser of %ss" % (kind, kind), "parse_%s asks the parser of %ss" % (kind, p[0]), kind + " parser")
        ctx.require(p[1] == path, "file", f, "parse_%s reads the whole file" % kind,
                    "parse_%s hands the parser %s instead of the whole content of the file" % (kind, p[2] or short(p[1], 100)), kind + " text")
        for e in map(Happened, s.events):
            if e.name.split(".")[-1] in ("remove", "unlink", "truncate", "rename", "write_text", "rmtree", "write"):
                ctx.violation("file", f, "reading a file calls %s" % e.name, kind + " " + e.name)
    ctx.analysed.update(it.visited)
    ctx.require(rets > 0, "file", f, "parse_%s returns" % kind, "parse_%s never returns" % kind, kind + " returns")


def texts(v):
    """The things a printed text consists of."""
    if isinstance(v, (Fmt, Join)):
        ps = v.parts if isinstance(v, Fmt) else [v.sep] + [arg(p) for p in v.parts]
        return [x for p in ps for x in texts(arg(p))]
    if isinstance(v, Const):
        return [] if isinstance(v.v, str) and not v.v.strip() else [v]
    if isinstance(v, App) and v.op in ("str", ".strip", ".rstrip") and len(v.args) == 1:
        return texts(v.args[0])
    return [v]


def printed(e):
    """The values an event prints (None: not a printing event)."""
    if e.kind == "ext" and e.name.split(".")[-1] in ("print", "echo", "secho") and e.name.split(".")[0] in ("print", "click", "builtins"):
        args = list(e.args)
        named = {a.k.v: a.v for a in args if isinstance(a, Pair)}
        if "file" in named and not stdout(named["file"]) or named.get("err") == Const(True):
            return None
        return [x for a in args if not isinstance(a, Pair) for x in texts(arg(a))]
    if e.kind == "ext" and e.name in ("sys.stdout.write", "sys.stdout.writelines"):
        return [x for a in e.args for x in texts(arg(a))]
    if e.kind == "callv" and e.name in ("write", "writelines") and e.args and stdout(e.args[0]):
        return [x for a in e.args[1:] for x in texts(arg(a))]
    return None


def stdout(v):
    return v == Ext("sys.stdout") or v == NONE or isinstance(v, Attr) and v.name == "stdout"


def command(ctx, f, given, quiet):
    it = interp(ctx)
    paths = [Sym(k + "_path", ("py", "str")) for k in KINDS]
    names = [a.arg for a in f.node.args.args]
    if len(names) < 4:
        raise Undecided("the arguments of the command line are not those that are known")
    args = {names[i]: (paths[i] if i < given else NONE) for i in range(3)}
    args[names[3]] = Const(quiet)
    st = State()
    for p in paths[:given]:
        st = it.assume(App("truthy", (p,)), True, st)[0]
    what = "with %s%s" % (" and ".join(KINDS[:given]), ", quiet" if quiet else "")
    key = "%d %s" % (given, quiet)
    want = []
    for i in range(given):
        want += [("parse", i)] + ([("check", i)] if i else []) + ([] if quiet else [("print", i)])
    rets = 0
    for s, k, v in it.run(f, [args[n] for n in names[:4]], None, None, st):
        if k == "exc" and not (isinstance(v, Exc) and v.exc.cls == "SystemExit" and (not v.exc.args or v.exc.args[0] in (NONE, Const(0)))):
            continue
        rets += 1
        got, muted = [], False
        for e in map(Happened, s.events):
            if e.kind == "write" and e.name == "stdout" and not stdout(e.args[1]):
                muted = True
            elif e.kind == "write" and e.name == "stdout":
                muted = False
            if "redirect_stdout" in e.name:
                muted = True
            i = about(ctx, e, paths, it, s)
            if i is not None and i[0] == "parse":
                got.append(("parse", i[1]))
            elif i is not None:
                got.append(i)
            out = printed(e)
            if out is not None and not muted:
                for x in out:
                    j = which(ctx, x, paths)
                    got.append(("print", j) if j is not None else ("print", short(x, 80)))
        problem = compare(got, want)
        if problem is not None:
            for e in map(Happened, s.events):
                if e.kind in ("ext", "callv", "callm", "call") and about(ctx, e, paths, it, s) is None and printed(e) is None and any(arg(a) in paths for a in e.args) and \
                        e.name.split(".")[-1] not in ("open", "Path", "read_text", "str", "fspath", "exists", "isfile"):
                    raise Undecided("what %s does with a file is not known" % e.name)
        ctx.require(problem is None, "command", f, "the command line %s does %s" % (what, say(got)), "the command line %s %s" % (what, problem), key)
    ctx.analysed.update(it.visited)
    ctx.require(rets > 0, "command", f, "the command line %s can succeed" % what, "the command line %s never succeeds" % what, key + " returns")


def say(got):
    return ", ".join("%s %s" % (a, KINDS[b] if isinstance(b, int) else b) for a, b in got)


def which(ctx, v, paths):
    """The index of the file whose parsed value this is."""
    p = parsed(ctx, v)
    if p is None or p[1] not in paths or p[0] is None:
        return None
    i = paths.index(p[1])
    return i if KINDS[i] == p[0] else None


def about(ctx, e, paths, it, s):
    if e.kind == "call" and e.args:
        f = ctx.prog.functions.get(e.name) or method(ctx, e.name)
        if f is not None and is_parser(f):
            v = App("call", (Fn(f, None, None),) + tuple(e.args))
            i = which(ctx, v, paths)
            p = parsed(ctx, v)
            if i is not None:
                return "parse", i
            return "parse", "%s as a %s" % (short(p[1], 40), p[0])
    named = e.name.split(".")[-1]
    if (e.kind in ("callv", "call") and named == "check") or e.kind == "write" and e.name == "domain":
        i = which(ctx, e.args[0], paths) if e.args else None
        rest = [which(ctx, arg(a), paths) for a in e.args[1:]]
        if i is None:
            return "check", "something else"
        if rest == list(range(i)):
            return "check", i
        return "check", "the %s against %s" % (KINDS[i], ", ".join(KINDS[j] if j is not None else "something else" for j in rest))
    return None


def method(ctx, name):
    cls, _, m = name.rpartition(".")
    c = ctx.prog.classes.get(cls)
    return own_method(c, m) if c is not None else None


def compare(got, want):
    if got == want:
        return None
    done = []
    for w in want:
        if w not in got:
            return "returns without having done this: %s the %s (it did: %s)" % (w[0], KINDS[w[1]], say(got) or "nothing")
    for a, b in got:
        if (a, b) not in want:
            return "does this: %s %s" % (a, KINDS[b] if isinstance(b, int) else b)
        if a == "print" and (a, b) in done:
            return "prints the %s twice" % KINDS[b]
        if a == "print":
            for w in want[:want.index((a, b))]:
                if w not in done:
                    return "prints the %s before this is done: %s the %s" % (KINDS[b], w[0], KINDS[w[1]])
        done.append((a, b))
    return None
