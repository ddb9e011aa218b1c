"""Bookkeeping for a check: obligations, verdicts, evidence and exit code."""

import json
import multiprocessing
import os
import sys
import time
import traceback

from .interp import Undecided
from .program import AnalysisError, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, where, message, key=None):
        self.rule = rule
        self.where = where
        self.message = message
        self.key = key or (rule + " @ " + where)


class Ctx:
    """What a check module works with."""

    def __init__(self, prop, tier, root):
        self.prop = prop
        self.tier = tier
        self.root = root
        self.prog = Program(root)
        self.oks = []
        self.bad = []
        self.und = []
        self.notes = []
        self.analysed = set()
        self.assumptions = []

    # -- recording ---------------------------------------------------------
    def loc(self, f):
        """file:line of a function, class or (file, line)."""
        if isinstance(f, str):
            return f
        if isinstance(f, tuple):
            return "%s:%s" % f
        fn = getattr(f, "path", None) or getattr(getattr(f, "module", None), "path", "?")
        node = getattr(f, "node", None)
        fn = os.path.relpath(fn, self.root) if os.path.isabs(str(fn)) else fn
        return "%s:%s %s" % (fn, getattr(node, "lineno", "?"), getattr(f, "qualname", ""))

    def ok(self, rule, where, detail=""):
        self.oks.append((rule, self.loc(where), str(detail)[:300]))

    def violation(self, rule, where, message, key=None):
        self.bad.append(Finding(rule, self.loc(where), str(message)[:1500], key))

    def undecided(self, rule, where, reason):
        self.und.append((rule, self.loc(where), str(reason)[:400]))

    def require(self, cond, rule, where, good="", bad="", key=None):
        if cond:
            self.ok(rule, where, good)
        else:
            self.violation(rule, where, bad or good, key)
        return bool(cond)

    def guard(self, rule, where, fn, *args, **kw):
        """Run one obligation; an unsupported construct makes it undecided."""
        try:
            return fn(*args, **kw)
        except Undecided as e:
            self.undecided(rule, where, e)
        except AnalysisError as e:
            self.undecided(rule, where, e)
        except RecursionError:
            self.undecided(rule, where, "recursion limit of the analyser")
        except Exception as e:  # an analyser bug is no verdict on the code
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(rule, where, "analyser error %r at %s:%s" % (e, os.path.basename(tb.filename), tb.lineno))
        return None


    def spread(self, fn, items, workers=8):
        """Run fn(self, *item) for every item in child processes and gather what they recorded, in the order of the items."""
        global WORK
        items = list(items)
        marks = (len(self.oks), len(self.bad), len(self.und), len(self.notes))
        WORK = (self, fn, items, marks)
        try:
            with multiprocessing.get_context("fork").Pool(min(workers, max(1, len(items)))) as pool:
                for oks, bad, und, notes, seen in pool.imap(_work, range(len(items)), chunksize=max(1, len(items) // (workers * 4))):
                    self.oks += oks
                    self.bad += [Finding(*b) for b in bad]
                    self.und += und
                    self.notes += notes
                    self.analysed |= seen
        except OSError:         # no child processes here
            del self.oks[marks[0]:], self.bad[marks[1]:], self.und[marks[2]:], self.notes[marks[3]:]
            for x in items:
                self.guard("check", self.prop, fn, self, *x)
        finally:
            WORK = None


WORK = None


def _work(i):
    ctx, fn, items, m = WORK
    del ctx.oks[m[0]:], ctx.bad[m[1]:], ctx.und[m[2]:], ctx.notes[m[3]:]
    ctx.guard("check", ctx.prop, fn, ctx, *items[i])
    return ctx.oks[m[0]:], [(f.rule, f.where, f.message, f.key) for f in ctx.bad[m[1]:]], ctx.und[m[2]:], ctx.notes[m[3]:], set(ctx.analysed)


def known_findings():
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[len("known: "):].partition(" :: ")
                fields = dict(x.split("=", 1) for x in head.split(" ", 1)[0:1])
                key = head.split("key=", 1)[1] if "key=" in head else ""
                out.append((fields.get("property"), key, text))
    return out


def run(prop, tier, root="/repo"):
    import importlib

    t0 = time.time()
    sys.setrecursionlimit(12000)
    mod = importlib.import_module("sa.checks." + prop.lower())
    ctx = Ctx(prop, tier, root)
    ctx.guard("check", prop, mod.run, ctx)
    n = len(ctx.oks) + len(ctx.bad) + len(ctx.und)
    minimum = getattr(mod, "MINIMUM", 1)
    if n < minimum:
        ctx.undecided("instances", prop, "%d obligations found, at least %d expected" % (n, minimum))
    known = {(p, k): t for p, k, t in known_findings()}
    fresh, listed = [], []
    seen = set()
    for f in ctx.bad:
        if f.key in seen:
            continue
        seen.add(f.key)
        (listed if (prop, f.key) in known else fresh).append(f)
    for f in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, f.key)]))
    for r in ctx.und:
        print("UNDECIDED property=%s rule=%s at %s: %s" % ((prop,) + r))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rules = {}
    for r, w, d in ctx.oks:
        rules.setdefault(r, [0, 0, 0])[0] += 1
    for f in ctx.bad:
        rules.setdefault(f.rule, [0, 0, 0])[1] += 1
    for r, w, d in ctx.und:
        rules.setdefault(r, [0, 0, 0])[2] += 1
    sample = {}
    for r, w, d in ctx.oks:
        if len(sample.setdefault(r, [])) < 4:
            sample[r].append("%s: %s" % (w, d) if d else w)
    coverage = {
        "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or prop).strip(),
        "obligations": n,
        "discharged": len(ctx.oks),
        "violated": len(seen),
        "undecided": len(ctx.und),
        "by_rule": {k: {"discharged": v[0], "violated": v[1], "undecided": v[2]} for k, v in sorted(rules.items())},
        "samples": [s for k in sorted(sample) for s in ["[%s] %s" % (k, x) for x in sample[k]]],
        "undecided_list": ["[%s] %s: %s" % r for r in ctx.und],
        "modules_parsed": len(ctx.prog.modules),
        "functions_interpreted": len(ctx.analysed),
        "notes": ctx.notes,
        "violation_list": [{"rule": f.rule, "where": f.where, "message": f.message} for f in fresh],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": coverage,
        "assumptions": ctx.assumptions or getattr(mod, "ASSUMPTIONS", []),
        "violations": len(fresh),
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    print("%s: %d obligations, %d discharged, %d violated, %d undecided, %.1fs"
          % (prop, n, len(ctx.oks), len(fresh), len(ctx.und), time.time() - t0))
    if fresh:
        rdir = os.path.join(HERE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as fh:
            json.dump(coverage["violation_list"], fh, indent=1)
        for f in fresh[:20]:
            print("  [%s] %s\n      %s" % (f.rule, f.where, f.message))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
