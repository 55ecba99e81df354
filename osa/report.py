"""Obligations, findings, evidence."""
from __future__ import annotations

import json
import os
import time
import traceback

from . import dag as D
from . import equal
from .dag import C, N
from .interp import Raised, Unsupported
from .world import Anchor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, key, construct, what, witness=None, signature=""):
        self.key, self.construct, self.what, self.witness, self.signature = key, construct, what, witness, signature


class Report:
    def __init__(self, prop, world, thorough=False):
        self.prop = prop
        self.world = world
        self.thorough = thorough
        self.findings = []
        self.undecided = []
        self.obs = []  # (name, construct, how)
        self.notes = []
        #: obligations left to unrolled counterparts
        self.weak = []
        self.unrolled = False
        self.t0 = time.time()
        self.current = None

    # ---- locating
    def where(self, dotted):
        """file:line of a public name, following aliases"""
        it = self.world.it
        try:
            v = it.lookup(dotted)
        except Exception:
            return dotted
        f = getattr(v, "func", v)
        node = getattr(f, "node", None)
        mod = getattr(f, "module", None)
        if node is not None and mod is not None and mod.file:
            return "%s:%d %s" % (os.path.relpath(mod.file, os.path.dirname(it.root)), node.lineno, f.qual)
        if mod is not None and getattr(mod, "file", None):
            return "%s %s" % (os.path.relpath(mod.file, os.path.dirname(it.root)), dotted)
        return dotted

    # ---- deciding
    def eq(self, name, entry, found, expected, pre=(), tol=None, boundary=True, what=None, nsamples=None, rel=None, plain=False):
        """the value numbers computed by `entry` equal the reference ones"""
        if not isinstance(found, (list, tuple)):
            found, expected = [found], [expected]
        key = "%s/%s" % (self.prop, name)
        if len(found) != len(expected):
            return self.fail(name, entry, "%d components where %d are expected" % (len(found), len(expected)))
        for x in found:
            if not isinstance(x, (N, bool, int, float, C)):
                return self.fail(name, entry, "a %s where a number is expected" % type(x).__name__)
        kw = {}
        if tol is not None:
            kw["tol"] = tol
        if plain and not self.thorough:
            kw["plain"] = True
        if rel is not None:
            kw["rel"] = rel
        if nsamples:
            kw["nsamples"] = nsamples
        if self.thorough:
            kw["nsamples"] = 64
            kw["budget"] = 30.0
        v = equal.decide([(as_num(a), as_num(b)) for a, b in zip(found, expected)], pre=[p for p in pre if p is not True], boundary=boundary, **kw)
        if v.equal is True:
            self.obs.append((name, entry, v.how))
            return True
        if v.equal is None:
            self.undecided.append((name, entry, v.how))
            return None
        kind, i, got, exp = v.detail
        mus = lambda x: {y.name for y in D.variables([x]) if y.name.startswith(("mu:", "K@"))} if isinstance(x, N) else set()
        if self.unrolled and mus(found[i]) - mus(as_num(expected[i])):
            # the loop was summarised without a closed form for this value: that decides nothing
            return self.weakly(name, entry, "a loop-carried value has no closed form")
        msg = what or "value differs from the reference"
        n = "%s: component %d is %s, reference %s" % (msg, i, fmt(got), fmt(exp))
        return self.fail(name, entry, n, v.witness, signature=sig(found[i] if isinstance(found[i], N) else None))

    def cond(self, name, entry, c, pre=(), what="condition fails", gates=True):
        """a condition over value numbers holds for every valuation of the domain"""
        c = c if isinstance(c, (C, bool)) else bool(c)
        if c is True:
            self.obs.append((name, entry, "hash"))
            return True
        w = equal.feasible(D.c_not(c), pre, 96 if self.thorough else 32, gates)
        if w is not None:
            return self.fail(name, entry, what, w)
        proved = equal.holds(c, pre)
        if not proved and not equal.decidable(c, pre):
            self.undecided.append((name, entry, "no valuation of the domain decides the condition"))
            return None
        self.obs.append((name, entry, "normal_form" if proved else "random"))
        return True

    def weakly(self, name, entry, why):
        """what a loop summary cannot decide is left to the unrolled obligations, where the rule set has them"""
        (self.weak if self.unrolled else self.undecided).append((name, entry, why))
        return None

    def rule(self, name, entry, ok, what, witness=None, signature=""):
        """a structural rule (ownership, effect, typestate ...) already decided by the caller"""
        if ok:
            self.obs.append((name, entry, "rule"))
            return True
        return self.fail(name, entry, what, witness, signature)

    def fail(self, name, entry, what, witness=None, signature=""):
        self.findings.append(Finding("%s/%s" % (self.prop, name), self.where(entry), what, witness, signature))
        self.obs.append((name, entry, "violated"))
        return False

    def no_raise(self, name, entry, case, pre=()):
        """no exception is raised explicitly for inputs of the domain"""
        for pc, cond, exc in case.raises():
            c = D.c_and(*(tuple(pc) + (cond,))) if pc else cond
            if c is False:
                continue
            w = {} if c is True else equal.feasible(c, pre, 32)
            if w is not None:
                self.fail(name + "/raises", entry, "raises %s for an input of the domain" % exc, w)

    def section(self, name, entry):
        return Section(self, name, entry)


class Section:
    """one group of obligations about one entry point; turns exceptions into findings"""

    def __init__(self, rep, name, entry):
        self.rep, self.name, self.entry = rep, name, entry

    def __enter__(self):
        self.mark = len(self.rep.world.it.raises)
        self.nobs = len(self.rep.obs)
        return self

    def __exit__(self, et, e, tb):
        r = self.rep
        if e is None:
            for pc, cond, exc in r.world.it.raises[self.mark :]:
                c = D.c_and(*(tuple(pc) + (cond,))) if pc else cond
                if c is False:
                    continue
                w = {} if c is True else equal.feasible(c, getattr(self, "pre", ()), 32)
                if w is not None:
                    r.fail(self.name + "/raises", self.entry, "raises %s for an input of the domain" % exc, w)
                    break
            return False
        if isinstance(e, Raised):
            r.fail(self.name + "/raises", self.entry, "always raises %s %s" % (e.exc, e.msg))
            return True
        if isinstance(e, Anchor):
            r.undecided.append((self.name, self.entry, "anchor missing: %s" % e))
            return True
        if isinstance(e, Unsupported) and str(e).startswith("loop"):
            r.weakly(self.name, self.entry, "unsupported: %s" % e)
            return True
        if isinstance(e, (Unsupported, D.DagError)):
            r.undecided.append((self.name, self.entry, "unsupported: %s" % e))
            return True
        if isinstance(e, Exception):
            if os.environ.get("OSA_DEBUG"):
                traceback.print_exception(et, e, tb)
            r.undecided.append((self.name, self.entry, "internal: %s: %s" % (type(e).__name__, e)))
            return True
        return False


def as_num(x):
    if isinstance(x, bool):
        return D.const(int(x))
    if isinstance(x, C):
        return D.ite(x, D.const(1), D.const(0))
    if isinstance(x, float):
        return D.lit(x)
    if isinstance(x, int):
        return D.const(x)
    return x


def sig(n):
    if n is None:
        return ""
    return "const:%s" % float(n.val) if n.op == "const" else "expr"


def fmt(x):
    if x is None:
        return "undefined"
    try:
        return "%.12g" % float(x)
    except Exception:
        return str(x)


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            d = dict(x.split("=", 1) for x in line.split(" | ")[0][6:].split() if "=" in x)
            d["what"] = line.split(" | ", 1)[1] if " | " in line else ""
            out.append(d)
    return out
