"""Equality of value numbers.

``decide(pairs)`` answers whether two lists of value numbers denote the same values for every valuation of the
inputs:

  1. identical graph nodes                                    -> equal   (hash-consing)
  2. equal normal forms after splitting the gated joins       -> equal   (algebraic value numbering)
  3. a valuation where the two graphs evaluate differently    -> different, with that valuation as the witness
  4. neither (the normal form exceeded its budget)            -> equal by random interpretation, counted apart

Step 3 evaluates *value numbers* in 60-digit arithmetic; no program code is run.
"""
from __future__ import annotations

import hashlib
import math
import random
import time
from fractions import Fraction as F

import mpmath as mp

from . import dag as D
from .alg import Algebra, AlgError, Overflow, to_mp
from .dag import C, N, INF

mp.mp.dps = 70
SEED = 20240229
NSAMPLES = 16


class Sample:
    def __init__(self, k, ranges=None, fixed=None):
        self.k = k
        self.memo = {}
        self.cmemo = {}
        self.fixed = dict(fixed or {})

    def var(self, n):
        rng = random.Random("%s|%s|%d" % (SEED, n.name, self.k))
        if n.integer:
            lo = int(n.lo) if n.lo > -INF else -9
            hi = int(n.hi) if n.hi < INF else max(lo, 0) + 9
            return mp.mpf(rng.randint(lo, hi))
        if n.scale is not None and not (n.lo > -INF and n.hi < INF):
            s = n.scale
        elif n.lo > -INF and n.hi < INF:
            w = n.hi - n.lo
            return mp.mpf(n.lo) + mp.mpf(rng.uniform(0.003, 0.997)) * w
        else:
            s = 1.0
        v = rng.uniform(0.35, 2.4) * s
        if n.lo > -INF:
            v += max(n.lo, 0.0) if n.lo >= 0 else n.lo
        elif n.hi < INF:
            v = n.hi - v
        elif rng.random() < 0.45:
            v = -v
        return mp.mpf(v)

    def ev(self, n):
        m = self.memo
        r = m.get(n.id, m)
        if r is not m:
            return r
        if n.id in self.fixed:
            v = self.fixed[n.id]
            m[n.id] = v
            return v
        op = n.op
        if op == "const":
            v = to_mp(n.val)
        elif op == "var":
            v = self.var(n)
        elif op == "ite":
            c = self.cond(n.args[0])
            v = None if c is None else self.ev(n.args[1] if c else n.args[2])
        elif op == "opq":
            v = mp.mpf(0)
            h = hashlib.sha256(("%s/%d" % (n.name, len(n.args))).encode()).digest()
            for i, x in enumerate(n.args):
                xv = self.ev(x)
                if xv is None:
                    v = None
                    break
                w = 1 + h[i % 32] / 300.0
                ph = h[(i + 7) % 32] / 40.0
                v += (1 + h[(i + 3) % 32] / 256.0) * mp.sin(xv * mp.mpf(w) * mp.mpf("0.37") + mp.mpf(ph)) + xv * mp.mpf(h[(i + 11) % 32] + 3) / 1000
            if v is not None:
                v += mp.mpf(h[31]) / 100
                if n.lo >= 0:
                    v = abs(v)
        else:
            a = [self.ev(x) for x in n.args]
            if any(x is None for x in a):
                v = None
            else:
                v = self.apply(n, a)
        m[n.id] = v
        return v

    def apply(self, n, a):
        op = n.op
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1] if a[1] != 0 else None
        f = n.name
        x = a[0]
        if f == "sin":
            return mp.sin(x)
        if f == "cos":
            return mp.cos(x)
        if f == "sqrt":
            if x < 0:
                return mp.mpf(0) if x > -mp.mpf(10) ** -50 * self.mag(n.args[0]) else None
            return mp.sqrt(x)
        if f == "floor":
            r = mp.nint(x)
            if abs(x - r) < mp.mpf(10) ** -45 * max(1, abs(x)):
                return r
            return mp.floor(x)
        if f == "atan2":
            if a[0] == 0 and a[1] == 0:
                return mp.mpf(0)
            return mp.atan2(a[0], a[1])
        if f in ("asin", "acos"):
            if abs(x) > 1:
                if abs(x) > 1 + mp.mpf(10) ** -50:
                    return None
                x = mp.sign(x)
            return mp.asin(x) if f == "asin" else mp.acos(x)
        if f == "atan":
            return mp.atan(x)
        if f == "log":
            return mp.log(x) if x > 0 else None
        if f == "exp":
            return mp.exp(x) if x < 1e6 else None
        if f in ("sinh", "cosh", "tanh"):
            return getattr(mp, f)(x)
        if f == "powq":
            if x < 0 or (x == 0 and a[1] < 0):
                return None
            return mp.power(x, a[1])
        if f == "pow":
            if x <= 0:
                return None
            return mp.power(x, a[1])
        raise D.DagError("eval " + str(f))

    def mag(self, n):
        if n.op == "add":
            return self.mag(n.args[0]) + self.mag(n.args[1])
        v = self.ev(n)
        return abs(v) if v is not None else mp.mpf(1)

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if c.id in self.cmemo:
            return self.cmemo[c.id]
        if c.op == "sgn":
            v = self.ev(c.args[0])
            if v is None:
                r = None
            else:
                if v != 0 and abs(v) < mp.mpf(10) ** -48 * self.mag(c.args[0]):
                    v = mp.mpf(0)
                r = int(mp.sign(v)) in c.args[1]
        elif c.op == "and":
            r = True
            for x in c.args:
                y = self.cond(x)
                if y is None:
                    r = None
                    break
                if not y:
                    r = False
                    break
        elif c.op == "or":
            r = False
            for x in c.args:
                y = self.cond(x)
                if y is None:
                    r = None
                    break
                if y:
                    r = True
                    break
        elif c.op == "not":
            r = self.cond(c.args[0])
            r = None if r is None else not r
        elif c.op == "bvar":
            r = random.Random("%s|%s|%d" % (SEED, c.args[0], self.k)).random() < 0.5
            f = self.fixed.get(("b", c.args[0]))
            if f is not None:
                r = f
        elif c.op == "streq":
            r = self.fixed.get(("s", c.args[0])) == c.args[1]
        else:
            raise D.DagError("cond " + c.op)
        self.cmemo[c.id] = r
        return r


# ------------------------------------------------------------------ normal forms
class NF:
    """translation of ite-free graphs into the algebraic domain"""

    def __init__(self):
        self.A = Algebra()
        self.memo = {}

    def rf(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        A = self.A
        op = n.op
        if op == "const":
            r = A.const(n.val)
        elif op == "var":
            r = A.atom(A.var(n.name, lo=n.lo, hi=n.hi, nonneg=n.lo >= 0, integer=n.integer))
        elif op == "add":
            # flatten sums
            r = A.add(self.rf(n.args[0]), self.rf(n.args[1]))
        elif op == "mul":
            r = A.mul(self.rf(n.args[0]), self.rf(n.args[1]))
        elif op == "div":
            r = A.div(self.rf(n.args[0]), self.rf(n.args[1]))
        elif op == "opq":
            r = A.atom(A.intern_fn("opq", tuple(self.rf(x) for x in n.args), name=n.name, lo=n.lo, hi=n.hi, nonneg=n.lo >= 0, integer=n.integer))
        elif op == "ite":
            raise AlgError("ite")
        else:
            f = n.name
            x = self.rf(n.args[0])
            if f in ("sin", "cos"):
                s, c = A.sincos(x)
                r = s if f == "sin" else c
            elif f == "sqrt":
                r = self.root(2, x)
            elif f == "powq":
                e = n.args[1].val
                p, q = e.numerator, e.denominator
                if q > 6 or abs(p) > 12:
                    r = A.powr(x, self.rf(n.args[1]))
                else:
                    r = A.powi(self.root(q, x), p)
            elif f == "pow":
                r = A.powr(x, self.rf(n.args[1]))
            elif f == "atan2":
                r = A.atan2(x, self.rf(n.args[1]))
            elif f in ("asin", "acos", "atan"):
                r = A.inverse_trig(f, x)
            elif f == "log":
                r = A.log(x)
            elif f == "exp":
                r = A.exp(x)
            elif f == "floor":
                r = A.floor(x)
            else:
                r = A.atom(A.intern_fn("opq", (x,), name=f))
        self.memo[n.id] = r
        return r

    def root(self, q, x):
        A = self.A
        r, ab = A.root(q, x)
        for y in ab:
            s = A.sign(y)
            if s in ("-", "0-"):
                y = A.scale(y, -1)
            elif s not in ("+", "0+"):
                lead = y.num[A.p_lead(y.num)]
                if lead < 0:
                    y = A.scale(y, -1)
                y = A.atom(A.intern_fn("abs", (y,), nonneg=True, lo=0.0))
            r = A.mul(r, y)
        return r


class Verdict:
    def __init__(self, equal, how, witness=None, detail=None):
        self.equal, self.how, self.witness, self.detail = equal, how, witness, detail


STATS = {"hash": 0, "normal_form": 0, "random": 0, "different": 0, "splits": 0, "nf_time": 0.0}
NF_BUDGET = 3.0
NF_TOTAL = 30.0


def valid_samples(roots, pre, n=NSAMPLES, tries=400, fixed=None):
    out = []
    k = 0
    while len(out) < n and k < tries:
        s = Sample(k, fixed=fixed)
        k += 1
        if all(s.cond(c) is True for c in pre):
            out.append(s)
    return out


def _groups(groups):
    for g in groups:
        yield g


def differs(s, group, tol, rel=1e-12):
    """group: list of (a, b) compared relative to the size of the whole group"""
    va, vb = [], []
    for a, b in group:
        va.append(s.ev(a))
        vb.append(s.ev(b))
    if any(v is None for v in vb):
        return None
    bad = [i for i, v in enumerate(va) if v is None]
    if bad:
        return ("undefined", bad[0], None, vb[bad[0]])
    scale = max([abs(v) for v in va] + [abs(v) for v in vb] + [mp.mpf(10) ** -60])
    for i, (x, y) in enumerate(zip(va, vb)):
        if abs(x - y) > tol * scale and abs(x - y) > rel * max(abs(x), abs(y)) and abs(x - y) > ATOL:
            return ("value", i, x, y)
    return None


TOL = mp.mpf(10) ** -12
ATOL = mp.mpf(10) ** -28


def decide(group, pre=(), budget=None, boundary=True, nsamples=NSAMPLES, tol=TOL, rel=1e-12, plain=False):
    """group: list of (found, expected) nodes, e.g. the components of one vector"""
    group = [(D.num(a), D.num(b)) for a, b in group]
    todo = [(a, b) for a, b in group if a is not b]
    if not todo:
        STATS["hash"] += len(group)
        return Verdict(True, "hash")
    roots = [x for p in group for x in p]
    samples = valid_samples(roots, pre, nsamples)
    hits, used = [], 0
    for s in samples:
        r = differs(s, group, tol, rel)
        if r:
            hits.append((s, r))
            if len(hits) >= 2:
                break
        elif all(s.ev(b) is not None for _, b in group):
            used += 1
    if hits and (len(hits) >= 2 or used < 4):
        STATS["different"] += 1
        return Verdict(False, "witness", witness(hits[0][0], group), hits[0][1])
    # rarely taken regions: aim at each branch condition
    extra = [] if plain else directed(group, pre, boundary)
    for s in extra:
        r = differs(s, group, tol, rel)
        if r:
            hits.append((s, r))
            STATS["different"] += 1
            return Verdict(False, "witness", witness(s, group), r)
    if hits:
        # a single disagreeing valuation: look for company
        for s in valid_samples(roots, pre, 120):
            r = differs(s, group, tol, rel)
            if r and s.k != hits[0][0].k:
                STATS["different"] += 1
                return Verdict(False, "witness", witness(s, group), r)
        STATS["different"] += 1
        return Verdict(False, "witness", witness(hits[0][0], group), hits[0][1])
    t0 = time.time()
    if STATS["nf_time"] < NF_TOTAL and not plain:
        ok = prove(todo, pre, budget or NF_BUDGET)
        STATS["nf_time"] += time.time() - t0
        if ok:
            STATS["normal_form"] += len(todo)
            STATS["hash"] += len(group) - len(todo)
            return Verdict(True, "normal_form")
    if used < 3 and not any(True for _ in extra):
        return Verdict(None, "no valuation in the domain")
    STATS["random"] += len(todo)
    return Verdict(True, "random")


def feasible(c, pre=(), n=32, gates=True):
    """a valuation of the domain under which c holds, or None"""
    if c is False:
        return None
    pre = [p for p in pre if p is not True]
    _, cs = D.walk([])
    vs = cvariables([c] + list(pre))
    def wit(s):
        return {v.name: mp.nstr(s.ev(v), 12) for v in sorted(vs, key=lambda v: v.name)[:24]}
    for s in valid_samples([], pre, n):
        if c is True or s.cond(c) is True:
            return wit(s)
    if c is True or not gates:
        return None
    for s in directed([(D.ite(c, D.const(1), D.const(0)), D.const(0))], pre, True):
        if s.cond(c) is True:
            return wit(s)
    return None


def decidable(c, pre=(), n=32):
    """some valuation of the domain gives the condition a value"""
    return any(s.cond(c) is not None for s in valid_samples([], [p for p in pre if p is not True], n))


def cvariables(conds):
    nodes = [D.ite(c, D.const(1), D.const(0)) for c in conds if isinstance(c, C)]
    return D.variables([n for n in nodes if isinstance(n, N)])


def holds(c, pre=()):
    """proof attempt that c holds, by implication from the domain or by interval"""
    if c is True:
        return True
    for p in pre:
        if isinstance(p, C) and D.implies(p, c) is True:
            return True
    r = D.restrict(c, [p for p in pre if isinstance(p, C)])
    return r is True


def witness(s, group):
    vs = D.variables([x for p in group for x in p])
    return {v.name: mp.nstr(s.ev(v), 8) for v in sorted(vs, key=lambda v: v.name)[:24]}


def directed(group, pre, boundary):
    """valuations for each branch: both outcomes and the boundary of every comparison, and the wrap points of floors"""
    roots = [x for p in group for x in p]
    ns, cs = D.walk(roots)
    _, ref = D.walk([b for _, b in group])
    out = []
    sg = [c for c in cs.values() if c.op == "sgn"]
    # what the found graph tests and the reference does not comes first
    sg.sort(key=lambda c: (c.id in ref, c.id))
    seen = set()
    t0 = time.time()
    for c in sg[:40]:
        if time.time() - t0 > 8:
            break
        b = c.args[0]
        # an explicit equality test singles out its own special case
        at_zero = boundary or (c.id not in ref and tuple(c.args[1]) in ((0,), (-1, 1)))
        if (b.id, at_zero) in seen:
            continue
        seen.add((b.id, at_zero))
        # outcome coverage from plain samples
        want = {-1, 0, 1} if at_zero else {-1, 1}
        k = 1000
        tries = 0
        while want - {0} and tries < 30:
            s = Sample(k)
            k += 1
            tries += 1
            if not all(s.cond(p) is True for p in pre):
                continue
            v = s.ev(b)
            if v is None:
                continue
            sg_ = int(mp.sign(v))
            if sg_ in want:
                want.discard(sg_)
                out.append(s)
        # all free operands small, or large
        free = [v for v in D.variables([b]) if not v.integer and v.lo == -INF and v.hi == INF and v.scale in (None, 1.0)]
        if want - {0} and free:
            for e in (-2, -4, -8, -12, 3, 6):
                s = Sample(17)
                s = Sample(17, fixed={v.id: s.ev(v) * mp.mpf(10) ** e for v in free})
                y = s.ev(b)
                if y is not None and int(mp.sign(y)) in want and all(s.cond(p) is True for p in pre):
                    want.discard(int(mp.sign(y)))
                    out.append(s)
                    if not want - {0}:
                        break
        # steer one variable to cross the threshold
        vs = [v for v in D.variables([b]) if not v.integer]
        if not vs and at_zero:
            for k in range(2000, 2040):
                s = Sample(k)
                if s.ev(b) == 0 and all(s.cond(p) is True for p in pre):
                    out.append(s)
                    break
        found = False
        for v in vs[:4]:
            for k in range(1, 8):
                s0 = crossing(b, v, k, pre, at_zero)
                if s0:
                    out.extend(s0)
                    found = True
                    break
            if found:
                break
        # steer all variables together towards an outcome not seen yet
        for g in sorted(want - {0}):
            if time.time() - t0 > 8:
                break
            if any(int(mp.sign(s.ev(b) or 0)) == g for s in out[-12:]):
                continue
            out.extend(steer(b, g, pre))
    # gates below gates, and conditions of several parts
    t1 = time.time() + 4
    for path in gates(group):
        out.extend(satisfy(path, pre, boundary, t1))
        if time.time() > t1:
            break
    t0 = max(t0, time.time() - 8)
    for n in sorted((n for n in ns.values() if n.op == "fn" and n.name == "floor"), key=lambda n: n.id)[:16]:
        if time.time() - t0 > 10:
            break
        out.extend(wraps(n.args[0], pre, boundary))
    return out


def gates(group):
    """path conditions of the gates of the found graph that the reference does not have"""
    _, ref = D.walk([b for _, b in group])
    out, seen = [], set()
    st = [(a, ()) for a, _ in group]
    while st and len(out) < 24:
        x, path = st.pop()
        if not isinstance(x, N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            c = x.args[0]
            if isinstance(c, C) and c.id not in ref and (path or c.op in ("and", "or")):
                out.append(path + (c,))
                out.append(path + (D.c_not(c),))
            st.append((x.args[1], (path + (c,))[-6:]))
            st.append((x.args[2], (path + (D.c_not(c),))[-6:]))
            cs = list(c.args) if isinstance(c, C) else []
            while cs:
                y = cs.pop()
                if isinstance(y, C):
                    cs.extend(y.args)
                elif isinstance(y, N):
                    st.append((y, path))
        else:
            st.extend((y, path) for y in x.args)
    return out


def literals(c):
    """the conjunctions, one of which makes c hold"""
    if not isinstance(c, C):
        return [[]] if c else []
    if c.op == "and":
        out = [[]]
        for x in c.args:
            out = [a + b for a in out for b in literals(x)][:8]
        return out
    if c.op == "or":
        return [a for x in c.args for a in literals(x)][:8]
    return [[c]]


def satisfy(path, pre, boundary, t1):
    """a valuation under which every condition of the path holds, one condition and one variable at a time"""
    alts = [[]]
    for c in path:
        alts = [a + b for a in alts for b in literals(c)][:8]
    for lits in alts:
        # equalities first: they leave the least room
        lits = sorted(lits, key=lambda c: len(c.args[1]) if c.op == "sgn" else 0)
        for k in (3, 7, 11):
            if time.time() > t1:
                return []
            fixed, ok = {}, True
            for c in lits:
                s = Sample(k, fixed=fixed)
                if s.cond(c) is True:
                    continue
                if c.op != "sgn":
                    ok = False
                    break
                b, signs = c.args
                hit = None
                for v in [v for v in D.variables([b]) if not v.integer and v.id not in fixed][:6]:
                    hit = solve1(b, v, signs, k, fixed)
                    if hit is not None:
                        break
                if hit is None:
                    ok = False
                    break
                fixed.update(hit)
            if not ok:
                continue
            s = Sample(k, fixed=fixed)
            if all(s.cond(c) is True for c in lits) and all(s.cond(q) is True for q in pre):
                return [s]
    return []


def solve1(b, v, signs, k, fixed):
    """a value of v for which b has one of the signs, other variables as in sample k"""
    lo = mp.mpf(v.lo) if v.lo > -INF else None
    hi = mp.mpf(v.hi) if v.hi < INF else None
    x0 = fixed.get(v.id) or Sample(k).var(v)

    def at(x):
        return Sample(k, fixed={**fixed, v.id: x}).ev(b)

    if lo is not None and hi is not None:
        cand = [lo + (hi - lo) * (mp.mpf(i) + mp.mpf(0.37)) / 17 for i in range(17)]
    else:
        sc = abs(x0) + 1
        cand = sorted(c for c in [x0 + sc * mp.mpf(i) for i in (-64, -16, -6, -3, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 6, 16, 64)] if (lo is None or c >= lo) and (hi is None or c <= hi))
    prev = None
    for x in cand:
        y = at(x)
        if y is None:
            prev = None
            continue
        if int(mp.sign(y)) in signs:
            return {v.id: x}
        if prev is not None and prev[1] * y < 0 and 0 in signs:
            m, fm = root(at, prev[0], prev[1], x, y)
            if fm is not None and abs(fm) <= mp.mpf(10) ** -30 * (abs(prev[1]) + abs(y)):
                # the rest of the equation must not move any more
                s = Sample(k, fixed=fixed)
                return {**{u.id: s.ev(u) for u in D.variables([b])}, v.id: m, b.id: mp.mpf(0)}
        prev = (x, y)
    return None


def wraps(x, pre, boundary):
    """valuations around a point where floor(x) steps"""
    for v in [v for v in D.variables([x]) if not v.integer][:4]:
        for k in range(1, 6):
            base = Sample(k)
            y0 = base.ev(x)
            if y0 is None:
                continue
            x0 = base.ev(v)
            # the floors below this one are held: walk to the next step of this one only
            h = mp.mpf(10) ** -9 * max(1, abs(x0))
            y1 = Sample(k, fixed={v.id: x0 + h}).ev(x)
            if y1 is None or y1 == y0 or abs(y1 - y0) > mp.mpf("0.25"):
                continue
            slope = (y1 - y0) / h
            out = []
            for t in (mp.floor(y0) + 1, mp.floor(y0)):
                m = x0 + (t - y0) / slope
                for _ in range(40):
                    ym = Sample(k, fixed={v.id: m}).ev(x)
                    if ym is None or abs(ym - t) > 2:
                        ym = None
                        break
                    if abs(ym - t) < mp.mpf(10) ** -55:
                        break
                    m = m + (t - ym) / slope
                if ym is None or abs(ym - t) > mp.mpf(10) ** -40 or m < v.lo or m > v.hi:
                    continue
                for d in ("1e-4", "-1e-4", "1e-9", "-1e-9"):
                    z = m + mp.mpf(d) / slope
                    if v.lo <= z <= v.hi:
                        out.append(Sample(k, fixed={v.id: z}))
                if boundary:
                    out.append(Sample(k, fixed={v.id: m, x.id: t}))
            out = [s for s in out if all(s.cond(p) is True for p in pre)]
            if out:
                return out
    return []


# ------------------------------------------------------------------ search for rarely taken branches
_steered = {}


class _Found(Exception):
    pass


def steer(b, g, pre):
    """valuations under which b has sign g, searched for by minimising over all its variables at once"""
    key = (b.id, g, tuple(sorted(c.id for c in pre if isinstance(c, C))))
    if key in _steered:
        return _steered[key]
    out = _steered[key] = []
    try:
        import numpy as np
        from scipy.optimize import minimize
    except ImportError:
        return out
    vs = sorted((v for v in D.variables([b]) if not v.integer or (v.lo > -INF and v.hi < INF)), key=lambda v: v.name)
    if not vs or len(vs) > 24:
        return out
    ns, cs = D.walk([b])
    if len(ns) > 4000:
        return out
    f = fcompile(b)
    if f is None:
        return out
    t0 = time.time()
    for k in (1, 5, 9):
        s0 = Sample(k)
        x0 = [float(s0.ev(v)) for v in vs]
        sc = [v.hi - v.lo if v.lo > -INF and v.hi < INF else abs(x) + 1e-9 for v, x in zip(vs, x0)]
        rest = {n.id: float(s0.ev(n)) for n in ns.values() if n.op == "var" and n.integer and n not in vs}
        bv = {c.id: s0.cond(c) for c in cs.values() if c.op in ("bvar", "streq")}
        best = [None, INF]

        def point(u):
            p = [min(max(x + s * min(max(float(w), -6.0), 6.0), v.lo), v.hi) for x, s, w, v in zip(x0, sc, u, vs)]
            return [float(round(z)) if v.integer else z for z, v in zip(p, vs)]

        def obj(u):
            p = point(u)
            r = dict(zip((v.id for v in vs), p))
            r.update(rest)
            y = f(r, bv)
            if y is None or y != y:
                return 1e300
            y = -g * y
            if y < best[1]:
                best[0], best[1] = list(u), y
                if y < 0:
                    s = Sample(k, fixed={v.id: mp.mpf(z) for v, z in zip(vs, p)})
                    e = s.ev(b)
                    if e is not None and int(mp.sign(e)) == g and all(s.cond(q) is True for q in pre):
                        out.append(s)
                        raise _Found()
            if time.time() - t0 > 2.5:
                raise TimeoutError()
            return y

        try:
            u0 = np.zeros(len(vs))
            r = minimize(obj, u0, method="Powell", options={"maxfev": 4000, "xtol": 1e-12, "ftol": 1e-14})
            minimize(obj, best[0], method="Nelder-Mead", options={"maxfev": 3000, "xatol": 1e-13, "fatol": 1e-15})
        except _Found:
            # walk back towards the start: the threshold is where a wrong shortcut is farthest off
            inside = best[0]
            lo, hi = 0.0, 1.0
            for _ in range(40):
                m = (lo + hi) / 2
                s = Sample(k, fixed={v.id: mp.mpf(z) for v, z in zip(vs, point([w * m for w in inside]))})
                e = s.ev(b)
                if e is not None and int(mp.sign(e)) == g:
                    hi = m
                else:
                    lo = m
            for m in (hi, hi + (1 - hi) * 0.01, hi + (1 - hi) * 0.5):
                s = Sample(k, fixed={v.id: mp.mpf(z) for v, z in zip(vs, point([w * m for w in inside]))})
                e = s.ev(b)
                if e is not None and int(mp.sign(e)) == g and all(s.cond(q) is True for q in pre):
                    out.append(s)
            break
        except TimeoutError:
            break
        except (ValueError, ArithmeticError, RuntimeError):
            continue
    return out


def fcompile(root):
    """a value number as straight-line floating-point code: used only to search, never to decide"""
    lines, done, cdone = [], {}, {}

    def cond(c):
        if isinstance(c, bool):
            return repr(c)
        if c.id in cdone:
            return cdone[c.id]
        if c.op == "sgn":
            x = "((%s>0)-(%s<0))" % (node(c.args[0]), node(c.args[0]))
            e = "(%s in %r)" % (x, tuple(c.args[1]))
        elif c.op in ("and", "or"):
            e = "(" + (" %s " % c.op).join(cond(x) for x in c.args) + ")"
        elif c.op == "not":
            e = "(not %s)" % cond(c.args[0])
        else:
            e = "B[%d]" % c.id
        nm = "c%d" % c.id
        lines.append(" %s = %s" % (nm, e))
        cdone[c.id] = nm
        return nm

    def node(n):
        return done[n.id]

    # iterative topological order
    order, st, seen = [], [(root, False)], set()
    while st:
        x, post = st.pop()
        if isinstance(x, (bool, int, str, tuple, frozenset)) or x is None:
            continue
        if post:
            order.append(x)
            continue
        k = (isinstance(x, C), x.id)
        if k in seen:
            continue
        seen.add(k)
        st.append((x, True))
        for a in x.args:
            if isinstance(a, (N, C)):
                st.append((a, False))
    for x in order:
        if isinstance(x, C):
            cond(x)
            continue
        n = x
        a = [done.get(y.id) if isinstance(y, N) else y for y in n.args]
        op = n.op
        if op == "const":
            e = repr(float(n.val))
        elif op == "var":
            e = "V[%d]" % n.id
        elif op == "add":
            e = "%s+%s" % tuple(a)
        elif op == "mul":
            e = "%s*%s" % tuple(a)
        elif op == "div":
            e = "%s/%s" % tuple(a)
        elif op == "ite":
            c = n.args[0]
            e = "(%s if %s else %s)" % (done[n.args[1].id], cond(c), done[n.args[2].id])
        elif op == "opq":
            e = "opq(%r,%s)" % (n.name, ",".join(a))
        else:
            f = n.name
            if f in ("powq", "pow"):
                e = "%s**%s" % (a[0], a[1])
            elif f == "asin" or f == "acos":
                e = "m.%s(min(1.0,max(-1.0,%s)))" % (f, a[0])
            elif f == "atan2":
                e = "m.atan2(%s,%s)" % (a[0], a[1])
            elif f in ("sin", "cos", "sqrt", "floor", "atan", "log", "exp", "sinh", "cosh", "tanh"):
                e = "m.%s(%s)" % (f, a[0])
            else:
                return None
        nm = "n%d" % n.id
        lines.append(" %s = %s" % (nm, e))
        done[n.id] = nm
    src = "def f(V, B):\n" + "\n".join(lines) + "\n return %s\n" % done[root.id]

    def opq(name, *xs):
        h = hashlib.sha256(("%s/%d" % (name, len(xs))).encode()).digest()
        v = h[31] / 100
        for i, xv in enumerate(xs):
            v += (1 + h[(i + 3) % 32] / 256.0) * math.sin(xv * (1 + h[i % 32] / 300.0) * 0.37 + h[(i + 7) % 32] / 40.0) + xv * (h[(i + 11) % 32] + 3) / 1000
        return v

    env = {"m": math, "opq": opq}
    try:
        exec(compile(src, "<graph>", "exec"), env)
    except (RecursionError, SyntaxError, MemoryError):
        return None
    g = env["f"]

    def run(V, B):
        try:
            y = g(V, B)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, KeyError):
            return None
        return y if not isinstance(y, complex) else None

    return run


def root(f, a, fa, c, fc):
    """a zero of f in a bracket: bisection, then false position, falling back to bisection when that stalls"""
    big = abs(fa) + abs(fc)
    m = fm = None
    side = 0
    for i in range(260):
        if i < 8 or i > 70:
            m = (a + c) / 2
        else:
            m = (fa * c - fc * a) / (fa - fc)
            if not (min(a, c) < m < max(a, c)):
                m = (a + c) / 2
        fm = f(m)
        if fm is None:
            return m, None
        if abs(fm) <= mp.mpf(10) ** -45 * big or abs(c - a) <= mp.mpf(10) ** -60 * (abs(a) + abs(c)):
            return m, fm
        if fa * fm < 0:
            c, fc = m, fm
            if side == -1:
                fa = fa / 2
            side = -1
        else:
            a, fa = m, fm
            if side == 1:
                fc = fc / 2
            side = 1
    return m, fm


def crossing(b, v, k, pre, boundary=True):
    base = Sample(k)
    x0 = base.var(v)
    lo = mp.mpf(v.lo) if v.lo > -INF else None
    hi = mp.mpf(v.hi) if v.hi < INF else None

    def at(x):
        s = Sample(k, fixed={v.id: x})
        return s, s.ev(b)

    pts = []
    if lo is not None and hi is not None:
        cand = [lo + (hi - lo) * mp.mpf(i) / 12 for i in range(13)] if boundary else [lo + (hi - lo) * (mp.mpf(i) + mp.mpf(0.37)) / 13 for i in range(13)]
    else:
        sc = abs(x0) + 1
        cand = [x0 + sc * mp.mpf(i) for i in (-64, -16, -6, -3, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 6, 16, 64)]
        cand += [mp.mpf(0)]
        if lo is not None:
            cand = [c for c in cand if c >= lo] + [lo]
        if hi is not None:
            cand = [c for c in cand if c <= hi] + [hi]
        cand.sort()
    prev = None
    for x in cand:
        s, y = at(x)
        if y is None:
            prev = None
            continue
        if y == 0:
            if boundary and all(s.cond(p) is True for p in pre):
                return [s]
            prev = None
            continue
        if prev is not None and prev[1] * y < 0:
            if not boundary:
                out = [at(x2)[0] for x2 in (prev[0], x)]
                out = [s for s in out if all(s.cond(p) is True for p in pre)]
                return out or None
            m, fm = root(lambda z: at(z)[1], prev[0], prev[1], x, y)
            if fm is None or abs(fm) > mp.mpf(10) ** -30 * (abs(prev[1]) + abs(y)):
                return None  # a jump, not a zero
            out = []
            for x2 in (prev[0], x):
                s2, _ = at(x2)
                out.append(s2)
            if boundary:
                out.append(Sample(k, fixed={v.id: m, b.id: mp.mpf(0)}))
                # and close by, where a narrow window may open
                for far in (prev[0], x):
                    for d in (mp.mpf(10) ** -3, mp.mpf(10) ** -8):
                        out.append(at(m + (far - m) * d)[0])
            out = [s for s in out if all(s.cond(p) is True for p in pre)]
            return out or None
        prev = (x, y)
    return None


# ------------------------------------------------------------------ proof by normal form
def prove(pairs, pre, budget):
    nf = NF()
    nf.A.deadline = time.time() + budget
    # inputs known positive etc. come from the ranges of the variables

    def leaf_equal(ps):
        for a, b in ps:
            if a is b:
                continue
            x, y = nf.rf(a), nf.rf(b)
            if not nf.A.eq(x, y):
                return False
        return True

    def rec(ps, facts, depth):
        if time.time() > nf.A.deadline:
            raise Overflow("time")
        ps = [(a, b) for a, b in ps if a is not b]
        if not ps:
            return True
        roots = [x for p in ps for x in p]
        _, cs = D.walk(roots)
        if not cs:
            return leaf_equal(ps)
        # an innermost condition: its base contains no further condition
        pick = None
        for c in sorted(cs.values(), key=lambda c: c.id):
            if c.op in ("and", "or", "not"):
                continue
            if c.op == "sgn":
                _, inner = D.walk([c.args[0]])
                if inner:
                    continue
            pick = c
            break
        if pick is None or depth > 14:
            raise Overflow("conditions")
        STATS["splits"] += 1
        if pick.op == "sgn":
            b = pick.args[0]
            cases = [D.sgn(b, (-1,)), D.sgn(b, (0,)), D.sgn(b, (1,))]
        else:
            cases = [pick, D.c_not(pick)]
        for i, f in enumerate(cases):
            if f is False:
                continue
            fs = facts + ([f] if isinstance(f, C) else [])
            memo = {}
            sub = [(D.restrict(a, fs, memo), D.restrict(b, fs, memo)) for a, b in ps]
            if pick.op == "sgn" and i == 1:
                if not rec_zero(sub, fs, pick.args[0], depth + 1):
                    return False
            elif not rec(sub, fs, depth + 1):
                return False
        return True

    def rec_zero(ps, fs, base, depth):
        """on the boundary base == 0: a difference divisible by the base vanishes there"""
        ps = [(a, b) for a, b in ps if a is not b]
        if not ps:
            return True
        _, cs = D.walk([x for p in ps for x in p])
        if cs:
            return rec(ps, fs, depth)
        zb = nf.rf(base)
        for a, b in ps:
            d = nf.A.sub(nf.rf(a), nf.rf(b))
            if d.is_zero() or nf.A.eq(nf.rf(a), nf.rf(b)):
                continue
            if zb.num and nf.A.p_divexact(d.num, zb.num) is not None:
                continue
            return False
        return True

    try:
        return rec(list(pairs), [c for c in pre if isinstance(c, C)], 0)
    except (AlgError, ZeroDivisionError, RecursionError, OverflowError):
        return False
