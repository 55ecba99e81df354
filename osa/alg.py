"""Algebraic value-number domain.

Every scalar definition of the analysed program is mapped to a canonical *value number*: a rational
function with exact coefficients over hash-consed atoms (program inputs, trigonometric / root / rounding
functions of other value numbers, and opaque results of boundary functions).  Two definitions with the same
normal form compute the same real number on every execution.  Nothing here runs program code and no solver
is involved: equality is syntactic equality of normal forms after cross-multiplication.

``sample`` evaluates a value number for a random valuation of its atoms (random interpretation, Gulwani and
Necula 2004).  It is used (a) as a hash when interning atoms and (b) to *confirm* a difference before it is
reported; it never turns a difference into agreement on its own without being counted as such.
"""
from __future__ import annotations

import cmath
import math
import random
import time
from fractions import Fraction as F

import mpmath as mp

mp.mp.dps = 70
TINY = F(1, 10**42)
RTOL = F(1, 10**11)


# ------------------------------------------------------------------ constants
def to_mp(fr):
    return mp.mpf(fr.numerator) / mp.mpf(fr.denominator)


def from_mp(x):
    x = mp.mpf(x)
    if x == 0:
        return F(0)
    s, m, e, _ = x._mpf_
    m = int(m)
    fr = F(m * (1 << e)) if e >= 0 else F(m, 1 << (-e))
    return -fr if s else fr


PI = from_mp(mp.pi)
TWO_PI = 2 * PI
E_CONST = from_mp(mp.e)


def rnd(fr):
    """limit the size of inexact coefficients (200+ significant bits are kept)"""
    d = fr.denominator
    if d.bit_length() > 420:
        return from_mp(to_mp(fr))
    return fr


def snap(fr):
    """constants produced by transcendental functions: snap to the nearby simple value"""
    if abs(fr) < F(1, 10**55):
        return F(0)
    for k in (1, 2, 4):
        n = round(fr * k)
        if abs(fr * k - n) < F(1, 10**55):
            return F(n, k)
    return fr


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "pos", "nonneg", "integer", "unit", "lo", "hi", "meta")

    def __init__(self, kind, name, args=(), nonneg=False, integer=False, unit=None, lo=-math.inf, hi=math.inf):
        self.kind, self.name, self.args = kind, name, args
        self.nonneg, self.integer, self.unit, self.lo, self.hi = nonneg, integer, unit, lo, hi
        self.meta = None


class AlgError(Exception):
    pass


class Overflow(AlgError):
    """the normal form grew beyond the bound"""


MAX_TERMS = 60000


class Ctx:
    """all interning tables of one analysis run"""

    def __init__(self):
        self.atoms = []
        self.rel = {}  # atom id -> (q, poly)   meaning atom**q == poly
        self.byname = {}
        self.buckets = {}
        self.factors = []
        self.fkey = {}
        self.samples = {}
        self.pos_facts = []  # polys asserted positive
        self.seed = 20240229
        self.deadline = None

    # -------------------------------------------------------- atoms
    def new_atom(self, a):
        a.id = len(self.atoms)
        self.atoms.append(a)
        return a

    def var(self, name, **kw):
        if name in self.byname:
            return self.byname[name]
        a = self.new_atom(Atom("var", name, **kw))
        self.byname[name] = a
        return a

    def intern_fn(self, kind, args, name=None, **kw):
        """hash-consing of function atoms modulo semantic equality of the arguments"""
        key = (kind, name, len(args))
        b = self.buckets.setdefault(key, [])
        for a in b:
            if all(self.eq(x, y) for x, y in zip(a.args, args)):
                return a
        a = self.new_atom(Atom(kind, name or kind, tuple(args), **kw))
        b.append(a)
        return a


# monomial: tuple of (atom_id, exp), sorted
ONE_M = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Algebra(Ctx):
    # -------------------------------------------------------- polynomials
    def p_const(self, c):
        c = F(c)
        return {ONE_M: c} if c else {}

    def p_atom(self, a):
        return {((a.id, 1),): F(1)}

    def p_clean(self, p):
        bad = [m for m, c in p.items() if -TINY < c < TINY]
        for m in bad:
            del p[m]
        return p

    def p_add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + (c if s == 1 else c * s)
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return self.p_clean(r)

    def p_scale(self, a, c):
        if c == 0:
            return {}
        return {m: rnd(v * c) for m, v in a.items()}

    def p_mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and ONE_M in a:
            return self.p_scale(b, a[ONE_M])
        if len(b) == 1 and ONE_M in b:
            return self.p_scale(a, b[ONE_M])
        if len(a) * len(b) > MAX_TERMS * 20:
            raise Overflow("product of %d x %d terms" % (len(a), len(b)))
        if self.deadline is not None and time.time() > self.deadline:
            raise Overflow("time")
        r = {}
        todo = []
        rel = self.rel
        dl = self.deadline
        for m1, c1 in a.items():
            if dl is not None and time.time() > dl:
                raise Overflow("time")
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                red = False
                for aid, e in m:
                    if e > 1 and aid in rel and e >= rel[aid][0]:
                        red = True
                        break
                if red:
                    todo.append((m, c))
                else:
                    r[m] = r.get(m, 0) + c
        steps = 0
        while todo:
            m, c = todo.pop()
            steps += 1
            if dl is not None and steps & 63 == 0 and time.time() > dl:
                raise Overflow("time")
            if len(todo) > 200000:
                raise Overflow("terms")
            for i, (aid, e) in enumerate(m):
                if aid in rel and e >= rel[aid][0]:
                    q, p = rel[aid]
                    k = e - q
                    base = m[:i] + (((aid, k),) if k else ()) + m[i + 1 :]
                    for m2, c2 in p.items():
                        mm = mono_mul(base, m2)
                        cc = rnd(c * c2)
                        if any(x in rel and y >= rel[x][0] for x, y in mm):
                            todo.append((mm, cc))
                        else:
                            r[mm] = r.get(mm, 0) + cc
                    break
        out = {}
        for m, c in r.items():
            c = rnd(c)
            if not (-TINY < c < TINY):
                out[m] = c
        if len(out) > MAX_TERMS:
            raise Overflow("%d terms" % len(out))
        return out

    def p_pow(self, a, n):
        r = self.p_const(1)
        for _ in range(n):
            r = self.p_mul(r, a)
        return r

    def p_lead(self, p):
        # deterministic leading monomial: highest total degree, then largest tuple
        return max(p, key=lambda m: (sum(e for _, e in m), m))

    def p_close(self, a, b):
        """coefficient-wise equality up to the rounding of program literals"""
        for m in a.keys() | b.keys():
            x = a.get(m, F(0))
            y = b.get(m, F(0))
            if x == y:
                continue
            if abs(x - y) > RTOL * max(abs(x), abs(y)):
                return False
        return True

    def p_content(self, p):
        """largest monomial dividing every term"""
        it = iter(p)
        first = dict(next(it))
        for m in it:
            d = dict(m)
            for k in list(first):
                e = d.get(k, 0)
                if e == 0:
                    del first[k]
                elif e < first[k]:
                    first[k] = e
            if not first:
                break
        return tuple(sorted(first.items()))

    def p_divmono(self, p, m):
        if not m:
            return p
        md = dict(m)
        r = {}
        for k, c in p.items():
            d = dict(k)
            for a, e in md.items():
                x = d[a] - e
                if x:
                    d[a] = x
                else:
                    del d[a]
            r[tuple(sorted(d.items()))] = c
        return r

    def p_divexact(self, p, f):
        """p / f when exact (ordinary polynomial division), else None"""
        if len(f) == 1:
            (m, c), = f.items()
            need = dict(m)
            for k in p:
                d = dict(k)
                for a, e in need.items():
                    if d.get(a, 0) < e:
                        return None
            return self.p_scale(self.p_divmono(p, m), 1 / c)
        if len(p) * len(f) > 60000 or len(p) < len(f):
            return None
        key = lambda m: (sum(e for _, e in m), m)
        # use a pure lexicographic-by-atom ordering consistent under multiplication
        atoms = sorted({a for m in p for a, _ in m} | {a for m in f for a, _ in m}, reverse=True)
        idx = {a: i for i, a in enumerate(atoms)}

        def vec(m):
            v = [0] * len(atoms)
            for a, e in m:
                v[idx[a]] = e
            return tuple(v)

        fp = {vec(m): c for m, c in f.items()}
        lf = max(fp)
        cf = fp[lf]
        rem = {vec(m): c for m, c in p.items()}
        q = {}
        steps = 0
        scale = max(abs(c) for c in rem.values())
        while rem:
            steps += 1
            if steps % 64 == 0 and self.deadline is not None and time.time() > self.deadline:
                raise Overflow("time")
            if steps > 4000:
                return None
            lr = max(rem)
            c = rem[lr]
            if abs(c) <= TINY * max(scale, 1):
                del rem[lr]
                continue
            dv = tuple(x - y for x, y in zip(lr, lf))
            if any(x < 0 for x in dv):
                return None
            k = rnd(c / cf)
            q[dv] = k
            for m, cc in fp.items():
                mm = tuple(x + y for x, y in zip(m, dv))
                v = rem.get(mm, 0) - k * cc
                if v == 0 or abs(v) < TINY:
                    rem.pop(mm, None)
                else:
                    rem[mm] = rnd(v)
            rem.pop(lr, None)
        out = {}
        for v, c in q.items():
            out[tuple(sorted((atoms[i], e) for i, e in enumerate(v) if e))] = c
        return out

    # -------------------------------------------------------- factors
    def factor_id(self, p):
        """p must be monic w.r.t. its leading monomial; returns interned id"""
        key = frozenset(p.items())
        i = self.fkey.get(key)
        if i is None:
            for j, f in enumerate(self.factors):
                if len(f) == len(p) and f.keys() == p.keys() and self.p_close(f, p):
                    self.fkey[key] = j
                    return j
            i = len(self.factors)
            self.factors.append(p)
            self.fkey[key] = i
        return i

    # -------------------------------------------------------- rational functions
    def const(self, c):
        return RF(self, self.p_const(c), ())

    def atom(self, a):
        return RF(self, self.p_atom(a), ())

    def den_poly(self, den):
        r = self.p_const(1)
        for f, e in den:
            r = self.p_mul(r, self.p_pow(self.factors[f], e))
        return r

    def cancel(self, num, den):
        if not num:
            return num, ()
        out = []
        for f, e in den:
            fp = self.factors[f]
            while e > 0:
                q = self.p_divexact(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                out.append((f, e))
        return num, tuple(out)

    def add(self, a, b, s=1):
        if a.den == b.den:
            num, den = self.p_add(a.num, b.num, s), a.den
            if den:
                num, den = self.cancel(num, den)
            return RF(self, num, den)
        da, db = dict(a.den), dict(b.den)
        l = dict(da)
        for f, e in db.items():
            l[f] = max(l.get(f, 0), e)
        ma = self.den_poly([(f, e - da.get(f, 0)) for f, e in l.items() if e > da.get(f, 0)])
        mb = self.den_poly([(f, e - db.get(f, 0)) for f, e in l.items() if e > db.get(f, 0)])
        num = self.p_add(self.p_mul(a.num, ma), self.p_mul(b.num, mb), s)
        num, den = self.cancel(num, tuple(sorted(l.items())))
        return RF(self, num, den)

    def sub(self, a, b):
        return self.add(a, b, -1)

    def mul(self, a, b):
        if not a.num or not b.num:
            return self.const(0)
        na, nb, da, db = a.num, b.num, a.den, b.den
        if db and da is not None:
            na, db = self.cancel(na, db)
        if da:
            nb, da = self.cancel(nb, da)
        d = dict(da)
        for f, e in db:
            d[f] = d.get(f, 0) + e
        num = self.p_mul(na, nb)
        num, den = self.cancel(num, tuple(sorted(d.items())))
        return RF(self, num, den)

    def scale(self, a, c):
        return RF(self, self.p_scale(a.num, F(c)), a.den if c else ())

    def inv(self, b):
        if not b.num:
            raise ZeroDivisionError
        m = self.p_content(b.num)
        p = self.p_divmono(b.num, m)
        num = self.den_poly(b.den)
        res = RF(self, num, ())
        lead = self.p_lead(p)
        c = p[lead]
        if c != 1:
            p = self.p_scale(p, 1 / c)
            res = self.scale(res, 1 / c)
        if not (len(p) == 1 and ONE_M in p):
            res = self.mul(res, RF(self, self.p_const(1), ((self.factor_id(p), 1),)))
        for aid, e in m:
            a = self.atoms[aid]
            if aid in self.rel and a.kind == "root":
                q, rp = self.rel[aid]
                for _ in range(e):
                    up = self.const(1)
                    for _ in range(q - 1):
                        up = self.mul(up, self.atom(a))
                    res = self.mul(self.mul(res, up), self.inv(RF(self, rp, ())))
            else:
                f = self.factor_id(self.p_atom(a))
                res = self.mul(res, RF(self, self.p_const(1), ((f, e),)))
        return res

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def powi(self, a, n):
        if n < 0:
            return self.powi(self.inv(a), -n)
        r = self.const(1)
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def eq_exact(self, a, b):
        if a is b:
            return True
        da, db = dict(a.den), dict(b.den)
        if da == db:
            return self.p_close(a.num, b.num)
        l = dict(da)
        for f, e in db.items():
            l[f] = max(l.get(f, 0), e)
        ma = self.den_poly([(f, e - da.get(f, 0)) for f, e in l.items() if e > da.get(f, 0)])
        mb = self.den_poly([(f, e - db.get(f, 0)) for f, e in l.items() if e > db.get(f, 0)])
        return self.p_close(self.p_mul(a.num, ma), self.p_mul(b.num, mb))

    def eq(self, a, b):
        if a is b:
            return True
        if a.num == b.num and a.den == b.den:
            return True
        fa, fb = a.fp(), b.fp()
        if fa is not None and fb is not None:
            if abs(fa - fb) > 1e-6 * max(abs(fa), abs(fb)) + 1e-9 * a.fscale():
                return False
        return self.eq_exact(a, b)

    # -------------------------------------------------------- signs
    def p_sign(self, p):
        """'+' strictly positive, '0+' non-negative, '-', '0-', or None"""
        if not p:
            return "0"
        for sgn, names in ((1, ("+", "0+")), (-1, ("-", "0-"))):
            ok, strict = True, False
            for m, c in p.items():
                if c * sgn < 0:
                    ok = False
                    break
                st = True
                for aid, e in m:
                    a = self.atoms[aid]
                    if a.lo > 0:
                        continue
                    if a.nonneg or a.lo >= 0 or e % 2 == 0:
                        st = False
                        continue
                    ok = False
                    break
                if not ok:
                    break
                strict = strict or st
            if ok:
                return names[0] if strict else names[1]
        for f in self.pos_facts:
            if self.p_close(f, p):
                return "+"
            if self.p_close(self.p_scale(f, -1), p):
                return "-"
        return None

    def sign(self, a):
        s = self.p_sign(a.num)
        if s is None:
            r = self.range_of_linear(a)
            if r:
                lo, hi = r
                if lo > 0:
                    return "+"
                if lo >= 0:
                    return "0+"
                if hi < 0:
                    return "-"
                if hi <= 0:
                    return "0-"
            return None
        for f, e in a.den:
            if e % 2:
                t = self.p_sign(self.factors[f])
                if t in ("+", "0+"):
                    continue
                if t in ("-", "0-"):
                    s = {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "0": "0"}[s]
                    continue
                return None
        return s

    def range_of_linear(self, a):
        """interval of a polynomial from the intervals of its atoms (sum of monomial ranges)"""
        if a.den or len(a.num) > 12:
            return None
        lo = hi = 0.0
        for m, c in a.num.items():
            l = h = float(c)
            for aid, e in m:
                at = self.atoms[aid]
                x, y = at.lo, at.hi
                if at.nonneg:
                    x = max(x, 0.0)
                for _ in range(e):
                    c4 = [mulf(l, x), mulf(l, y), mulf(h, x), mulf(h, y)]
                    l, h = min(c4), max(c4)
            lo += l
            hi += h
        if math.isnan(lo) or math.isnan(hi):
            return None
        return lo, hi

    # -------------------------------------------------------- functions
    def root(self, q, a):
        """q-th root; returns (rf, [rf to be taken absolute])"""
        if a.is_const():
            c = a.cval()
            if c < 0 and q % 2 == 0:
                raise AlgError("even root of negative constant")
            s = -1 if c < 0 else 1
            return self.const(snap(s * from_mp(mp.root(to_mp(abs(c)), q)))), []
        m = self.p_content(a.num)
        p = self.p_divmono(a.num, m)
        out = self.const(1)
        absl = []
        inside = p
        for aid, e in m:
            at = self.atoms[aid]
            k, r = divmod(e, q)
            if k:
                x = self.powi(self.atom(at), k)
                if q % 2 == 0 and k % 2 and not (at.nonneg or at.lo >= 0):
                    absl.append(x)
                else:
                    out = self.mul(out, x)
            if r:
                inside = self.p_mul(inside, {((aid, r),): F(1)})
        for f, e in a.den:
            fp = self.factors[f]
            k, r = divmod(e, q)
            if r:
                inside = self.p_mul(inside, self.p_pow(fp, q - r))
                k += 1
            x = self.inv(RF(self, self.p_pow(fp, k), ()))
            if q % 2 == 0 and k % 2 and self.p_sign(fp) not in ("+", "0+"):
                absl.append(x)
            else:
                out = self.mul(out, x)
        # the products above may have introduced relations; take content again
        m2 = self.p_content(inside) if inside else ()
        if any(e >= q for _, e in m2):
            r2, ab2 = self.root(q, RF(self, inside, ()))
            return self.mul(out, r2), absl + ab2
        lead = inside[self.p_lead(inside)]
        c = abs(lead)
        if q % 2 == 1 and lead < 0:
            c = lead
        inside = self.p_scale(inside, 1 / c)
        rc = from_mp(mp.root(to_mp(abs(c)), q))
        out = self.scale(out, snap(rc if c > 0 else -rc))
        if len(inside) == 1 and inside.get(ONE_M) == 1:
            return out, absl
        if q == 2 and 1 < len(inside) <= 15:
            s = self.p_sqrt(inside)
            if s is not None:
                rf = RF(self, s, ())
                if self.p_sign(s) in ("+", "0+"):
                    return self.mul(out, rf), absl
                return out, absl + [rf]
        arg = RF(self, inside, ())
        at = self.intern_fn("root", (arg,), name="root%d" % q, nonneg=(q % 2 == 0), lo=0.0 if q % 2 == 0 else -math.inf)
        if at.id not in self.rel:
            self.rel[at.id] = (q, inside)
            if q % 2 == 1 and self.p_sign(inside) in ("+", "0+"):
                at.nonneg, at.lo = True, 0.0
        return self.mul(out, self.atom(at)), absl

    def p_sqrt(self, p):
        """polynomial square root when p is a perfect square"""
        lead = self.p_lead(p)
        if any(e % 2 for _, e in lead) or p[lead] <= 0:
            return None
        if any(aid in self.rel for m in p for aid, _ in m):
            return None
        c = snap(from_mp(mp.sqrt(to_mp(p[lead]))))
        s = {tuple((a, e // 2) for a, e in lead): c}
        l0 = next(iter(s))
        for _ in range(len(p)):
            r = self.p_add(p, self.p_mul(s, s), -1)
            if not r:
                return s
            lr = self.p_lead(r)
            d = dict(lr)
            for a, e in l0:
                d[a] = d.get(a, 0) - e
            if any(e < 0 for e in d.values()):
                return None
            m = tuple(sorted((a, e) for a, e in d.items() if e))
            if m in s:
                return None
            s = self.p_add(s, {m: r[lr] / (2 * c)})
        return s if not self.p_add(p, self.p_mul(s, s), -1) else None

    def sincos_base(self, arg):
        """(sin, cos) atoms of an opaque angle"""
        s = self.intern_fn("sin", (arg,), lo=-1.0, hi=1.0)
        c = self.intern_fn("cos", (arg,), lo=-1.0, hi=1.0)
        if c.id not in self.rel:
            s2 = {((s.id, 2),): F(1)}
            self.rel[c.id] = (2, self.p_add(self.p_const(1), s2, -1))
        return self.atom(s), self.atom(c)

    def sc_add(self, x, y):
        (s1, c1), (s2, c2) = x, y
        return (
            self.add(self.mul(s1, c2), self.mul(c1, s2)),
            self.sub(self.mul(c1, c2), self.mul(s1, s2)),
        )

    def sc_mult(self, k, sc):
        if k < 0:
            s, c = self.sc_mult(-k, sc)
            return self.scale(s, -1), c
        r = (self.const(0), self.const(1))
        for _ in range(k):
            r = self.sc_add(r, sc)
        return r

    def sc_const(self, c):
        x = to_mp(c)
        return self.const(snap(from_mp(mp.sin(x)))), self.const(snap(from_mp(mp.cos(x))))

    def sc_inverse(self, a):
        """(sin, cos) of an inverse-trigonometric atom"""
        if a.kind == "atan2":
            y, x = a.args
            h, ab = self.root(2, self.add(self.mul(x, x), self.mul(y, y)))
            if ab:
                return None
            i = self.inv(h)
            return self.mul(y, i), self.mul(x, i)
        x = a.args[0]
        w, ab = self.root(2, self.sub(self.const(1), self.mul(x, x)))
        if ab:
            return None
        if a.kind == "asin":
            return x, w
        if a.kind == "acos":
            return w, x
        if a.kind == "atan":
            h, ab = self.root(2, self.add(self.const(1), self.mul(x, x)))
            i = self.inv(h)
            return self.mul(x, i), i
        return None

    def sincos(self, a):
        if a.is_const():
            return self.sc_const(a.cval())
        res = (self.const(0), self.const(1))
        rest = {}
        c0 = F(0)
        if not a.den:
            for m, c in a.num.items():
                if m == ONE_M:
                    c0 = c
                    continue
                ats = [(self.atoms[i], e) for i, e in m]
                if all(t.integer for t, _ in ats):
                    k = c / TWO_PI
                    if abs(k - round(k)) < F(1, 10**12) and round(k) != 0:
                        continue  # whole turns
                if len(ats) == 1 and ats[0][1] == 1 and ats[0][0].kind in ("atan2", "asin", "acos", "atan"):
                    if c.denominator == 1 and abs(c) <= 8:
                        sc = self.sc_inverse(ats[0][0])
                        if sc is not None:
                            res = self.sc_add(res, self.sc_mult(int(c), sc))
                            continue
                rest[m] = c
        else:
            rest = dict(a.num)
            # constant part of a fraction stays inside the fraction
        # constant: whole turns vanish, quarter turns are shifted, everything else stays in the angle
        if c0:
            k = c0 / TWO_PI
            n = round(k)
            if n and abs(k - n) < F(1, 10**14):
                c0 = F(0)
        if c0:
            q4 = c0 / (PI / 2)
            if abs(q4 - round(q4)) < F(1, 10**14):
                res = self.sc_add(res, self.sc_const(c0))
                c0 = F(0)
        if rest:
            ints = all(c.denominator == 1 and abs(c) <= 8 for c in rest.values())
            if ints and len(rest) <= 4 and not (c0 and a.den):
                for m, c in rest.items():
                    base = RF(self, {m: F(1)}, a.den)
                    res = self.sc_add(res, self.sc_mult(int(c), self.sincos_base(base)))
                if c0:
                    res = self.sc_add(res, self.sc_const(c0))
            else:
                p = dict(rest)
                if c0:
                    p[ONE_M] = c0
                ang = RF(self, p, a.den)
                sg = 1
                if p[self.p_lead(p)] < 0:
                    ang, sg = self.scale(ang, -1), -1
                k, base = self.multiple_of_known(ang)
                res = self.sc_add(res, self.sc_mult(sg * k, self.sincos_base(base)))
        elif c0:
            res = self.sc_add(res, self.sc_const(c0))
        return res

    def multiple_of_known(self, ang):
        for at in self.buckets.get(("sin", None, 1), []):
            b = at.args[0]
            fa, fb = ang.fp(), b.fp()
            if fa is None or fb is None or abs(fb) < 1e-12:
                continue
            r = fa / fb
            k = round(r.real)
            if 2 <= k <= 6 and abs(r - k) < 1e-6 and self.eq(ang, self.scale(b, k)):
                return k, b
        return 1, ang

    def atan2(self, y, x):
        if y.is_const() and x.is_const():
            return self.const(snap(from_mp(mp.atan2(to_mp(y.cval()), to_mp(x.cval())))))
        sy = self.sign(y)
        # common positive factor: try to unify with an existing atom of the same direction
        for at in self.buckets.get(("atan2", None, 2), []):
            y2, x2 = at.args
            if self.eq(y, y2) and self.eq(x, x2):
                return self.atom(at)
            if self.eq(self.mul(y, x2), self.mul(y2, x)):
                for u, v in ((y, y2), (x, x2)):
                    if v.num and u.num:
                        s = self.sign(self.div(u, v))
                        if s in ("+", "0+"):
                            return self.atom(at)
                        break
        lo, hi = -math.pi, math.pi
        if sy in ("+", "0+"):
            lo = 0.0
        sx = self.sign(x)
        if sx in ("+", "0+"):
            lo, hi = max(lo, -math.pi / 2), math.pi / 2
        at = self.intern_fn("atan2", (y, x), lo=lo, hi=hi, nonneg=lo >= 0)
        return self.atom(at)

    def inverse_trig(self, kind, x):
        if x.is_const():
            f = {"asin": mp.asin, "acos": mp.acos, "atan": mp.atan}[kind]
            v = f(to_mp(x.cval()))
            if isinstance(v, mp.mpc):
                raise AlgError("%s of constant outside [-1,1]" % kind)
            return self.const(snap(from_mp(v)))
        if kind == "asin":
            # odd function
            if x.num[self.p_lead(x.num)] < 0:
                return self.scale(self.inverse_trig(kind, self.scale(x, -1)), -1)
            lo, hi = -math.pi / 2, math.pi / 2
        elif kind == "acos":
            lo, hi = 0.0, math.pi
        else:
            lo, hi = -math.pi / 2, math.pi / 2
        s = self.sign(x)
        if s in ("+", "0+"):
            if kind == "acos":
                hi = math.pi / 2
            else:
                lo = 0.0
        return self.atom(self.intern_fn(kind, (x,), lo=lo, hi=hi, nonneg=lo >= 0))

    def log(self, x):
        if x.is_const():
            return self.const(snap(from_mp(mp.log(to_mp(x.cval())))))
        return self.atom(self.intern_fn("log", (x,)))

    def exp(self, x):
        if x.is_const():
            return self.const(snap(from_mp(mp.exp(to_mp(x.cval())))))
        return self.atom(self.intern_fn("exp", (x,), lo=5e-324, nonneg=True))

    def floor(self, x, kind="floor"):
        if x.is_const():
            c = x.cval()
            near = round(c)
            if abs(c - near) < F(1, 10**50):
                c = F(near)
            return self.const(math.floor(c) if kind == "floor" else math.ceil(c))
        # integer parts move outside
        out = self.const(0)
        if not x.den:
            rest, intp = {}, {}
            for m, c in x.num.items():
                if c.denominator == 1 and all(self.atoms[a].integer for a, _ in m):
                    intp[m] = c
                else:
                    rest[m] = c
            if intp:
                out = RF(self, intp, ())
                x = RF(self, rest, ())
                if not rest:
                    return out
        if kind == "ceil":
            return self.sub(out, self.floor(self.scale(x, -1)))
        return self.add(out, self.atom(self.intern_fn("floor", (x,), integer=True)))

    def powr(self, base, ex):
        """general power with non-rational exponent"""
        return self.atom(self.intern_fn("pow", (base, ex), lo=5e-324, nonneg=True))

    # -------------------------------------------------------- sampling
    def sample_atom(self, aid, k, prec=False):
        key = (aid, k, prec)
        v = self.samples.get(key)
        if v is not None:
            return v
        a = self.atoms[aid]
        M = mp if prec else cmath
        if a.kind == "opq" and a.args:
            v = sum((x.sample(k, prec) * (0.37 + 0.11 * i) for i, x in enumerate(a.args)), 0.7 + (sum(map(ord, a.name)) % 97) / 50)
            v = (v * v + 0.3) if not prec else mp.mpc(v * v + 0.3)
        elif a.kind in ("var", "opq", "mu"):
            forced = self.samples.get(("force", k, aid))
            if forced is not None:
                v = forced
            else:
                rng = random.Random("%s|%s|%d" % (self.seed, aid, k))
                if a.integer:
                    lo = -9 if a.lo == -math.inf else max(a.lo, -9)
                    hi = 9 if a.hi == math.inf else min(a.hi, 9)
                    v = rng.randint(int(max(lo, 0 if a.nonneg else lo)), int(hi))
                elif a.lo > -math.inf and a.hi < math.inf:
                    v = rng.uniform(a.lo, a.hi)
                else:
                    v = rng.uniform(0.37, 2.9)
                    if a.lo > -math.inf:
                        v += max(a.lo, 0.0)
                    elif a.hi < math.inf:
                        v = a.hi - v
                    elif not a.nonneg and rng.random() < 0.4:
                        v = -v
            v = mp.mpc(v) if prec else complex(v)
        else:
            ar = [x.sample(k, prec) for x in a.args]
            kind = a.kind
            if kind == "sin":
                v = M.sin(ar[0])
            elif kind == "cos":
                v = M.cos(ar[0])
            elif kind == "root":
                q = self.rel[aid][0] if aid in self.rel else int(a.name[4:])
                if q == 2:
                    v = M.sqrt(ar[0])
                else:
                    z = ar[0]
                    if abs(z.imag) < 1e-30 and z.real < 0:
                        v = -((-z) ** (1 / (mp.mpf(q) if prec else q)))
                    else:
                        v = z ** ((mp.mpf(1) / q) if prec else 1.0 / q)
            elif kind == "atan2":
                y, x = ar
                if abs(y.imag) > 1e-9 or abs(x.imag) > 1e-9:
                    h = M.sqrt(x * x + y * y)
                    v = -1j * M.log((x + 1j * y) / h)
                else:
                    v = mp.mpc(mp.atan2(y.real, x.real)) if prec else complex(math.atan2(y.real, x.real))
            elif kind == "asin":
                v = M.asin(ar[0])
            elif kind == "acos":
                v = M.acos(ar[0])
            elif kind == "atan":
                v = M.atan(ar[0])
            elif kind == "log":
                v = M.log(ar[0])
            elif kind == "exp":
                v = M.exp(ar[0])
            elif kind == "pow":
                v = ar[0] ** ar[1]
            elif kind == "abs":
                v = M.sqrt(ar[0] * ar[0])
            elif kind == "floor":
                v = mp.mpc(mp.floor(ar[0].real)) if prec else complex(math.floor(ar[0].real))
            else:
                raise AlgError("sample " + kind)
        self.samples[key] = v
        return v

    def clear_forced(self):
        self.samples = {k: v for k, v in self.samples.items() if k[0] != "force" and k[1] < 100}

    def describe(self, a, limit=6):
        return a.text(limit)


def mulf(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


class RF:
    """rational function value number"""

    __slots__ = ("A", "num", "den", "_fp", "_fs")

    def __init__(self, A, num, den):
        self.A, self.num, self.den = A, num, (den if num else ())
        self._fp = 0
        self._fs = None

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and ONE_M in self.num))

    def cval(self):
        return self.num.get(ONE_M, F(0))

    def is_zero(self):
        return not self.num

    def sample(self, k, prec=False):
        A = self.A
        if prec:
            tot = mp.mpc(0)
            conv = to_mp
        else:
            tot = 0j
            conv = float
        for m, c in self.num.items():
            t = conv(c)
            for aid, e in m:
                t = t * A.sample_atom(aid, k, prec) ** e
            tot += t
        for f, e in self.den:
            d = RF(A, A.factors[f], ()).sample(k, prec)
            tot = tot / d**e
        return tot

    def fp(self):
        if self._fp == 0:
            try:
                self._fp = self.sample(0)
            except (OverflowError, ZeroDivisionError, ValueError):
                self._fp = None
        return self._fp

    def fscale(self):
        """magnitude of the largest term, to judge cancellation"""
        if self._fs is None:
            A = self.A
            best = 0.0
            try:
                for m, c in self.num.items():
                    t = abs(float(c))
                    for aid, e in m:
                        t *= abs(A.sample_atom(aid, 0)) ** e
                    best = max(best, t)
                for f, e in self.den:
                    d = abs(RF(A, A.factors[f], ()).sample(0)) ** e
                    best = best / d
            except (OverflowError, ZeroDivisionError, ValueError):
                best = 0.0
            self._fs = best
        return self._fs

    def atoms(self):
        s = set()
        for m in self.num:
            s.update(a for a, _ in m)
        for f, _ in self.den:
            for m in self.A.factors[f]:
                s.update(a for a, _ in m)
        return s

    def deep_atoms(self, seen=None):
        seen = set() if seen is None else seen
        for a in self.atoms():
            if a not in seen:
                seen.add(a)
                for x in self.A.atoms[a].args:
                    x.deep_atoms(seen)
        return seen

    def text(self, limit=6):
        A = self.A

        def at(i):
            a = A.atoms[i]
            if a.args:
                return "%s(%s)" % (a.name, ", ".join(x.text(3) for x in a.args))
            return a.name

        def poly(p, lim):
            if not p:
                return "0"
            out = []
            for n, (m, c) in enumerate(sorted(p.items(), key=lambda z: z[0])):
                if n >= lim:
                    out.append("...(%d terms)" % len(p))
                    break
                cs = "%g" % float(c)
                ms = "*".join(at(i) + ("^%d" % e if e > 1 else "") for i, e in m)
                out.append(ms if cs == "1" and ms else (cs + ("*" + ms if ms else "")))
            return " + ".join(out)

        s = poly(self.num, limit)
        if self.den:
            s = "(%s)/(%s)" % (s, "*".join("(%s)%s" % (poly(A.factors[f], limit), "^%d" % e if e > 1 else "") for f, e in self.den))
        return s

    def __repr__(self):
        return self.text()
