"""Value-number graph.

Every scalar the analysed program can compute is a node of one hash-consed graph: constants, program inputs,
arithmetic, elementary functions and gated joins (``ite``: the phi function of gated SSA form, labelled with the
branch condition).  Conditions are nodes too.  The graph is what the dataflow analysis propagates; it never holds
a path, only joined values.
"""
from __future__ import annotations

import math
from fractions import Fraction as F

from .alg import E_CONST, PI, from_mp, snap, to_mp
import mpmath as mp

INF = math.inf


class DagError(Exception):
    pass


class N:
    """numeric value number"""

    __slots__ = ("op", "args", "val", "id", "integer", "name", "lo", "hi", "scale", "meta", "_vars")

    def __repr__(self):
        return show(self)

    # operators so that reference equations can be written as ordinary expressions
    def __add__(self, o):
        return add(self, num(o))

    def __radd__(self, o):
        return add(num(o), self)

    def __sub__(self, o):
        return sub(self, num(o))

    def __rsub__(self, o):
        return sub(num(o), self)

    def __mul__(self, o):
        return mul(self, num(o))

    def __rmul__(self, o):
        return mul(num(o), self)

    def __truediv__(self, o):
        return div(self, num(o))

    def __rtruediv__(self, o):
        return div(num(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, o):
        return power(self, num(o))

    def __mod__(self, o):
        return mod(self, num(o))

    def is_const(self):
        return self.op == "const"


class C:
    """condition: op in sgn(base,set) | and | or | not | bvar | streq"""

    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return showc(self)


_tab = {}
_ctab = {}
_nodes = []
_cid = [0]


def reset():
    _tab.clear()
    _ctab.clear()
    for m in (_nots, _ands, _ors, _imps):
        m.clear()
    _nodes.clear()
    _cid[0] = 0
    _fresh.clear()


_fresh = {}


def _mk(op, args, val=None, integer=False, name=None, lo=-INF, hi=INF, scale=None):
    key = (op, tuple(a.id for a in args), val, name)
    if op == "var":
        key += (integer, lo, hi, scale)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op, n.args, n.val, n.integer, n.name = op, args, val, integer, name
        n.lo, n.hi, n.scale, n.meta, n._vars = lo, hi, scale, None, None
        n.id = len(_nodes)
        _nodes.append(n)
        _tab[key] = n
    return n


class _Args(tuple):
    pass


def const(v):
    if isinstance(v, N):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = lit(v)
    v = F(v)
    return _mk("const", (), v, v.denominator == 1)


num = const


def lit(x):
    """exact value of a float literal (its decimal text), with the usual irrational constants recognised"""
    if x != x or x in (INF, -INF):
        raise DagError("non-finite literal")
    for k in (1, 2, -1, -2):
        if x == float(k * PI):
            return k * PI
    if x == float(E_CONST):
        return E_CONST
    return F(repr(x)) if not float(x).is_integer() or abs(x) > 1e15 else F(int(x))


def var(name, lo=-INF, hi=INF, integer=False, scale=None):
    return _mk("var", (), None, integer, name, float(lo), float(hi), None if scale == 1.0 else scale)


def fresh(prefix, **kw):
    k = _fresh[prefix] = _fresh.get(prefix, 0) + 1
    return var("%s#%d" % (prefix, k), **kw)


ZERO = lambda: const(0)


def add(a, b):
    if a.op == "const":
        if b.op == "const":
            return const(a.val + b.val)
        if a.val == 0:
            return b
    elif b.op == "const" and b.val == 0:
        return a
    if a is b:
        return mul(const(2), a)
    if (a.op == "mul" and a.args[0].op == "const" and a.args[0].val == -1 and a.args[1] is b) or (
        b.op == "mul" and b.args[0].op == "const" and b.args[0].val == -1 and b.args[1] is a
    ):
        return const(0)
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b), integer=a.integer and b.integer)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, neg(b))


def mul(a, b):
    if b.op == "const" and a.op != "const":
        a, b = b, a
    if a.op == "const":
        if b.op == "const":
            return const(a.val * b.val)
        if a.val == 0:
            return a
        if a.val == 1:
            return b
        if b.op == "mul" and b.args[0].op == "const":
            return mul(const(a.val * b.args[0].val), b.args[1])
    else:
        # pull constants to the front
        if a.op == "mul" and a.args[0].op == "const":
            return mul(a.args[0], mul(a.args[1], b))
        if b.op == "mul" and b.args[0].op == "const":
            return mul(b.args[0], mul(a, b.args[1]))
        for x, y in ((a, b), (b, a)):
            if y.op == "div" and y.args[1] is x and y.args[0].op == "const":
                lo, hi = quick_iv(x)
                if lo > 0 or hi < 0:
                    return y.args[0]
        if a.id > b.id:
            a, b = b, a
    return _mk("mul", (a, b), integer=a.integer and b.integer)


def div(a, b):
    if b.op == "const":
        if b.val == 0:
            raise ZeroDivisionError
        return mul(const(1 / b.val), a)
    if a.op == "const" and a.val == 0:
        return a
    if a is b:
        return const(1)
    if a.op == "mul" and a.args[0].op == "const":
        return mul(a.args[0], div(a.args[1], b))
    if b.op == "mul" and b.args[0].op == "const":
        return mul(const(1 / b.args[0].val), div(a, b.args[1]))
    return _mk("div", (a, b))


def power(a, b):
    if b.op == "const":
        e = b.val
        if e.denominator > 64:
            for d in range(1, 33):
                k = round(e * d)
                if abs(e * d - k) < F(1, 10**13):
                    e = F(k, d)
                    break
        if e == 0:
            return const(1)
        if e == 1:
            return a
        if a.op == "const":
            if e.denominator == 1:
                if a.val == 0 and e < 0:
                    raise ZeroDivisionError
                if abs(e) < 400:
                    return const(a.val ** int(e))
            if a.val < 0:
                raise DagError("fractional power of a negative constant")
            return const(snap(from_mp(mp.power(to_mp(a.val), to_mp(e)))))
        if e.denominator == 1 and 0 < e <= 12:
            r = None
            base, k = a, int(e)
            while k:
                if k & 1:
                    r = base if r is None else mul(r, base)
                k >>= 1
                if k:
                    base = mul(base, base)
            return r
        if e.denominator == 1 and -12 <= e < 0:
            return div(const(1), power(a, const(-e)))
        if e == F(1, 2):
            return fn("sqrt", a)
        return _mk("fn", (a, const(e)), name="powq")
    if a.op == "const" and abs(a.val - E_CONST) < F(1, 10**14):
        return fn("exp", b)
    return _mk("fn", (a, b), name="pow")


def floor(a):
    if a.op == "const":
        return const(_cfloor(a.val))
    if a.integer:
        return a
    return _mk("fn", (a,), integer=True, name="floor")


def _cfloor(v):
    n = round(v)
    if abs(v - n) < F(1, 10**40):
        return n
    return math.floor(v)


def ceil(a):
    return neg(floor(neg(a)))


def mod(a, b):
    return sub(a, mul(b, floor(div(a, b))))


_MPF = {
    "sin": mp.sin, "cos": mp.cos, "atan": mp.atan, "asin": mp.asin, "acos": mp.acos, "log": mp.log, "exp": mp.exp,
    "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
}


def fn(name, *args):
    if all(a.op == "const" for a in args):
        xs = [to_mp(a.val) for a in args]
        if name == "sqrt":
            if xs[0] < 0:
                raise DagError("sqrt of negative constant")
            return const(snap(from_mp(mp.sqrt(xs[0]))))
        if name == "atan2":
            return const(snap(from_mp(mp.atan2(*xs))))
        if name in _MPF:
            v = _MPF[name](xs[0])
            if isinstance(v, mp.mpc):
                raise DagError("%s domain" % name)
            return const(snap(from_mp(v)))
    if name == "sqrt" and args[0].op == "mul" and args[0].args[0] is args[0].args[1]:
        return absv(args[0].args[0])
    return _mk("fn", tuple(args), name=name)


def sin(a):
    return fn("sin", num(a))


def cos(a):
    return fn("cos", num(a))


def tan(a):
    a = num(a)
    return div(sin(a), cos(a))


def sqrt(a):
    return fn("sqrt", num(a))


def atan2(a, b):
    return fn("atan2", num(a), num(b))


def radians(a):
    return mul(const(PI / 180), num(a))


def absv(a):
    if a.op == "const":
        return const(abs(a.val))
    lo, hi = quick_iv(a)
    if lo >= 0:
        return a
    return ite(cmp_("<", a, const(0)), neg(a), a)


def opq(name, *args, **kw):
    """opaque (uninterpreted) function application"""
    return _mk("opq", tuple(args), name=name, **kw)


# ------------------------------------------------------------------ conditions
def _mkc(op, args):
    key = (op,) + tuple((a.id if isinstance(a, (N, C)) else a) for a in args)
    key = (op, tuple(type(a).__name__ for a in args), key)
    c = _ctab.get(key)
    if c is None:
        c = C()
        c.op, c.args = op, args
        _cid[0] += 1
        c.id = _cid[0]
        _ctab[key] = c
    return c


SETS = {"<": (-1,), "<=": (-1, 0), ">": (1,), ">=": (0, 1), "==": (0,), "!=": (-1, 1)}
FULL = (-1, 0, 1)


def cmp_(op, a, b):
    st = SETS[op]
    if a.op != "const" and b.op != "const" and a.id > b.id or a.op == "const":
        a, b = b, a
        st = tuple(sorted(-x for x in st))
    return sgn(sub(a, b), st)


def sgn(base, st):
    st = tuple(sorted(st))
    if st == FULL:
        return True
    if not st:
        return False
    if base.op == "const":
        s = (base.val > 0) - (base.val < 0)
        return s in st
    # normalise the sign and the positive scale
    if base.op == "mul" and base.args[0].op == "const":
        if base.args[0].val < 0:
            st = tuple(sorted(-x for x in st))
        base = base.args[1]
    elif base.op == "add":
        # choose the sign so that the operand with the smaller id has coefficient > 0
        a = base.args[0] if base.args[0].op != "const" else base.args[1]
        if a.op == "mul" and a.args[0].op == "const" and a.args[0].val < 0:
            base = add(neg(base.args[0]), neg(base.args[1]))
            st = tuple(sorted(-x for x in st))
    lo, hi = quick_iv(base)
    poss = tuple(s for s in FULL if (s == -1 and lo < 0) or (s == 0 and lo <= 0 <= hi) or (s == 1 and hi > 0))
    if set(poss) <= set(st):
        return True
    if not (set(poss) & set(st)):
        return False
    return _mkc("sgn", (base, st))


def quick_iv(n):
    """cheap interval used only to fold conditions on integer counters and obviously signed values"""
    if n.op == "const":
        f = float(n.val)
        return f, f
    if n.op == "var":
        return n.lo, n.hi
    if n.meta is not None and "iv" in n.meta:
        return n.meta["iv"]
    r = (-INF, INF)
    if n.op == "mul":
        a, b = n.args
        if a is b:
            x, y = quick_iv(a)
            m = max(abs(x), abs(y))
            r = (0.0, m * m if m < 1e100 else INF)
        elif a.op == "const":
            x, y = quick_iv(b)
            k = float(a.val)
            r = (k * x if x not in (INF, -INF) else (x if k > 0 else -x), k * y if y not in (INF, -INF) else (y if k > 0 else -y))
            r = (min(r), max(r))
        else:
            (p, q), (x, y) = quick_iv(a), quick_iv(b)
            if p >= 0 and x >= 0:
                r = (0.0 if not (p > 0 and x > 0) else 5e-324, INF)
    elif n.op == "add":
        (p, q), (x, y) = quick_iv(n.args[0]), quick_iv(n.args[1])
        r = (p + x, q + y)
    elif n.op == "fn":
        if n.name in ("sin", "cos"):
            r = (-1.0, 1.0)
        elif n.name in ("sqrt",):
            r = (0.0, INF)
        elif n.name == "exp":
            r = (5e-324, INF)
        elif n.name == "floor":
            x, y = quick_iv(n.args[0])
            r = (math.floor(x) if x > -INF else x, math.floor(y) if y < INF else y)
    elif n.op == "ite":
        (p, q), (x, y) = quick_iv(n.args[1]), quick_iv(n.args[2])
        c = n.args[0]
        if isinstance(c, C) and c.op == "sgn":
            p, q = _ref(c.args[0], c.args[1], n.args[1], p, q)
            x, y = _ref(c.args[0], tuple(s for s in FULL if s not in c.args[1]), n.args[2], x, y)
        r = (min(p, x), max(q, y))
    if n.meta is None:
        n.meta = {}
    n.meta["iv"] = r
    return r


def _ref(base, st, v, lo, hi):
    """value v, knowing sign(base) in st, when v is +-base"""
    k = None
    if v is base:
        k = 1
    elif v.op == "mul" and v.args[0].op == "const" and v.args[1] is base:
        k = 1 if v.args[0].val > 0 else -1
    if k is not None:
        s = [x * k for x in st]
        if min(s) >= 0:
            lo = max(lo, 0.0)
        if max(s) <= 0:
            hi = min(hi, 0.0)
    return lo, hi


def bvar(name):
    return _mkc("bvar", (name,))


def streq(name, val):
    return _mkc("streq", (name, val))


_nots, _ands, _ors, _imps = {}, {}, {}, {}


def _ids(args):
    return tuple([-1 if a is True else -2 if a is False else a.id for a in args])


def c_not(c):
    if isinstance(c, bool):
        return not c
    r = _nots.get(c.id)
    if r is None:
        r = _nots[c.id] = _c_not(c)
    return r


def _c_not(c):
    if c.op == "not":
        return c.args[0]
    if c.op == "sgn":
        return sgn(c.args[0], tuple(s for s in FULL if s not in c.args[1]))
    if c.op == "and":
        return c_or(*[c_not(x) for x in c.args])
    if c.op == "or":
        return c_and(*[c_not(x) for x in c.args])
    return _mkc("not", (c,))


def _ac(op, args):
    out = []
    for a in args:
        if isinstance(a, C) and a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def c_and(*args):
    k = _ids(args)
    r = _ands.get(k)
    if r is None:
        r = _ands[k] = _c_and(args)
    return r


def _c_and(args):
    xs = []
    for a in _ac("and", args):
        if a is False:
            return False
        if a is True or a in xs:
            continue
        xs.append(a)
    # merge sign conditions on the same base
    by = {}
    ys = []
    for a in xs:
        if a.op == "sgn":
            b = a.args[0]
            if b.id in by:
                s = set(by[b.id][1]) & set(a.args[1])
                if not s:
                    return False
                by[b.id] = (b, tuple(sorted(s)))
            else:
                by[b.id] = (b, a.args[1])
        else:
            ys.append(a)
    for b, s in by.values():
        c = sgn(b, s)
        if c is False:
            return False
        if c is not True:
            ys.append(c)
    for a in ys:
        if c_not(a) in ys:
            return False
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    # absorption: a and (a or b) = a
    ys2 = []
    for a in ys:
        if a.op == "or" and any(x in ys for x in a.args):
            continue
        if a.op == "or":
            keep = [x for x in a.args if c_not(x) not in ys]
            if len(keep) != len(a.args):
                a = c_or(*keep)
                if a is False:
                    return False
                if a is True:
                    continue
        ys2.append(a)
    if len(ys2) == 1:
        return ys2[0]
    if not ys2:
        return True
    return _mkc("and", tuple(sorted(set(ys2), key=lambda c: c.id)))


def c_or(*args):
    k = _ids(args)
    r = _ors.get(k)
    if r is None:
        r = _ors[k] = _c_or(args)
    return r


def _c_or(args):
    xs = []
    for a in _ac("or", args):
        if a is True:
            return True
        if a is False or a in xs:
            continue
        xs.append(a)
    by = {}
    ys = []
    for a in xs:
        if a.op == "sgn":
            b = a.args[0]
            if b.id in by:
                by[b.id] = (b, tuple(sorted(set(by[b.id][1]) | set(a.args[1]))))
            else:
                by[b.id] = (b, a.args[1])
        else:
            ys.append(a)
    for b, s in by.values():
        c = sgn(b, s)
        if c is True:
            return True
        if c is not False:
            ys.append(c)
    for a in ys:
        if c_not(a) in ys:
            return True
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    ys2 = []
    for a in ys:
        if a.op == "and" and any(x in ys for x in a.args):
            continue
        if a.op == "and":
            keep = [x for x in a.args if c_not(x) not in ys]
            if len(keep) != len(a.args):
                a = c_and(*keep)
                if a is True:
                    return True
                if a is False:
                    continue
        ys2.append(a)
    if len(ys2) == 1:
        return ys2[0]
    return _mkc("or", tuple(sorted(set(ys2), key=lambda c: c.id)))


def c_ite(c, a, b):
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return c_not(c)
    return c_or(c_and(c, a), c_and(c_not(c), b))


def implies(c, d):
    """c known true: True / False / None for d"""
    if d is True or d is False:
        return d
    if c is d:
        return True
    k = (c.id, d.id)
    if k in _imps:
        return _imps[k]
    r = _imps[k] = _implies(c, d)
    return r


def _implies(c, d):
    if c.op == "and":
        for x in c.args:
            r = implies(x, d)
            if r is not None:
                return r
    if d.op == "and":
        rs = [implies(c, x) for x in d.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if d.op == "or":
        rs = [implies(c, x) for x in d.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if d.op == "not":
        r = implies(c, d.args[0])
        return None if r is None else not r
    if c.op == "not" and c.args[0] is d:
        return False
    if c.op == "sgn" and d.op == "sgn" and c.args[0] is d.args[0]:
        s, t = set(c.args[1]), set(d.args[1])
        if s <= t:
            return True
        if not s & t:
            return False
    if c.op == "streq" and d.op == "streq" and c.args[0] == d.args[0]:
        return c.args[1] == d.args[1]
    return None


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.op == "ite":
        r = implies(c, a.args[0])
        if r is not None:
            a = a.args[1] if r else a.args[2]
    if b.op == "ite":
        r = implies(c_not(c), b.args[0])
        if r is not None:
            b = b.args[1] if r else b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), integer=a.integer and b.integer, name="ite")


# _mk uses args' ids: conditions and nodes have separate id spaces; the op tag keeps them apart


# ------------------------------------------------------------------ traversal helpers
def restrict(n, facts, memo=None):
    """simplify a node/condition under a list of conditions known to hold"""
    memo = {} if memo is None else memo

    def rc(c):
        if isinstance(c, bool):
            return c
        k = ("c", c.id)
        if k in memo:
            return memo[k]
        r = c
        for f in facts:
            v = implies(f, c)
            if v is not None:
                r = v
                break
        if r is c:
            if c.op == "and":
                r = c_and(*[rc(x) for x in c.args])
            elif c.op == "or":
                r = c_or(*[rc(x) for x in c.args])
            elif c.op == "not":
                r = c_not(rc(c.args[0]))
            elif c.op == "sgn":
                b = rn(c.args[0])
                if b is not c.args[0]:
                    r = sgn(b, c.args[1])
                    if isinstance(r, C):
                        for f in facts:
                            v = implies(f, r)
                            if v is not None:
                                r = v
                                break
        memo[k] = r
        return r

    def rn(n):
        if n.op in ("const", "var"):
            return n
        if n.id in memo:
            return memo[n.id]
        if n.op == "ite":
            c = rc(n.args[0])
            r = rn(n.args[1]) if c is True else rn(n.args[2]) if c is False else ite(c, rn(n.args[1]), rn(n.args[2]))
        else:
            a = [rn(x) for x in n.args]
            r = n if all(x is y for x, y in zip(a, n.args)) else rebuild(n, a)
        memo[n.id] = r
        return r

    return rc(n) if isinstance(n, (C, bool)) else rn(n)


def rebuild(n, a):
    if n.op == "add":
        return add(*a)
    if n.op == "mul":
        return mul(*a)
    if n.op == "div":
        return div(*a)
    if n.op == "fn":
        if n.name == "floor":
            return floor(a[0])
        if n.name in ("powq", "pow"):
            return power(*a)
        return fn(n.name, *a)
    if n.op == "opq":
        return _mk("opq", tuple(a), integer=n.integer, name=n.name, lo=n.lo, hi=n.hi)
    raise DagError("rebuild " + n.op)


def subst(n, m, memo=None):
    """replace nodes (by id) everywhere"""
    memo = {} if memo is None else memo

    def sc(c):
        if isinstance(c, bool):
            return c
        k = ("c", c.id)
        if k in memo:
            return memo[k]
        if c.op == "sgn":
            r = sgn(sn(c.args[0]), c.args[1])
        elif c.op == "and":
            r = c_and(*[sc(x) for x in c.args])
        elif c.op == "or":
            r = c_or(*[sc(x) for x in c.args])
        elif c.op == "not":
            r = c_not(sc(c.args[0]))
        else:
            r = m.get(("c", c.id), c)
        memo[k] = r
        return r

    def sn(n):
        if n.id in m:
            return m[n.id]
        if n.op in ("const", "var"):
            return n
        if n.id in memo:
            return memo[n.id]
        if n.op == "ite":
            r = ite(sc(n.args[0]), sn(n.args[1]), sn(n.args[2]))
        else:
            a = [sn(x) for x in n.args]
            r = n if all(x is y for x, y in zip(a, n.args)) else rebuild(n, a)
        memo[n.id] = r
        return r

    return sc(n) if isinstance(n, (C, bool)) else sn(n)


def walk(roots):
    """all nodes and conditions reachable"""
    seen, cs = {}, {}
    st = list(roots)
    while st:
        x = st.pop()
        if isinstance(x, bool) or x is None:
            continue
        if isinstance(x, C):
            if x.id not in cs:
                cs[x.id] = x
                st.extend(a for a in x.args if isinstance(a, (N, C)))
        elif isinstance(x, N):
            if x.id not in seen:
                seen[x.id] = x
                st.extend(x.args)
    return seen, cs


def variables(roots):
    s, _ = walk(roots)
    return [n for n in s.values() if n.op == "var"]


def show(n, d=4):
    if n.op == "const":
        f = float(n.val)
        return "%.10g" % f
    if n.op == "var":
        return n.name
    if d == 0:
        return "..."
    a = [show(x, d - 1) if isinstance(x, N) else showc(x, d - 1) for x in n.args]
    if n.op == "add":
        return "(%s + %s)" % tuple(a)
    if n.op == "mul":
        return "%s*%s" % tuple(a)
    if n.op == "div":
        return "(%s)/(%s)" % tuple(a)
    if n.op == "ite":
        return "(%s if %s else %s)" % (a[1], a[0], a[2])
    return "%s(%s)" % (n.name, ", ".join(a))


def showc(c, d=4):
    if isinstance(c, bool):
        return str(c)
    if c.op == "sgn":
        o = {(-1,): "<", (-1, 0): "<=", (1,): ">", (0, 1): ">=", (0,): "==", (-1, 1): "!="}[c.args[1]]
        return "%s %s 0" % (show(c.args[0], d), o)
    if c.op in ("and", "or"):
        return "(" + (" %s " % c.op).join(showc(x, d - 1) if d else "..." for x in c.args) + ")"
    if c.op == "not":
        return "not " + showc(c.args[0], d)
    if c.op == "streq":
        return "%s == %r" % c.args
    return str(c.args[0])
