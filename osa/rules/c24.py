"""An orbit determined from two timed positions is the orbit that passes through them in that time."""
from .. import dag as D
from .. import equal
from .. import ref as R
from .c09 import COE, FIELDS, state_ref

MIN_OBLIGATIONS = 20
ASSUME = [
    "termination of the iterative solver is not decided: the rule is that the value it stops at satisfies the sector-to-triangle equation",
    "transfers of less than half a turn on elliptical orbits, where the method is defined",
]
G = "openspace.estimation.iod.Gauss"
STUB = '''
from openspace.estimation.obs import Observation

class Sighting(Observation):
    def __init__(self, position, epoch):
        self.given_position = position
        self.given_epoch = epoch

    def ijk_position(self):
        return self.given_position

    def epoch(self):
        return self.given_epoch
'''


def w_ref(x):
    """sector function: its value on elliptic arcs and its continuation past the parabola"""
    g = 2 * D.fn("asin", D.sqrt(x))
    s = D.sin(g)
    y = D.sqrt(-x)
    h = 2 * D.fn("log", y + D.sqrt(y * y + 1))
    k = D.fn("sinh", h)
    return D.ite(D.cmp_(">=", x, D.const(0)), (2 * g - D.sin(2 * g)) / (s * s * s), (D.fn("sinh", 2 * h) - 2 * h) / (k * k * k))


def f_ref(n, m, l):
    q = m / (n * n)
    return 1 - n + q * w_ref(q - l)


def roles(loop, f):
    """unknowns of the solver: abscissae, and ordinates carried along with them"""
    xs = [(mu, init) for init, mu, nxt in loop.mu.values() if isinstance(mu, D.N) and isinstance(init, D.N)]
    ords = {}
    for mu, init in xs:
        for mu2, init2 in xs:
            if mu is mu2:
                continue
            try:
                if equal.decide([(init, f(init2))], nsamples=4, plain=True, boundary=False).equal:
                    ords[mu.id] = mu2
                    break
            except D.DagError:
                pass
    return [mu for mu, _ in xs if mu.id not in ords], ords


def place(xs, ords, vals, f):
    """substitution putting the abscissae at the given values"""
    at = {mu.id: v for mu, v in zip(xs, vals)}
    m = dict(at)
    for k, mu in ords.items():
        m[k] = f(at[mu.id])
    return m


def turn(x, y, m):
    """angles compared as directions where the branch is decided by rounding"""
    x = D.subst(x, m)
    return [D.cos(x), D.sin(x)], [D.cos(y), D.sin(y)]


class Orbit:
    """a Kepler orbit, two positions on it and the constants of the method for that geometry"""

    def __init__(self):
        a, e, i = D.var("a", lo=6800.0, hi=200000.0), D.var("ecc", lo=1e-6, hi=0.8), D.var("i", lo=0.02, hi=3.12)
        raan, aop = D.var("raan", lo=0.0, hi=6.283), D.var("aop", lo=0.0, hi=6.283)
        E1, dE = D.var("E1", lo=0.0, hi=6.283), D.var("dE", lo=0.05, hi=2.9)
        E2 = E1 + dE
        t1 = D.var("t1", scale=59000.0)
        r1, _ = state_ref(a, e, i, raan, aop, E1)
        r2, _ = state_ref(a, e, i, raan, aop, E2)
        b = a * D.sqrt(1 - e * e)
        dt = (dE - e * (D.sin(E2) - D.sin(E1))) * D.sqrt(a * a * a / R.MU)
        p1, p2 = [a * (D.cos(E1) - e), b * D.sin(E1)], [a * (D.cos(E2) - e), b * D.sin(E2)]
        area = p1[0] * p2[1] - p1[1] * p2[0]
        p = a * (1 - e * e)
        eta = D.sqrt(R.MU * p) * dt / area
        pre = [D.cmp_(">", area, a * a * R.q("0.02"))]
        M1 = R.wrap(E1 - e * D.sin(E1))
        # solver constants of this geometry
        ra, rb = a * (1 - e * D.cos(E1)), a * (1 - e * D.cos(E2))
        base = 2 * (ra * rb + p1[0] * p2[0] + p1[1] * p2[1])
        mm = R.MU * dt * dt / (base * D.sqrt(base))
        ll = (ra + rb) / (2 * D.sqrt(base)) - R.q("0.5")
        self.__dict__.update((k, v) for k, v in locals().items() if k != "self")

    def determine(self, w):
        """(case, elements, observations, loops of the solver, unknowns, values at the solution)"""
        w.it.load("openspace.osa_stub", src=STUB)
        c = w.case()
        St = "openspace.osa_stub.Sighting"
        o1 = c.new(St, c.v3(self.r1), c.epoch(self.t1))
        o2 = c.new(St, c.v3(self.r2), c.epoch(self.t1 + self.dt / R.DAY))
        first = len(c.loops())
        k = c.call(G + ".coes_from_positions", o1, o2)
        out = [c.num(c.get(k, x)) for x in FIELDS]
        lps = c.loops()[first:]
        if not lps:
            return c, k, (o1, o2), lps, [], out
        fv = lambda x: c.num(c.call(G + ".f_of_nu", x, self.mm, self.ll))
        xs, ords = roles(lps[-1], fv)
        # a loop that starts from one value may not depend on the others
        m = place(xs, ords, [self.eta + (R.q("0.1") if j else D.const(0)) for j in range(len(xs))], fv)
        return c, k, (o1, o2), lps, xs, [D.subst(x, m) for x in out]


def check(rep):
    w = rep.world
    w.it.load("openspace.osa_stub", src=STUB)
    m_, l_, n_, x_ = D.var("m", lo=0.05, hi=0.6), D.var("l", lo=0.0, hi=0.3), D.var("n", lo=1.01, hi=1.2), D.var("w", lo=-0.95, hi=0.95)
    f = G + ".w_of_omega"
    with rep.section("w", f):
        c = w.case()
        rep.eq("w", f, c.call(f, x_), w_ref(x_), boundary=False)
    f = G + ".f_of_nu"
    with rep.section("f", f):
        c = w.case()
        pre = [D.cmp_(">", m_ / (n_ * n_) - l_, -R.q("0.95")), D.cmp_("<", m_ / (n_ * n_) - l_, D.const(1))]
        rep.eq("f", f, c.call(f, n_, m_, l_), f_ref(n_, m_, l_), pre, boundary=False)
    o = Orbit()
    eta, pre, mm, ll = o.eta, o.pre, o.mm, o.ll
    f = G + ".solve_nu"
    with rep.section("solve", f):
        c = w.case()
        fv = lambda x: c.num(c.call(G + ".f_of_nu", x, m_, l_))
        first = len(c.loops())
        s0, s1 = D.var("s0", lo=1.01, hi=1.2), D.var("s1", lo=1.01, hi=1.2)
        r = c.num(c.call(f, m_, l_, s0, s1))
        loops = c.loops()[first:]
        if not loops:
            rep.undecided.append(("solve", f, "no iterative solver found"))
            return
        lp = loops[-1]
        xs, ords = roles(lp, fv)
        inst = {m_.id: mm, l_.id: ll}
        fi = lambda x: D.subst(fv(x), inst)

        def at(node, vals):
            m = dict(inst)
            m.update(place(xs, ords, vals, fi))
            return D.subst(node, m)

        rep.rule("solve/iterate", f, bool(xs) and any(v in D.variables([r]) for v in xs + [v for v in D.variables([r]) if v.id in ords]), "the result does not depend on the iteration")
        rep.eq("equation-holds-at-the-sector-triangle-ratio", G + ".f_of_nu", fi(eta), 0, pre, boundary=False, tol=1e-20)
        for k, ds in enumerate(([R.q("0.1"), D.const(0)], [D.const(0), R.q("0.1")], [R.q("1e-4"), D.const(0)])):
            vals = [eta + ds[j % 2] for j in range(len(xs))]
            if len(xs) == 1:
                vals = [eta]
            rep.eq("solve/solution-is-returned(%d)" % k, f, at(r, vals), eta, pre, boundary=False, tol=1e-20)
            ex = at(lp.exit, vals) if isinstance(lp.exit, D.C) else lp.exit
            if ds[1].op == "const" and not ds[1].val:
                rep.cond("solve/stops-at-solution(%d)" % k, f, ex, pre, what="the iteration does not stop at the solution")
        for d0, d1 in (("1e-3", "1e-5"), ("1e-5", "-1e-8"), ("-1e-2", "1e-2"), ("3e-8", "2e-11"), ("0.08", "0.01"), ("1e-2", "-3e-4"), ("1e-6", "1e-6"), ("0.02", "5e-7")):
            vals = [eta + R.q((d0, d1)[j % 2]) + (R.q("1e-9") if j == 0 else 0) for j in range(len(xs))]
            ex = at(lp.exit, vals) if isinstance(lp.exit, D.C) else lp.exit
            x = at(r, vals)
            rep.cond("solve/stops-only-at-solution(%s,%s)" % (d0, d1), f, D.c_or(D.c_not(ex), D.cmp_("<", D.absv(x - eta), R.q("1e-8"))), pre, what="the iteration can stop at a value that does not satisfy the equation")
    f = G + ".coes_from_positions"
    with rep.section("orbit", f):
        c, k, (o1, o2), lps, xs, out = o.determine(w)
        if not lps:
            rep.undecided.append(("orbit", f, "no iterative solver found"))
            return
        # start values: near enough to the solution for the domain of the equation
        for j, (mu, init) in enumerate([(mu, init) for init, mu, _ in lps[-1].mu.values() if isinstance(mu, D.N) and mu in xs]):
            rep.cond("start/%d" % j, f, D.c_and(D.cmp_(">", init, eta - R.q("0.35")), D.cmp_("<", init, eta + R.q("0.9"))), pre + [D.cmp_("<", mm / (ll + D.const(5) / 6), R.q("0.5"))], what="the iteration starts far from the solution")
        exp = [o.a, o.e, o.i, o.raan, o.aop, o.M1]
        for nm, x, y in zip(FIELDS, out, exp):
            rep.eq("orbit/" + nm, f, x, y, pre, boundary=False, tol=1e-18)
        # first position at the ends of the axes and of the latus rectum, and over the node
        quarter = D.fn("acos", o.e)
        for lab, at in (("perigee", D.const(0)), ("apogee", R.pi), ("semilatus", quarter), ("descending-semilatus", R.TWO_PI - quarter), ("minor-axis", R.pi / 2), ("near-circular", R.q("3e-5")), ("nearly-circular", R.q("2e-3")), ("barely-not-circular", R.q("3e-6")), ("eccentric", R.q("0.92")),
                        ("just-prograde", R.pi / 2 - R.q("0.004")), ("just-retrograde", R.pi / 2 + R.q("0.004")), ("near-equatorial", R.q("0.001")), ("near-retrograde-equatorial", R.pi - R.q("0.001"))):
            m = {(o.e if "circular" in lab or lab == "eccentric" else o.i if "grade" in lab or "equatorial" in lab else o.E1).id: at}
            pre_ = [D.subst(q_, m) for q_ in pre]
            for nm, x, y in zip(FIELDS, out, exp):
                if nm in ("mean_anomaly", "argument_of_perigee"):
                    x, y = turn(x, D.subst(y, m), m)
                else:
                    x, y = D.subst(x, m), D.subst(y, m)
                rep.eq("orbit/%s/%s" % (lab, nm), f, x, y, pre_, boundary=False, tol=1e-18, nsamples=5)
        rep.eq("orbit/epoch", f, c.num(c.get(k, "epoch.value")), o.t1)
        rep.rule("orbit/kind", f, c.clsname(k) == "ClassicalElements", "does not return orbital elements")
        for ob, rr, t in ((o1, o.r1, o.t1), (o2, o.r2, o.t1 + o.dt / R.DAY)):
            rep.eq("orbit/observation-unchanged", f, c.xyz(c.get(ob, "given_position")) + [c.num(c.get(ob, "given_epoch.value"))], rr + [t])
