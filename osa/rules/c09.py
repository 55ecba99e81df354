"""Kepler's equation is solved to tolerance; classical elements and inertial states convert into one another."""
import itertools

from .. import dag as D
from .. import ref as R
from ..world import S

MIN_OBLIGATIONS = 14
ASSUME = ["termination of the iterative solver is not decided: the rule is that whatever value the iteration stops at satisfies the equation"]
EOM = "openspace.math.functions.EquationsOfMotion."
COE = "openspace.coordinates.elements.ClassicalElements"
FIELDS = ("semimajor_axis", "eccentricity", "inclination", "raan", "argument_of_perigee", "mean_anomaly")


def mus(nodes):
    return [v for v in D.variables([n for n in nodes if isinstance(n, D.N)]) if v.name.startswith("mu:")]


def coe_vars():
    return [D.var("a", lo=7000.0, hi=50000.0), D.var("ecc", lo=1e-6, hi=0.97), D.var("i", lo=0.05, hi=3.09),
            D.var("raan", lo=0.0, hi=6.283), D.var("aop", lo=0.0, hi=6.283)]


def state_ref(a, e, i, raan, aop, E):
    """position and velocity from elements and eccentric anomaly, by the 3-1-3 rotation of the perifocal frame"""
    o = D.const(0)
    b = a * D.sqrt(1 - e * e)
    r = a * (1 - e * D.cos(E))
    ed = D.sqrt(R.MU / a) / r
    p = [a * (D.cos(E) - e), b * D.sin(E), o]
    v = [-(a * ed * D.sin(E)), b * ed * D.cos(E), o]
    m = R.mm(R.R3(-raan), R.mm(R.R1(-i), R.R3(-aop)))
    return R.mv(m, p), R.mv(m, v)


def elements_ref(p, v):
    r, s = R.mag(p), R.mag(v)
    h = R.cross(p, v)
    w = R.unit(h)
    a = 1 / (2 / r - s * s / R.MU)
    # eccentricity from the eccentricity vector
    ev = R.sub(R.scale(R.cross(v, h), 1 / R.MU), R.unit(p))
    e = R.mag(ev)
    inc = D.fn("acos", w[2])
    raan = R.wrap(D.atan2(w[0], -w[1]))
    n = D.sqrt(R.MU / (a * a * a))
    E = R.wrap(D.atan2(R.dot(p, v) / (a * a * n), 1 - r / a))
    M = E - e * D.sin(E)
    # perigee direction measured from the node in the orbit plane
    node = R.unit([-w[1], w[0], D.const(0)])
    aop = R.wrap(D.atan2(R.dot(ev, R.cross(w, node)), R.dot(ev, node)))
    return [a, e, inc, raan, aop, M], E


def bounded(rep, f, r, ma, e):
    """a solver with a fixed number of steps is one expression: its value satisfies the equation over the whole range of eccentricities and anomalies"""
    for n, (elo, ehi) in enumerate(((0.0, 0.5), (0.5, 0.9), (0.9, 0.999), (0.999, 0.99999))):
        for k, (lo, hi) in enumerate(((0.0, 0.01), (0.0, 0.3), (0.3, 3.1), (3.1, 6.2831))):
            x, y = D.var("E%d%d" % (n, k), lo=lo, hi=hi), D.var("e%d%d" % (n, k), lo=elo, hi=ehi)
            kep = x - y * D.sin(x)
            z = D.subst(r, {ma.id: kep, e.id: y})
            ok = D.c_or(*[D.cmp_("<", D.absv(z - y * D.sin(z) - kep + j * R.TWO_PI), R.q("2.5e-12")) for j in (-1, 0, 1)])
            rep.cond("kepler/solves(%d,%d)" % (n, k), f, ok, what="the value returned does not satisfy Kepler's equation", gates=False)
            rep.cond("kepler/range(%d,%d)" % (n, k), f, D.c_and(D.cmp_(">=", z, D.const(0)), D.cmp_("<", z, R.TWO_PI)), what="the eccentric anomaly leaves [0, 2 pi)", gates=False)


def check(rep):
    w = rep.world
    f = EOM + "EA.from_ma_e"
    ma, e = D.var("ma", lo=-6.2831, hi=6.2831), D.var("e", lo=0.0, hi=0.999)
    E = D.var("E", lo=0.0, hi=6.2831)
    r, loops, asked, sol = None, [], [], None
    with rep.section("kepler", f):
        sol = w.it.lookup(f).qual
        w.it.stubs.pop(sol, None)
        c = w.case()
        r = c.call(f, ma, e)
        loops = c.loops()
        if not loops and ma not in D.variables([r]):
            rep.fail("kepler/iterate", f, "the result does not depend on the mean anomaly")
        elif not loops:
            bounded(rep, f, r, ma, e)
    if loops:
        with rep.section("kepler", f):
            l = loops[-1]
            unknown = [v for v in mus([r])]
            rep.rule("kepler/iterate", f, bool(unknown), "the result does not depend on the iteration")
            kep = E - e * D.sin(E)
            m = {ma.id: kep}
            m.update({v.id: E for v in unknown})
            rep.eq("kepler/solution-is-returned", f, D.subst(r, m), E, boundary=False)
            ex = D.subst(l.exit, m) if isinstance(l.exit, D.C) else l.exit
            rep.cond("kepler/stops-at-solution", f, ex, what="the iteration does not stop at the solution")
            # wherever the iteration may stop, the value returned satisfies the equation
            for k in ("0", "1e-15", "-7e-13", "3e-12", "2e-9", "-1e-7", "1e-6", "-1e-5", "1e-4", "-1e-3", "1e-2", "-0.2", "0.7"):
                m = {ma.id: kep}
                m.update({v.id: E + R.q(k) for v in unknown})
                x = D.subst(r, m)
                res = x - e * D.sin(x) - kep
                # equality modulo a turn
                ok = D.c_or(*[D.cmp_("<", D.absv(res + j * R.TWO_PI), R.q("2.5e-12")) for j in (-1, 0, 1)])
                ex = D.subst(l.exit, m) if isinstance(l.exit, D.C) else l.exit
                rep.cond("kepler/stops-only-at-solution(%s)" % k, f, D.c_or(D.c_not(ex), ok), what="the iteration can stop at a value that does not satisfy Kepler's equation")
            # wherever each iteration may stop, the value reported lies in one turn and satisfies the equation
            Ew = D.var("Ew", lo=-6.2831, hi=6.2831)
            kep = Ew - e * D.sin(Ew)
            groups = [[y for y in (x[1] for x in k.mu.values()) if isinstance(y, D.N) and any(y is u for u in unknown)] for k in loops]
            groups = [g for g in groups if g][-3:]
            for n, pick in enumerate(itertools.product((Ew, -Ew, Ew + R.TWO_PI, R.TWO_PI - Ew), repeat=len(groups))):
                m = {ma.id: kep}
                m.update({v.id: Ew for v in unknown})
                for g, x in zip(groups, pick):
                    m.update({v.id: x for v in g})
                x = D.subst(r, m)
                ex = D.c_and(*[D.subst(k.exit, m) if isinstance(k.exit, D.C) else k.exit for k in loops])
                res = x - e * D.sin(x) - kep
                rep.cond("kepler/range(%d)" % n, f, D.c_or(D.c_not(ex), D.c_and(D.cmp_(">=", x, D.const(0)), D.cmp_("<", x, R.TWO_PI))), what="the eccentric anomaly leaves [0, 2 pi)")
                ok = D.c_or(*[D.cmp_("<", D.absv(res + j * R.TWO_PI), R.q("2.5e-12")) for j in (-1, 0, 1)])
                rep.cond("kepler/any-turn(%d)" % n, f, D.c_or(D.c_not(ex), ok), what="a mean anomaly is answered with a value that does not satisfy Kepler's equation")
    if r is not None and not loops:
        # decided above: from here on its value is one unknown per question
        def stub(it, st, args, kw):
            args = args + [kw[k] for k in ("ma", "e")[len(args):] if k in kw]
            if len(args) != 2 or not all(isinstance(x, D.N) for x in args):
                return NotImplemented
            asked.append(args)
            return D.var("mu:solution.%d.%d" % (args[0].id, args[1].id), lo=0.0, hi=6.2831853)

        w.it.stubs[sol] = stub
    try:
        orbits(rep, ma, E, asked)
    finally:
        w.it.stubs.pop(sol, None)


def posed(rep, name, entry, c, m, kep, ecc, asked, pre=()):
    """the question put to the solver is the one of these elements"""
    for n, l in enumerate(c.loops()):
        ex = D.subst(l.exit, m) if isinstance(l.exit, D.C) else l.exit
        rep.cond("%s/solver-input(%d)" % (name, n), entry, ex, pre, what="the solver is asked about other elements: it would not stop at their eccentric anomaly")
    for n, (p, q) in enumerate(asked):
        rep.eq("%s/solver-input(%d)" % (name, n), entry, [D.sin((D.subst(p, m) - kep) / 2), D.subst(q, m)], [D.const(0), ecc], pre, boundary=False)
    asked.clear()


def orbits(rep, ma, E, asked):
    w = rep.world
    with rep.section("eccentric_anomaly", COE + ".eccentric_anomaly"):
        c = w.case()
        a, ec, i, raan, aop = coe_vars()
        k = c.new(COE, c.epoch("t"), a, ec, i, raan, aop, ma)
        r = c.m(k, "eccentric_anomaly")
        u = mus([r])
        m = {ma.id: E - ec * D.sin(E)}
        m.update({v.id: E for v in u})
        posed(rep, "eccentric_anomaly", COE + ".eccentric_anomaly", c, m, E - ec * D.sin(E), ec, asked)
        rep.eq("eccentric_anomaly/solves-own-elements", COE + ".eccentric_anomaly", D.subst(r, m), E, boundary=False)
        for nm, j in (("perigee_vector", 0), ("semilatus_rectum_vector", 1)):
            v = c.xyz(c.m(k, nm))
            mt = R.T(R.mm(R.R3(-raan), R.mm(R.R1(-i), R.R3(-aop))))
            rep.eq(nm + "/direction", COE + "." + nm, v, mt[j])
        fields = [c.num(c.get(k, x)) for x in FIELDS]
        rep.eq("elements/fields", COE, fields, [a, ec, i, raan, aop, ma])
    with rep.section("to_ijk", COE + ".to_ijk"):
        c = w.case()
        a, ec, i, raan, aop = coe_vars()
        k = c.new(COE, c.epoch("t"), a, ec, i, raan, aop, ma)
        s = c.m(k, "to_ijk")
        out = c.pv(s)
        m = {ma.id: E - ec * D.sin(E)}
        m.update({v.id: E for v in mus(out)})
        out = [D.subst(x, m) for x in out]
        posed(rep, "to_ijk", COE + ".to_ijk", c, m, E - ec * D.sin(E), ec, asked)
        p, v = state_ref(a, ec, i, raan, aop, E)
        rep.eq("to_ijk/position", COE + ".to_ijk", out[:3], p, boundary=False)
        rep.eq("to_ijk/velocity", COE + ".to_ijk", out[3:], v, boundary=False)
        rep.eq("to_ijk/epoch", COE + ".to_ijk", c.num(c.get(s, "epoch.value")), D.var("t", scale=59000.0))
        # and back
        asked.clear()
        k2 = c.call(COE + ".from_ijk", s)
        out = [c.num(c.get(k2, x)) for x in FIELDS]
        m = {ma.id: E - ec * D.sin(E)}
        m.update({v.id: E for v in mus(out)})
        out = [D.subst(x, m) for x in out]
        for nm, x, y in zip(FIELDS, out, [a, ec, i, raan, aop, E - ec * D.sin(E)]):
            rep.eq("round-trip/" + nm, COE + ".from_ijk", x, y, boundary=False, tol=1e-20)
    with rep.section("from_ijk", COE + ".from_ijk"):
        c = w.case()
        s = c.state("IJK", "s")
        k = c.call(COE + ".from_ijk", s)
        p, v = c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity"))
        exp, ea = elements_ref(p, v)
        pre = [D.cmp_("<", R.dot(v, v) / 2 - R.MU / R.mag(p), D.const(0)), D.cmp_(">", exp[1], R.q("1e-9"))]
        for nm, y in zip(FIELDS, exp):
            rep.eq("from_ijk/" + nm, COE + ".from_ijk", c.num(c.get(k, nm)), y, pre, boundary=False, tol=1e-20)
        rep.eq("from_ijk/epoch", COE + ".from_ijk", c.num(c.get(k, "epoch.value")), D.var("s.t", scale=59000.0))
        back = c.pv(c.m(k, "to_ijk"))
        m = {x.id: ea for x in mus(back)}
        back = [D.subst(x, m) for x in back]
        rep.eq("round-trip/position", COE + ".to_ijk", back[:3], p, pre, boundary=False, tol=1e-20)
        rep.eq("round-trip/velocity", COE + ".to_ijk", back[3:], v, pre, boundary=False, tol=1e-20)
