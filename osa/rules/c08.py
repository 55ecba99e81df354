"""Reported angles stay in their documented ranges, and partial operations are guarded where an exact geometry meets the edge of their domain."""
from .. import dag as D
from .. import equal
from .. import ref as R
from ..world import L, POS, S
from .c09 import FIELDS
from .c24 import Orbit

MIN_OBLIGATIONS = 40
ASSUME = ["ranges are those of the real-valued result; a result may round up to the open end of its range",
          "rounding is represented by one rule: an argument that cancels to the edge of the operation's domain must pass through a clamp"]
E = "openspace.math.functions.EquationsOfMotion."
COE = "openspace.coordinates.elements.ClassicalElements"
GO = "openspace.estimation.obs.GroundObservation"
SO = "openspace.estimation.obs.SpaceObservation"
G = "openspace.estimation.iod.Gauss"
PI = R.pi
EDGE = {"asin": (-1.0, 1.0), "acos": (-1.0, 1.0), "sqrt": (0.0, D.INF)}


def within(x, lo, hi, open_top=False):
    return D.c_and(D.cmp_(">=", x, lo), D.cmp_("<" if open_top else "<=", x, hi))


def core(n):
    """the value a clamp is applied to: gated joins and affine wrappers are peeled off"""
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x.id in seen or x.op == "const":
            continue
        seen.add(x.id)
        if x.op == "ite":
            todo += [x.args[1], x.args[2]]
        elif x.op in ("add", "mul") and any(a.op == "const" for a in x.args):
            todo += [a for a in x.args if a.op != "const"]
        elif x.op == "mul" and x.args[0] is x.args[1] and x.args[0].op == "ite":
            todo.append(x.args[0])
        else:
            out.append(x)
    below = {x.id: set(D.walk([x])[0]) - {x.id} for x in out}
    return [x for x in out if not any(y.id in below[x.id] for y in out)]


def guarded(kind, arg, pc):
    """the argument is in the domain whatever value the clamped quantity takes on the way to the operation"""
    lo, hi = EDGE[kind]
    a, b = D.quick_iv(arg)
    if a >= lo and b <= hi:
        return True
    m = {x.id: D.var("any%d" % i, lo=-3.0, hi=3.0) for i, x in enumerate(sorted(core(arg), key=lambda x: x.id))}
    y = D.subst(arg, m)
    pc = [q for q in (D.subst(q, m) for q in pc) if q is not True]
    if any(q is False for q in pc):
        return True
    bad = D.cmp_("<", y, D.const(D.F(lo)))
    if hi < D.INF:
        bad = D.c_or(bad, D.cmp_(">", y, D.const(D.F(hi))))
    bad = D.c_and(bad, *pc)
    if bad is False or bad is True:
        return bad is False
    if any(not v.name.startswith("any") for v in D.variables([D.ite(bad, D.const(1), D.const(0))])):
        return False
    return equal.feasible(bad, (), 96) is None


def at_edge(kind, arg, m, pre):
    """the argument reaches the edge of the domain at the special geometry"""
    x = D.subst(arg, m)
    for s in equal.valid_samples([x], pre, 4):
        v = s.ev(x)
        if v is None:
            return False
        if not any(abs(float(v) - e) < 1e-40 or v == e or abs(v - e) < 1e-40 for e in EDGE[kind] if abs(e) < D.INF):
            return False
    return True


def guards(rep, name, entry, case, specials, exempt=(), results=()):
    """specials: label -> (substitution, assumptions)"""
    seen = set()
    for h in case.hazards():
        kind, arg = h[0], h[1]
        if kind not in EDGE or not isinstance(arg, D.N) or arg.op == "const" or (kind, arg.id) in seen:
            continue
        seen.add((kind, arg.id))
        lab = "%s/%s" % (name, kind)
        if guarded(kind, arg, h[2]):
            rep.rule(lab + "/guarded", entry, True, "")
            limits(rep, lab, entry, kind, arg, specials, results)
            continue
        if kind == "sqrt" and arg.op not in ("add", "ite"):
            # products and quotients keep their sign under rounding
            rep.rule(lab + "/no-cancellation", entry, True, "")
            continue
        if any(equal.decide([(arg, e)], nsamples=6, plain=True).equal for e in exempt):
            rep.rule(lab + "/exact-at-the-edge", entry, True, "")
            continue
        hit = [k for k, (m, pre) in specials.items() if at_edge(kind, arg, m, pre)]
        rep.rule(lab + "/edge", entry, not hit, "%s at %s is applied to an unclamped value that reaches the edge of its domain for %s: rounding makes it fail" % (kind, h[3], ", ".join(hit)))


def limits(rep, lab, entry, kind, arg, specials, results):
    """a clamped quantity that rounding pushes over the edge gives the value at the edge"""
    for x in core(arg):
        for k, (m, pre) in specials.items():
            y = D.subst(x, m)
            ss = equal.valid_samples([y], pre, 3)
            vs = [s.ev(y) for s in ss]
            if not vs or any(v is None for v in vs):
                continue
            e = float(vs[0])
            if e not in EDGE[kind] or any(abs(v - e) > 1e-30 for v in vs):
                continue
            over = 1 if e == 1.0 else -1
            for r in results:
                if x.id not in D.walk([r])[0]:
                    continue
                try:
                    at = [D.subst(D.subst(r, {x.id: D.const(D.F(e)) + q}), m) for q in (R.q("1e-15") * over, D.const(0))]
                except D.DagError:
                    continue  # another operation takes the same quantity without the clamp
                rep.cond(lab + "/limit", entry, D.cmp_("<", D.absv(at[0] - at[1]), R.q("1e-5")), pre, what="a value pushed over the edge of the domain by rounding (%s) does not give the limiting value" % k)


def check(rep):
    w = rep.world
    zero, half, two = D.const(0), PI / 2, R.TWO_PI
    turn = lambda x: within(x, zero, two, True)
    e = D.var("e", lo=0.0, hi=0.99)
    ang = dict(lo=-12.5, hi=12.5)
    ea, nu, u = D.var("ea", **ang), D.var("nu", lo=0.0, hi=6.2831), D.var("u", lo=0.0, hi=6.2831)
    r, a, n = D.var("r", lo=1.0, scale=15000.0), D.var("a", lo=1.0, scale=20000.0), D.var("n", lo=0.0, scale=0.001)
    rdv = D.var("rdv", scale=4000.0)
    scal = [
        ("EA.from_rdv_r_a_n", (rdv, r, a, n)), ("NU.from_e_ea", (e, ea)), ("W.from_u_nu", (u, nu)), ("MA.from_ea_e", (D.var("E", lo=0.0, hi=6.2831), e)),
    ]
    for nm, args in scal:
        with rep.section(nm, E + nm):
            c = w.case()
            rep.cond(nm + "/range", E + nm, turn(c.num(c.call(E + nm, *args))), what="the angle leaves [0, 2 pi)")
    with rep.section("vectors", E + "I.from_w"):
        c = w.case()
        wv, rv = c.vec3("w"), c.vec3("r", 9000.0)
        rep.cond("I.from_w/range", E + "I.from_w", within(c.num(c.call(E + "I.from_w", wv)), zero, PI), what="the inclination leaves [0, pi]")
        rep.cond("RAAN.from_w/range", E + "RAAN.from_w", turn(c.num(c.call(E + "RAAN.from_w", wv))), what="the node leaves [0, 2 pi)")
        rep.cond("U.from_r_w/range", E + "U.from_r_w", turn(c.num(c.call(E + "U.from_r_w", rv, wv))), what="the argument of latitude leaves [0, 2 pi)")
    f = L + "Vector3D.angle"
    with rep.section("angle", f):
        c = w.case()
        x, y = c.vec3("a", 50.0), c.vec3("b", 3.0)
        g = c.num(c.m(x, "angle", y))
        rep.cond("angle/range", f, within(g, zero, PI), what="the angle between vectors leaves [0, pi]")
        k = D.var("k", lo=0.1, hi=9.0)
        xa, xb = c.xyz(x), c.xyz(y)
        guards(rep, "angle", f, c, {
            "parallel vectors": ({q.id: p * k for p, q in zip(xa, xb)}, ()),
            "opposite vectors": ({q.id: -(p * k) for p, q in zip(xa, xb)}, ()),
        }, results=(g,))
    f = POS + "SphericalPosition.from_cartesian"
    with rep.section("spherical", f):
        c = w.case()
        s = c.call(f, c.vec3("p", 9000.0))
        rep.cond("spherical/right-ascension", f, turn(c.num(c.get(s, "right_ascension"))), what="the right ascension leaves [0, 2 pi)")
        rep.cond("spherical/declination", f, within(c.num(c.get(s, "declination")), -half, half), what="the declination leaves [-pi/2, pi/2]")
        rep.cond("spherical/radius", f, D.cmp_(">=", c.num(c.get(s, "radius")), zero), what="a negative radius")
    f = POS + "PositionConvert.itrf.to_lla"
    with rep.section("geodetic", f):
        c = w.case()
        p = c.vec3("p", 12000.0)
        x, y, z = c.xyz(p)
        s = c.call(f, p)
        pre = [D.cmp_(">", x * x + y * y + z * z, D.const(36000000))]
        rep.cond("geodetic/latitude", f, within(c.num(c.get(s, "latitude")), -half, half), pre, what="the latitude leaves [-pi/2, pi/2]")
        rep.cond("geodetic/longitude", f, turn(c.num(c.get(s, "longitude"))), pre, what="the longitude leaves [0, 2 pi)")
        rep.cond("geodetic/hemisphere", f, D.c_not(D.cmp_("<", c.num(c.get(s, "latitude")) * z, zero)), pre, what="the latitude is on the other side of the equator")
        big = [D.cmp_(">", x * x + y * y, D.const(36000000))]
        # the one argument whose cancellation is exact in binary arithmetic: 2 t - 1 + u u with t = (1 + Q + 1/Q) / 6, Q >= 1
        a2 = R.RE * R.RE
        b = R.RE * (1 - R.FLAT)
        b2 = b * b
        eps2 = a2 / b2 - 1
        e2 = 1 - b2 / a2
        pp, ss = D.absv(z) / eps2, (x * x + y * y) / (e2 * eps2)
        q = pp * pp - b2 + ss
        uu = pp / D.sqrt(q)
        v = b2 * uu * uu / q
        P = 27 * v * ss / q
        Q = D.power(D.sqrt(P + 1) + D.sqrt(P), D.const(2) / D.const(3))
        t = (1 + Q + 1 / Q) / 6
        guards(rep, "geodetic", f, c, {
            "points over the equator": ({z.id: zero}, big),
            "points over a pole": ({x.id: zero, y.id: zero}, [D.cmp_(">", z * z, D.const(36000000))]),
        }, exempt=(uu * uu - 1 + 2 * t,), results=(c.num(c.get(s, "latitude")),))
    f = S + "StateConvert.gcrf.to_hcw"
    with rep.section("relative", f):
        c = w.case()
        o, s = c.state("GCRF", "o"), c.state("GCRF", "s")
        h_ = c.call(f, o, s)
        ro, vo = c.xyz(c.get(o, "position")), c.xyz(c.get(o, "velocity"))
        rs = c.xyz(c.get(s, "position"))
        k = D.var("k", lo=0.1, hi=2.0)
        hh = R.cross(ro, vo)
        guards(rep, "relative", f, c, {
            "a state over the orbit normal": ({q.id: p * k for p, q in zip(hh, rs)}, ()),
            "a state under the orbit normal": ({q.id: -(p * k) for p, q in zip(hh, rs)}, ()),
            "the origin itself": ({q.id: p for p, q in zip(ro, rs)}, ()),
        }, results=tuple(c.xyz(c.get(h_, "position"))))
    f = E + "E.from_a_p"
    with rep.section("eccentricity", f):
        c = w.case()
        p = D.var("p", lo=1.0, scale=20000.0)
        ecc = c.num(c.call(f, a, p))
        rep.cond("eccentricity/range", f, D.cmp_(">=", ecc, zero), [D.cmp_("<=", p, a)], what="a negative eccentricity")
        guards(rep, "eccentricity", f, c, {"circular orbits": ({p.id: a}, ())}, results=(ecc,))
    f = COE + ".from_ijk"
    with rep.section("elements", f):
        c = w.case()
        s = c.state("IJK", "s")
        k = c.call(f, s)
        p, v = c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity"))
        pre = [D.cmp_("<", R.dot(v, v) / 2 - R.MU / R.mag(p), zero)]
        for x in ("raan", "argument_of_perigee", "mean_anomaly"):
            rep.cond("elements/" + x, f, turn(c.num(c.get(k, x))), pre, what="the %s leaves [0, 2 pi)" % x)
        rep.cond("elements/inclination", f, within(c.num(c.get(k, "inclination")), zero, PI), pre, what="the inclination leaves [0, pi]")
        rep.cond("elements/eccentricity", f, within(c.num(c.get(k, "eccentricity")), zero, D.const(1), True), pre, what="the eccentricity of a bound orbit leaves [0, 1)")
        rep.cond("elements/axis", f, D.cmp_(">", c.num(c.get(k, "semimajor_axis")), zero), pre, what="the semi-major axis of a bound orbit is not positive")
        # a circular orbit
        c = w.case()
        s = c.state("IJK", "s")
        p, v = c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity"))
        h = R.cross(p, v)
        t = R.unit(R.cross(h, p))
        k = c.call(f, s)
        m = {q.id: x * D.sqrt(R.MU / R.mag(p)) for q, x in zip(v, t)}
        # break the self-reference: the direction is taken from an independent velocity
        g = [D.var("g." + q, scale=4.0) for q in "xyz"]
        m = {q.id: D.subst(x, {a_.id: b_ for a_, b_ in zip(v, g)}) for q, x in ((q, m[q.id]) for q in v)}
        guards(rep, "elements/circular", f, c, {"circular orbits": (m, ())})
    f = G + ".coes_from_positions"
    with rep.section("orbit-determination", f):
        o = Orbit()
        out = dict(zip(FIELDS, o.determine(w)[-1]))
        pre = o.pre + [D.cmp_(">", D.absv(o.p1[0]), o.ra / 50)] + [D.cmp_(">", x, R.q("1e-3")) for x in (o.E1, o.raan, o.aop)]
        for x in ("raan", "argument_of_perigee", "mean_anomaly"):
            rep.cond("orbit-determination/" + x, f, turn(out[x]), pre, what="the %s leaves [0, 2 pi)" % x)
        rep.cond("orbit-determination/inclination", f, within(out["inclination"], zero, PI), pre, what="the inclination leaves [0, pi]")
    f = E + "EA.from_ma_e"
    with rep.section("eccentric-anomaly", f):
        c = w.case()
        ma, ew = D.var("ma", lo=-6.2831, hi=6.2831), D.var("Ew", lo=-6.2831, hi=6.2831)
        x = c.num(c.call(f, ma, e))
        m = {v.id: ew for v in D.variables([x]) if v.name.startswith("mu:")}
        m[ma.id] = ew - e * D.sin(ew)
        rep.cond("eccentric-anomaly/range", f, turn(D.subst(x, m)), what="the eccentric anomaly leaves [0, 2 pi)")
    f = GO
    with rep.section("ground", f):
        c = w.case()
        st = c.call(S + "ITRF.from_fixed", c.epoch("t"), c.vec3("p", 9000.0))
        o = c.new(GO, st, c.vec3("d", 900.0), zero, zero)
        rep.cond("ground/azimuth", f, turn(c.num(c.get(o, "azimuth"))), what="the azimuth leaves [0, 2 pi)")
        rep.cond("ground/elevation", f, within(c.num(c.get(o, "elevation")), -half, half), what="the elevation leaves [-pi/2, pi/2]")
        rep.cond("ground/range", f, D.cmp_(">=", c.num(c.get(o, "range")), zero), what="a negative range")
    f = SO
    with rep.section("space", f):
        c = w.case()
        o = c.new(SO, c.state("GCRF", "s"), c.vec3("d", 900.0), zero, zero)
        rep.cond("space/right-ascension", f, turn(c.num(c.get(o, "right_ascension"))), what="the right ascension leaves [0, 2 pi)")
        rep.cond("space/declination", f, within(c.num(c.get(o, "declination")), -half, half), what="the declination leaves [-pi/2, pi/2]")
        rep.cond("space/range", f, D.cmp_(">=", c.num(c.get(o, "range")), zero), what="a negative range")
    f = "openspace.time.Epoch.greenwich_hour_angle"
    with rep.section("hour-angle", f):
        c = w.case()
        rep.cond("hour-angle/range", f, turn(c.num(c.m(c.epoch(D.var("t", scale=59000.0)), "greenwich_hour_angle"))), what="the hour angle leaves [0, 2 pi)")
