"""The non-spherical gravity is the gradient of the degree and order four geopotential in the Earth-fixed frame."""
from .. import dag as D
from .. import ref as R
from ..world import S

MIN_OBLIGATIONS = 20
G = S + "GCRF"
EA = "openspace.bodies.celestial.Earth"
LP = "openspace.math.functions.LegendrePolynomial"


def legendre(n, m, s, c):
    """associated Legendre function of sin(phi) without the Condon-Shortley phase, by its closed sum"""
    from fractions import Fraction as F
    from math import factorial
    x = D.const(0)
    for k in range((n - m) // 2 + 1):
        co = F((-1) ** k * factorial(2 * n - 2 * k), 2 ** n * factorial(k) * factorial(n - k) * factorial(n - m - 2 * k))
        t = D.const(co)
        for _ in range(n - m - 2 * k):
            t = t * s
        x = x + t
    for _ in range(m):
        x = x * c
    return x


def check(rep):
    w = rep.world
    phi = D.var("phi", lo=-1.55, hi=1.55)
    with rep.section("legendre", LP):
        c = w.case()
        tab = c.get(c.new(LP, phi), "p")
        s_, c_ = D.sin(phi), D.cos(phi)
        for n in range(5):
            row = c.item(tab, n)
            rep.eq("legendre/degree-%d" % n, LP, [c.num(c.item(row, m)) for m in range(n + 2)], [legendre(n, m, s_, c_) for m in range(n + 1)] + [D.const(0)])
    with rep.section("coefficients", EA):
        c = w.case()
        C_, S_ = c.find(EA + ".C"), c.find(EA + ".S")
        for n in range(2, 5):
            for nm, tab, val in (("C", C_, R.CN), ("S", S_, R.SN)):
                row = c.item(tab, n)
                for m in range(n + 1):
                    e = R.unnorm(n, m, val[n, m]) if (n, m) in val else D.const(0)
                    rep.eq("coefficient/%s%d%d" % (nm, n, m), EA, c.num(c.item(row, m)), e)
    with rep.section("constants", EA):
        c = w.case()
        for nm, v in (("MU", R.MU), ("RADIUS", R.RE), ("FLATTENING", R.FLAT)):
            rep.eq("constant/" + nm, EA, c.num(c.find("%s.%s" % (EA, nm))), v)
        rep.eq("geo_radius", EA + ".geo_radius", c.call(EA + ".geo_radius"), cube_root(R.MU * R.q("86164.090518") * R.q("86164.090518") / (R.TWO_PI * R.TWO_PI)))
    f = G + ".acceleration_from_gravity"
    t = D.var("s.t", scale=59000.0)
    with rep.section("gravity", f):
        for sc in (22000.0, 5200.0, 1500.0):
            c = w.case()
            s = c.state("GCRF", "s%d" % sc, epoch=c.epoch(t), rscale=sc)
            p = c.xyz(c.get(s, "position"))
            pre = [D.cmp_(">", R.mag(p), R.q("6400" if sc > 5000 else "300"))]
            exp = R.itrf_to_gcrf(R.geopotential(R.gcrf_to_itrf(p, t)), t)
            rep.eq("gravity/gradient(%g km)" % sc, f, c.xyz(c.m(s, "acceleration_from_gravity")), exp, pre, tol=1e-7, boundary=False, nsamples=12)
    # quadrants of longitude, both hemispheres, low and high latitude
    with rep.section("gravity/regions", f):
        for q, (sx, sy) in enumerate(((1, 1), (-1, 1), (-1, -1), (1, -1))):
            for z, zs in (("north", 1), ("south", -1)):
                c = w.case()
                x, y, h = [D.var("g%d%s.%s" % (q, z, a), lo=3000.0, hi=9000.0) for a in "xyz"]
                p = [x * sx, y * sy, h * zs]
                s = c.new(G, c.epoch(t), c.v3(p), c.vec3("v", 3.0))
                pre = [D.cmp_(">", R.mag(p), R.q("6400"))]
                exp = R.itrf_to_gcrf(R.geopotential(R.gcrf_to_itrf(p, t)), t)
                rep.eq("gravity/%s-%d" % (z, q), f, c.xyz(c.m(s, "acceleration_from_gravity")), exp, pre, tol=1e-7, boundary=False, nsamples=5)
    # the answer follows the state when its position or epoch is set anew
    with rep.section("gravity/moved", f):
        c = w.case()
        s = c.state("GCRF", "s")
        c.m(s, "acceleration_from_gravity")
        t2 = D.var("t2", scale=59000.0)
        q = c.vec3("q", 22000.0)
        c.set(s, "position", q)
        c.set(s, "epoch", c.epoch(t2))
        exp = R.itrf_to_gcrf(R.geopotential(R.gcrf_to_itrf(c.xyz(q), t2)), t2)
        rep.eq("gravity/moved", f, c.xyz(c.m(s, "acceleration_from_gravity")), exp, tol=1e-7, boundary=False, nsamples=5, plain=True)


def cube_root(x):
    from fractions import Fraction as F
    return D.power(x, D.const(F(1, 3)))
