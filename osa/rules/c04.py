"""Geodetic coordinates: ellipsoid point, inverse, local axes and ground sites."""
from .. import dag as D
from .. import ref as R
from ..world import POS, L

MIN_OBLIGATIONS = 10
ASSUME = ["the inverse conversion is compared on points from 400 km below to 60 000 km above the ellipsoid"]


def closed_form(p):
    """the documented closed form (2.77) written over value numbers"""
    x, y, z = p
    a2 = RE2 = R.RE * R.RE
    b = R.RE * (1 - R.FLAT)
    b2 = b * b
    e2, eps2 = 1 - b2 / a2, a2 / b2 - 1
    rho = D.sqrt(x * x + y * y)
    pp = D.absv(z) / eps2
    s = rho * rho / (e2 * eps2)
    q = pp * pp - b2 + s
    u = pp / D.sqrt(q)
    v = b2 * u * u / q
    P = 27 * v * s / q
    Q = D.power(D.sqrt(P + 1) + D.sqrt(P), D.const(2) / D.const(3))
    t = (1 + Q + 1 / Q) / 6
    c = D.sqrt(u * u - 1 + 2 * t)
    w = (c - u) / 2
    base = D.sqrt(t * t + v) - u * w - t / 2 - D.const(1) / D.const(4)
    base = D.ite(D.cmp_("<", base, D.const(0)), D.const(0), base)
    sg = D.ite(D.cmp_(">", z, D.const(0)), D.const(1), D.ite(D.cmp_("<", z, D.const(0)), D.const(-1), D.const(0)))
    d = sg * D.sqrt(q) * (w + D.sqrt(base))
    n = R.RE * D.sqrt(1 + eps2 * d * d / b2)
    lat = D.fn("asin", R.clamp((eps2 + 1) * (d / n), -1, 1))
    h = rho * D.cos(lat) + z * D.sin(lat) - a2 / n
    return lat, R.wrap(D.atan2(y, x)), h


def lla_vars():
    return D.var("lat", lo=-1.5707, hi=1.5707), D.var("lon", lo=0.0, hi=6.28318), D.var("alt", lo=-400.0, hi=60000.0)


def check(rep):
    w = rep.world
    lat, lon, alt = lla_vars()
    f = POS + "PositionConvert.lla.to_itrf"
    with rep.section("lla.to_itrf", f):
        c = w.case()
        r = c.xyz(c.call(f, c.new(POS + "LLA", lat, lon, alt)))
        rep.eq("lla.to_itrf/ellipsoid", f, r, R.lla_to_itrf(lat, lon, alt))
        # at zero altitude the point satisfies the equation of the ellipsoid
        r0 = c.xyz(c.call(f, c.new(POS + "LLA", lat, lon, 0)))
        b = R.RE * (1 - R.FLAT)
        rep.eq("lla.to_itrf/on-ellipsoid", f, (r0[0] * r0[0] + r0[1] * r0[1]) / (R.RE * R.RE) + r0[2] * r0[2] / (b * b), D.const(1))
        wl, wn = D.var("lat*", lo=-1.5707963, hi=1.5707963), D.var("lon*", lo=-6.2831853, hi=12.566)
        rep.eq("lla.to_itrf/any-longitude", f, c.xyz(c.call(f, c.new(POS + "LLA", wl, wn, alt))), R.lla_to_itrf(wl, wn, alt))
        up = R.enz(lon, lat)[2]
        rep.eq("lla.to_itrf/altitude-along-normal", f, R.sub(r, r0), R.scale(up, alt))
    g = POS + "PositionConvert.itrf.to_lla"
    with rep.section("itrf.to_lla", g):
        c = w.case()
        p = c.vec3("p", 9000.0)
        r = c.call(g, p)
        out = [c.num(c.get(r, k)) for k in ("latitude", "longitude", "altitude")]
        rp = [D.var("p." + k, scale=9000.0) for k in "xyz"]
        pre = [D.cmp_(">", R.dot(rp, rp), D.const(5900 ** 2))]
        rep.eq("itrf.to_lla/latitude", g, out[0], closed_form(rp)[0], pre)
        rep.eq("itrf.to_lla/longitude", g, out[1], closed_form(rp)[1], pre)
        rep.eq("itrf.to_lla/altitude", g, out[2], closed_form(rp)[2], pre)
        # what the closed form is for: the recovered coordinates reproduce the point
        rep.eq("itrf.to_lla/reproduces-point", g, R.lla_to_itrf(*out), rp, pre, boundary=False)
    # near the surface (below and above it), and out to deep space
    near = D.var("terrain", lo=-11.0, hi=9.0)
    for label, al in (("", alt), ("-terrain", near)):
        with rep.section("round trip" + label, g):
            c = w.case()
            r = c.call(g, c.call(f, c.new(POS + "LLA", lat, lon, al)))
            out = [c.num(c.get(r, k)) for k in ("latitude", "longitude", "altitude")]
            rep.eq("round-trip%s/latitude" % label, g, out[0], lat, boundary=False, tol=1e-20)
            rep.eq("round-trip%s/longitude" % label, g, out[1], lon, boundary=False, tol=1e-20)
            rep.eq("round-trip%s/altitude" % label, g, out[2], al, boundary=False, tol=1e-20)
    e = POS + "PositionConvert.enz.to_itrf"
    with rep.section("enz.to_itrf", e):
        c = w.case()
        v = c.vec3("v")
        r = c.xyz(c.call(e, c.new(POS + "LLA", lat, lon, alt), v))
        rep.eq("enz.to_itrf/axes", e, r, R.mv(R.T(R.enz(lon, lat)), c.xyz(v)))
        rep.eq("enz.to_itrf/keeps-length", e, R.dot(r, r), R.dot(c.xyz(v), c.xyz(v)))
    s = "openspace.bodies.terrestrial.GroundSite"
    with rep.section("site", s):
        c = w.case()
        site = c.new(s, c.new(POS + "LLA", lat, lon, alt))
        rep.eq("site/position", s, c.xyz(c.get(site, "itrf_position")), R.lla_to_itrf(lat, lon, alt))
        rep.eq("site/coordinates", s, [c.num(c.get(site, "latitude")), c.num(c.get(site, "longitude"))], [lat, lon])
        wl, wn = D.var("lat*", lo=-1.5707963, hi=1.5707963), D.var("lon*", lo=-6.2831853, hi=12.566)
        o = c.vec3("o", 9000.0)
        west = c.new(s, c.new(POS + "LLA", wl, wn, alt))
        rep.eq("site/any-longitude", s, c.xyz(c.get(west, "itrf_position")), R.lla_to_itrf(wl, wn, alt))
        rep.eq("site/any-longitude-enz", s + ".enz_position", c.xyz(c.m(west, "enz_position", o)), R.mv(R.enz(wn, wl), R.sub(c.xyz(o), R.lla_to_itrf(wl, wn, alt))))
        r = c.xyz(c.m(site, "enz_position", o))
        d = R.sub(c.xyz(o), R.lla_to_itrf(lat, lon, alt))
        rep.eq("site/enz_position", s + ".enz_position", r, R.mv(R.enz(lon, lat), d))
        rep.eq("site/itself-at-origin", s + ".enz_position", c.xyz(c.m(site, "enz_position", c.get(site, "itrf_position"))), [D.const(0)] * 3)
        back = c.xyz(c.call(e, c.new(POS + "LLA", lat, lon, alt), c.v3(r)))
        rep.eq("site/enz-undone", e, R.add(back, R.lla_to_itrf(lat, lon, alt)), c.xyz(o))
    e = s + ".from_itrf_position"
    for label, al in (("", alt), ("-terrain", near)):
        with rep.section("site from itrf" + label, e):
            c = w.case()
            p0 = R.lla_to_itrf(lat, lon, al)
            site = c.call(e, c.v3(p0))
            rep.eq("site/from-itrf-position" + label, e, c.xyz(c.get(site, "itrf_position")), p0, boundary=False, tol=1e-20)
            rep.eq("site/from-itrf-coordinates" + label, e, [c.num(c.get(site, "latitude")), c.num(c.get(site, "longitude"))], [lat, lon], boundary=False, tol=1e-20)
