"""Inertial <-> Earth-fixed position conversions apply the documented chain at the given epoch, and reverse chains are transposes in reverse order."""
from .. import dag as D
from .. import ref as R
from ..world import POS

MIN_OBLIGATIONS = 14


def lin(c, f, t):
    """matrix of a linear conversion, from its value on the unit vectors"""
    cols = [c.xyz(c.call(f, c.v3([int(i == j) for i in range(3)]), c.epoch(t))) for j in range(3)]
    return R.T(cols)


def check(rep):
    w = rep.world
    t = D.var("t", scale=6.0e6)
    p = [D.var("p." + k, scale=10000.0) for k in "xyz"]
    P, N, E = R.precession(t), R.nutation(t), R.earth_rotation(t)
    Z = [D.const(0), D.const(0), D.const(1)]
    ijk = R.rot(Z, R.gha(t))
    G, I = POS + "PositionConvert.gcrf.", POS + "PositionConvert.itrf."
    specs = [
        (G + "to_mod", [P]), (G + "to_tod", [N, P]), (G + "to_itrf", [E, N, P]), (G + "to_ijk", [ijk, E, N, P]),
        (I + "to_tod", [R.T(E)]), (I + "to_mod", [R.T(N), R.T(E)]), (I + "to_gcrf", [R.T(P), R.T(N), R.T(E)]), (I + "to_ijk", [ijk]),
    ]
    got = {}
    for f, chain in specs:
        name = ".".join(f.split(".")[-2:])
        with rep.section(name, f):
            c = w.case()
            v = c.vec3("p", 10000.0)
            ep = c.epoch(t)
            r = c.xyz(c.call(f, v, ep))
            exp = p
            for m in reversed(chain):
                exp = R.mv(m, exp)
            rep.eq(name + "/chain", f, r, exp)
            got[name] = r
    # reverse conversions undo the forward ones exactly where every link is orthonormal
    with rep.section("itrf-tod round trip", I + "to_tod"):
        c = w.case()
        tod = c.v3(c.xyz(c.call(I + "to_tod", c.vec3("p", 10000.0), c.epoch(t))))
        E_ = c.rows(c.call("openspace.bodies.celestial.Earth.rotation", c.epoch(t)))
        rep.eq("itrf.to_tod/undone-by-rotation", I + "to_tod", R.mv(E_, c.xyz(tod)), p)
    with rep.section("transposes", I + "to_gcrf"):
        c = w.case()
        A, B = lin(c, G + "to_itrf", t), lin(c, I + "to_gcrf", t)
        rep.eq("itrf.to_gcrf/transpose-of-gcrf.to_itrf", I + "to_gcrf", R.flat(B), R.flat(R.T(A)))
        C1, C2 = lin(c, G + "to_tod", t), lin(c, I + "to_mod", t)
        A1 = lin(c, G + "to_mod", t)
        # the three ways of composing agree
        rep.eq("gcrf.to_itrf/through-tod", G + "to_itrf", R.flat(R.mm(R.T(lin(c, I + "to_tod", t)), C1)), R.flat(A))
        rep.eq("itrf.to_gcrf/through-mod", I + "to_gcrf", R.flat(R.mm(R.T(A1), C2)), R.flat(B))
    with rep.section("round trip", I + "to_gcrf"):
        c = w.case()
        r = c.call(I + "to_gcrf", c.call(G + "to_itrf", c.vec3("p", 10000.0), c.epoch(t)), c.epoch(t))
        # the linearised nutation matrix is orthonormal to second order in angles below 1e-4 rad
        rep.eq("round-trip-to-nutation-accuracy", I + "to_gcrf", c.xyz(r), p, tol=1e-7)
    with rep.section("ijk length", G + "to_ijk"):
        c = w.case()
        v = c.vec3("p", 10000.0)
        r = c.xyz(c.call(I + "to_ijk", v, c.epoch(t)))
        rep.eq("itrf.to_ijk/keeps-length", I + "to_ijk", R.dot(r, r), R.dot(p, p))
        rep.eq("itrf.to_ijk/keeps-polar-component", I + "to_ijk", r[2], p[2])
