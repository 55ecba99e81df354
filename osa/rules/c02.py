"""Rotation and frame matrices are proper rotations with the documented axes and sense."""
from .. import dag as D
from .. import ref as R
from ..world import L, POS, S

MIN_OBLIGATIONS = 20


def proper(rep, name, entry, m, pre=()):
    rep.eq(name + "/orthonormal", entry, R.flat(R.mm(m, R.T(m))), R.flat(R.eye(3)), pre)
    rep.eq(name + "/determinant", entry, R.det3(m), D.const(1), pre)


def check(rep):
    w = rep.world
    th = D.var("theta")
    e = L + "Vector3D.rotation_matrix"
    with rep.section("rotation_matrix", e):
        c = w.case()
        ax = c.vec3("u")
        a = c.xyz(ax)
        m = c.rows(c.call(e, ax, th))
        rep.eq("rotation_matrix/right-handed", e, R.flat(m), R.flat(R.rot(a, th)))
        proper(rep, "rotation_matrix", e, m)
        rep.eq("rotation_matrix/fixes-axis", e, R.mv(m, a), a)
        zero = c.rows(c.call(e, ax, 0))
        rep.eq("rotation_matrix/identity-at-zero", e, R.flat(zero), R.flat(R.eye(3)))
        back = c.rows(c.call(e, ax, -th))
        rep.eq("rotation_matrix/inverse-is-minus-theta", e, R.flat(R.T(m)), R.flat(back))
        # only the direction of the axis matters
        k = D.var("k", lo=0.0)
        m2 = c.rows(c.call(e, c.m(ax, "scaled", k), th))
        rep.eq("rotation_matrix/axis-length-irrelevant", e, R.flat(m2), R.flat(m), [D.cmp_(">", k, D.const(0))])
    e = L + "Vector3D.rotation_about_axis"
    with rep.section("rotation_about_axis", e):
        c = w.case()
        x = c.vec3("a")
        r = c.xyz(c.m(x, "rotation_about_axis", c.vec3("u"), th))
        rep.eq("rotation_about_axis/keeps-length", e, R.dot(r, r), R.dot(c.xyz(x), c.xyz(x)))
        rep.eq("rotation_about_axis/sense", e, r, R.mv(R.rot([D.var("u." + q) for q in "xyz"], th), c.xyz(x)))
    e = POS + "ENZ.matrix"
    with rep.section("enz", e):
        c = w.case()
        lon, lat = D.var("lon"), D.var("lat")
        m = c.rows(c.call(e, lon, lat))
        rep.eq("enz/axes", e, R.flat(m), R.flat(R.enz(lon, lat)))
        proper(rep, "enz", e, m)
    e = S + "HCW.frame_matrix"
    with rep.section("ric", e):
        c = w.case()
        s = c.state("GCRF", "o")
        m = c.rows(c.call(e, s))
        p, v = c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity"))
        rep.eq("ric/axes", e, R.flat(m), R.flat(R.ric(p, v)))
        proper(rep, "ric", e, m)
        rep.eq("ric/radial", e, R.mv(m, p), [R.mag(p), D.const(0), D.const(0)])
        rep.eq("ric/no-cross-track-velocity", e, R.mv(m, v)[2], D.const(0))
        rep.cond("ric/in-track-forward", e, D.cmp_(">=", R.mv(m, v)[1], D.const(0)), what="in-track axis points against the motion")
    t = D.var("t", scale=6.0e6)
    for name, refm in (("precession", R.precession), ("rotation", R.earth_rotation), ("nutation", R.nutation)):
        e = "openspace.bodies.celestial.Earth." + name
        with rep.section(name, e):
            c = w.case()
            m = c.rows(c.call(e, c.epoch(t)))
            rep.eq(name + "/definition", e, R.flat(m), R.flat(refm(t)))
            if name != "nutation":
                proper(rep, name, e, m)
            else:
                n = [[m[i][j] - (1 if i == j else 0) for j in range(3)] for i in range(3)]
                rep.eq("nutation/identity-plus-antisymmetric", e, R.flat(n), [-x for x in R.flat(R.T(n))])
    e = "openspace.bodies.terrestrial.GroundSite"
    with rep.section("site", e):
        c = w.case()
        lla = c.new(POS + "LLA", D.var("lat"), D.var("lon"), D.var("alt"))
        m = c.rows(c.get(c.new(e, lla), "enz_matrix"))
        rep.eq("site/axes", e, R.flat(m), R.flat(R.enz(D.var("lon"), D.var("lat"))))
        proper(rep, "site", e, m)
