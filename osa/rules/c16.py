"""Sun and Moon positions follow their defining series; third-body and radiation-pressure accelerations follow from them."""
from .. import dag as D
from .. import ref as R
from ..world import S

MIN_OBLIGATIONS = 12
G = S + "GCRF"
CE = "openspace.bodies.celestial."


def check(rep):
    w = rep.world
    t = D.var("s.t", scale=59000.0)
    for nm, fn in (("Sun", R.sun), ("Moon", R.moon)):
        e = CE + nm + ".get_position"
        with rep.section(nm, e):
            c = w.case()
            ep = c.epoch(t)
            rep.eq(nm + "/position", e, c.xyz(c.call(e, ep)), fn(t), rel=1e-10)
            rep.eq(nm + "/epoch-unchanged", e, c.num(c.get(ep, "value")), t)
    with rep.section("constants", CE + "Sun"):
        c = w.case()
        for nm, v in (("Sun.MU", R.SUN_MU), ("Moon.MU", R.MOON_MU), ("Sun.P", R.SUN_P), ("Sun.AU", D.lit(149597870.691)), ("Moon.RADIUS", D.lit(1737.4))):
            rep.eq("constant/" + nm, CE + nm.split(".")[0], c.num(c.find(CE + nm)), v)
    k = D.var("k", lo=0.0, scale=0.02)

    def state(c):
        s = c.state("GCRF", "s", rscale=22000.0, vscale=3.0)
        c.set(s, "srp_scalar", k)
        return s, c.xyz(c.get(s, "position"))

    for nm, fn, mu in (("sun", R.sun, R.SUN_MU), ("moon", R.moon, R.MOON_MU)):
        e = "%s.acceleration_from_%s" % (G, nm)
        with rep.section("third-body/" + nm, e):
            c = w.case()
            s, p = state(c)
            rep.eq("third-body/" + nm, e, c.xyz(c.m(s, "acceleration_from_" + nm)), R.third_body(mu, fn(t), p))
            z = c.new(G, c.epoch(t), c.v3([0, 0, 0]), c.vec3("v"))
            rep.eq("third-body/%s-at-centre" % nm, e, c.xyz(c.m(z, "acceleration_from_" + nm)), [D.const(0)] * 3)
        e = "%s.%s_vector" % (G, nm)
        with rep.section(nm + "_vector", e):
            c = w.case()
            s, p = state(c)
            rep.eq(nm + "_vector", e, c.xyz(c.m(s, nm + "_vector")), R.sub(fn(t), p))
    e = G + ".acceleration_from_srp"
    with rep.section("radiation", e):
        c = w.case()
        s, p = state(c)
        rep.eq("radiation/pressure", e, c.xyz(c.m(s, "acceleration_from_srp")), R.srp(t, p, k))
    # the answers follow the state when its position or epoch is set anew
    t2, k2 = D.var("t2", scale=59000.0), D.var("k2", lo=0.0, scale=0.02)
    for nm, fn in (("sun_vector", lambda p: R.sub(R.sun(t2), p)), ("moon_vector", lambda p: R.sub(R.moon(t2), p)), ("acceleration_from_sun", lambda p: R.third_body(R.SUN_MU, R.sun(t2), p)),
                   ("acceleration_from_moon", lambda p: R.third_body(R.MOON_MU, R.moon(t2), p)), ("acceleration_from_srp", lambda p: R.srp(t2, p, k2))):
        e = G + "." + nm
        with rep.section("moved/" + nm, e):
            c = w.case()
            s, _ = state(c)
            c.m(s, nm)
            p = c.vec3("p2", 22000.0)
            for n_, x in (("position", p), ("epoch", c.epoch(t2)), ("srp_scalar", k2)):
                c.set(s, n_, x)
            rep.eq("moved/" + nm, e, c.xyz(c.m(s, nm)), fn(c.xyz(p)), what="the answer does not follow the state")
    e = CE + "Earth.obliquity_of_ecliptic_at_epoch"
    with rep.section("obliquity", e):
        c = w.case()
        rep.eq("obliquity", e, c.call(e, c.epoch(t)), R.obliquity(t), rel=1e-11)
