"""Relative (RIC, curvilinear) and inertial states convert into one another without loss."""
from .. import dag as D
from .. import ref as R
from ..world import S

MIN_OBLIGATIONS = 12


def check(rep):
    w = rep.world
    to, fr = S + "StateConvert.gcrf.to_hcw", S + "StateConvert.hcw.to_gcrf"

    def inputs(c):
        o = c.state("GCRF", "o")
        return o

    with rep.section("to_hcw", to):
        c = w.case()
        o = c.state("GCRF", "o")
        s = c.state("GCRF", "s")
        h = c.call(to, o, s)
        ro, vo = c.xyz(c.get(o, "position")), c.xyz(c.get(o, "velocity"))
        r, v = c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity"))
        p, q = R.to_hcw(ro, vo, r, v)
        rep.eq("to_hcw/position", to, c.xyz(c.get(h, "position")), p)
        rep.eq("to_hcw/velocity", to, c.xyz(c.get(h, "velocity")), q)
        rep.eq("to_hcw/epoch", to, c.num(c.get(h, "epoch.value")), D.var("o.t", scale=59000.0))
        rep.rule("to_hcw/kind", to, c.clsname(h) == "HCW", "does not return a relative state")
        rep.eq("to_hcw/vector", to, c.xyz6(c.get(h, "vector")), c.pv(h))
        same = c.call(to, o, c.m(o, "copy"))
        rep.eq("to_hcw/origin-is-zero", to, c.pv(same), [D.const(0)] * 6)
    with rep.section("to_gcrf", fr):
        c = w.case()
        o = c.state("GCRF", "o")
        hs = c.state("HCW", "h", rscale=120.0, vscale=0.01)
        g = c.call(fr, hs, o)
        ro, vo = c.xyz(c.get(o, "position")), c.xyz(c.get(o, "velocity"))
        x, xd = c.xyz(c.get(hs, "position")), c.xyz(c.get(hs, "velocity"))
        p, q = R.from_hcw(ro, vo, x, xd)
        rep.eq("to_gcrf/position", fr, c.xyz(c.get(g, "position")), p)
        rep.eq("to_gcrf/velocity", fr, c.xyz(c.get(g, "velocity")), q)
        rep.eq("to_gcrf/epoch", fr, c.num(c.get(g, "epoch.value")), D.var("o.t", scale=59000.0))
        rep.rule("to_gcrf/kind", fr, c.clsname(g) == "GCRF", "does not return an inertial state")
        z = c.new(S + "HCW", c.epoch("h.t"), c.v3([0, 0, 0]), c.v3([0, 0, 0]))
        rep.eq("to_gcrf/zero-is-origin", fr, c.pv(c.call(fr, z, o)), ro + vo)
        # a purely instantaneous velocity increment at the origin is the same vector in the RIC axes
        b = c.vec3("b", 0.1)
        z = c.new(S + "HCW", c.epoch("h.t"), c.v3([0, 0, 0]), b)
        dv = R.sub(c.xyz(c.get(c.call(fr, z, o), "velocity")), vo)
        rep.eq("to_gcrf/burn-along-axes", fr, R.mv(R.ric(ro, vo), dv), c.xyz(b))
        # and back
        back = c.call(to, o, g)
        m = R.mag(ro)
        pre = [D.cmp_("<", D.absv(x[1]), m * R.pi), D.cmp_("<", D.absv(x[2]), m * R.pi / 2), D.cmp_(">", m + x[0], D.const(0))]
        rep.eq("round-trip/relative-position", fr, c.xyz(c.get(back, "position")), x, pre, boundary=False, tol=1e-25)
        rep.eq("round-trip/relative-velocity", fr, c.xyz(c.get(back, "velocity")), xd, pre, boundary=False, tol=1e-25)
    with rep.section("round trip", to):
        c = w.case()
        o = c.state("GCRF", "o")
        s = c.state("GCRF", "s")
        g = c.call(fr, c.call(to, o, s), o)
        rep.eq("round-trip/inertial-position", to, c.xyz(c.get(g, "position")), c.xyz(c.get(s, "position")), boundary=False, tol=1e-25)
        rep.eq("round-trip/inertial-velocity", to, c.xyz(c.get(g, "velocity")), c.xyz(c.get(s, "velocity")), boundary=False, tol=1e-25)
    e = S + "HCW.from_state_vector"
    with rep.section("from_state_vector", e):
        c = w.case()
        v = c.vec6("x")
        h = c.call(e, v)
        rep.eq("from_state_vector", e, c.pv(h) + c.xyz6(c.get(h, "vector")), c.xyz6(v) * 2)
    e = "openspace.bodies.artificial.Spacecraft.hill_position"
    with rep.section("hill_position", e):
        c = w.case()
        SC = "openspace.bodies.artificial.Spacecraft"
        o, s = c.state("GCRF", "o"), c.state("GCRF", "s")
        a, b = c.new(SC, o), c.new(SC, s)
        p, q = R.to_hcw(c.xyz(c.get(o, "position")), c.xyz(c.get(o, "velocity")), c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity")))
        rep.eq("hill_position/of-target-about-caller", e, c.xyz(c.m(a, "hill_position", b)), p)
