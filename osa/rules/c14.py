"""The acceleration is the documented sum of forces, the perturbation switch is honoured, and both travel with the state."""
from .. import dag as D
from .. import ref as R
from ..world import S

MIN_OBLIGATIONS = 25
G = S + "GCRF"
RK = "openspace.propagators.inertial.RK4"
SC = "openspace.bodies.artificial.Spacecraft"


def check(rep):
    w = rep.world
    k = D.var("k", lo=0.0, scale=0.02)
    t0 = D.var("s.t", scale=59000.0)

    def state(c, pert, thrust=True):
        s = c.state("GCRF", "s", rscale=22000.0, vscale=3.0)
        if pert is not None:
            c.set(s, "use_perturbations", pert)
        if thrust:
            c.set(s, "thrust", c.vec3("f", 0.001))
        c.set(s, "srp_scalar", k)
        return s

    for pert in (False, True, None):
        nm = {False: "off", True: "on", None: "default"}[pert]
        with rep.section("sum/" + nm, G + ".derivative"):
            c = w.case()
            s = state(c, pert)
            r = c.m(s, "derivative")
            rep.eq("rate-of-position/" + nm, G + ".derivative", c.xyz(c.item(r, 0)), c.xyz(c.get(s, "velocity")))
            exp = R.add(c.xyz(c.get(s, "thrust")), R.two_body(c.xyz(c.get(s, "position"))))
            if pert is not False:
                for m in ("acceleration_from_moon", "acceleration_from_sun", "acceleration_from_srp", "acceleration_from_gravity"):
                    exp = R.add(exp, c.xyz(c.m(s, m)))
            rep.eq("acceleration/" + nm, G + ".derivative", c.xyz(c.item(r, 1)), exp, rel=1e-14, tol=1e-15, boundary=False)
    # the sum follows the state when its parts are set anew
    for before, after in ((False, True), (True, False), (True, True)):
        nm = "%s-%s" % ("on" if before else "off", "on" if after else "off")
        with rep.section("moved/" + nm, G + ".derivative"):
            c = w.case()
            s = state(c, before)
            c.m(s, "derivative")
            p, v, f_, e = c.vec3("p2", 22000.0), c.vec3("v2", 3.0), c.vec3("f2", 0.001), c.epoch("t2")
            k2 = D.var("k2", lo=0.0, scale=0.02)
            other = c.new(G, e, p, v)
            for o in (s, other):
                for n_, x in (("position", p), ("velocity", v), ("thrust", f_), ("epoch", e), ("srp_scalar", k2), ("use_perturbations", after)):
                    c.set(o, n_, x)
            r, q = c.m(s, "derivative"), c.m(other, "derivative")
            for j, part in enumerate(("rate-of-position", "acceleration")):
                rep.eq("moved/%s/%s" % (nm, part), G + ".derivative", c.xyz(c.item(r, j)), c.xyz(c.item(q, j)), boundary=False, what="the force sum does not follow the state")
    for m, e in (("acceleration_from_earth", lambda c, s: R.two_body(c.xyz(c.get(s, "position")))), ("acceleration_from_thrust", lambda c, s: c.xyz(c.get(s, "thrust")))):
        with rep.section(m, G + "." + m):
            c = w.case()
            s = state(c, True)
            rep.eq(m, G + "." + m, c.xyz(c.m(s, m)), e(c, s))
    with rep.section("defaults", G):
        c = w.case()
        s = c.state("GCRF", "s")
        rep.rule("defaults/perturbed", G, c.get(s, "use_perturbations") is True, "a new inertial state is not perturbed by default")
        rep.eq("defaults/thrust", G, c.xyz(c.get(s, "thrust")), [D.const(0)] * 3)
        rep.eq("defaults/srp", G, c.num(c.get(s, "srp_scalar")), 0)

    # the switch and the radiation-pressure coefficient travel with the state
    for pert in (True, False):
        nm = "on" if pert else "off"

        def flag(name, entry, c, s):
            v = c.get(s, "use_perturbations")
            rep.rule("switch/%s/%s" % (name, nm), entry, v is pert, "the perturbation switch is lost")

        with rep.section("switch/copy", G + ".copy"):
            c = w.case()
            s = state(c, pert)
            flag("copy", G + ".copy", c, c.m(s, "copy"))
        with rep.section("switch/propagator", RK):
            c = w.case()
            s = state(c, pert)
            rk = c.new(RK, s)
            flag("propagator", RK, c, c.get(rk, "state"))
            c.m(rk, "step")
            flag("step", RK + ".step", c, c.get(rk, "state"))
        with rep.section("switch/step_to_epoch", RK + ".step_to_epoch"):
            c = w.case()
            s = c.state("GCRF", "s", epoch=c.epoch(D.const(59000)))
            c.set(s, "use_perturbations", pert)
            rk = c.new(RK, s)
            c.m(rk, "step_to_epoch", c.epoch(D.const(59000) + D.const(450) / R.DAY))
            flag("step_to_epoch", RK + ".step_to_epoch", c, c.get(rk, "state"))
            c.m(rk, "maneuver", c.vec3("d", 0.001), D.lit(0.003), D.const(600), D.const(350))
            rep.rule("switch/finite-burn/" + nm, RK + ".maneuver", bool_of(c, c.get(rk, "state")) is pert, "the perturbation switch is lost")
        with rep.section("switch/spacecraft", SC):
            c = w.case()
            s = state(c, pert)
            sc = c.new(SC, s)
            flag("spacecraft", SC, c, c.m(sc, "current_state"))
            c.m(sc, "impulsive_maneuver", c.vec3("b", 0.001))
            flag("impulsive", SC + ".impulsive_maneuver", c, c.m(sc, "current_state"))
            c.m(sc, "step")
            flag("after-step", SC + ".step", c, c.m(sc, "current_state"))
        # the switch thrown on the state in flight is the one that travels on
        def thrown(name, entry, c, s, want):
            v = bool_of(c, s)
            rep.rule("switch/thrown/%s/%s" % (name, nm), entry, v is want, "the perturbation switch of the state in flight is lost")

        with rep.section("switch/thrown/propagator", RK):
            c = w.case()
            rk = c.new(RK, state(c, pert))
            c.set(c.get(rk, "state"), "use_perturbations", not pert)
            c.m(rk, "step")
            thrown("step", RK + ".step", c, c.get(rk, "state"), not pert)
            c.m(rk, "step")
            thrown("second-step", RK + ".step", c, c.get(rk, "state"), not pert)
            c.set(c.get(rk, "state"), "use_perturbations", pert)
            c.m(rk, "step")
            thrown("back", RK + ".step", c, c.get(rk, "state"), pert)
            thrown("copy", G + ".copy", c, c.m(c.get(rk, "state"), "copy"), pert)
            other = state(c, not pert)
            c.set(rk, "state", other)
            c.m(rk, "step")
            thrown("replaced", RK + ".step", c, c.get(rk, "state"), not pert)
            fresh = c.new(RK, c.get(rk, "state"))
            thrown("handed-on", RK, c, c.get(fresh, "state"), not pert)
        with rep.section("switch/thrown/step_to_epoch", RK + ".step_to_epoch"):
            c = w.case()
            s = c.state("GCRF", "s", epoch=c.epoch(D.const(59000)))
            c.set(s, "use_perturbations", pert)
            rk = c.new(RK, s)
            c.set(c.get(rk, "state"), "use_perturbations", not pert)
            c.m(rk, "step_to_epoch", c.epoch(D.const(59000) + D.const(450) / R.DAY))
            thrown("step_to_epoch", RK + ".step_to_epoch", c, c.get(rk, "state"), not pert)
            c.m(rk, "maneuver", c.vec3("d", 0.001), D.lit(0.003), D.const(600), D.const(350))
            thrown("finite-burn", RK + ".maneuver", c, c.get(rk, "state"), not pert)
        for attitude in (None, "solar", "target", "lvlh"):
            lab = "spacecraft" if attitude is None else "spacecraft(%s)" % attitude
            with rep.section("switch/thrown/" + lab, SC):
                c = w.case()
                sc = c.new(SC, state(c, pert))
                if attitude == "target":
                    c.m(sc, "track_state", c.new(SC, c.state("GCRF", "g")))
                elif attitude == "solar":
                    c.m(sc, "track_sun")
                elif attitude == "lvlh":
                    c.m(sc, "track_lvlh")
                c.set(c.get(sc, "propagator.state"), "use_perturbations", not pert)
                c.m(sc, "impulsive_maneuver", c.vec3("b", 0.001))
                thrown(lab + "/impulsive", SC + ".impulsive_maneuver", c, c.m(sc, "current_state"), not pert)
                if attitude is None:
                    c.m(sc, "step")
                    thrown(lab + "/step", SC + ".step", c, c.m(sc, "current_state"), not pert)
                    c.set(c.get(sc, "propagator.state"), "use_perturbations", pert)
                    c.m(sc, "step")
                    c.m(sc, "impulsive_maneuver", c.vec3("b2", 0.001))
                    thrown(lab + "/second-impulsive", SC + ".impulsive_maneuver", c, c.m(sc, "current_state"), pert)
    # thrust does not outlive the burn
    with rep.section("thrust-off", RK + ".step"):
        c = w.case()
        s = state(c, False)
        rk = c.new(RK, s)
        rep.eq("thrust-off/copy", RK, c.xyz(c.get(rk, "state.thrust")), [D.const(0)] * 3)
        c.m(rk, "step")
        rep.eq("thrust-off/step", RK + ".step", c.xyz(c.get(rk, "state.thrust")), [D.const(0)] * 3)
    # radiation-pressure coefficient
    with rep.section("srp", SC + ".srp_scalar"):
        c = w.case()
        s = state(c, True)
        sc = c.new(SC, s)
        al, rad, dry, prop = D.var("albedo", lo=0.0, hi=1.0), D.var("rad", lo=0.0, scale=0.005), D.var("dry", lo=0.0, scale=600.0), D.var("prop", lo=0.0, scale=200.0)
        for n_, v in (("albedo", al), ("body_radius", rad), ("dry_mass", dry), ("propellant_mass", prop)):
            c.set(sc, n_, v)
        rep.eq("srp/coefficient", SC + ".srp_scalar", c.m(sc, "srp_scalar"), (1 + al) * R.pi * rad * rad * 1000000 / (dry + prop))
        rep.eq("srp/area", SC + ".area", c.m(sc, "area"), R.pi * rad * rad)
        rep.eq("srp/mass", SC + ".total_mass", c.m(sc, "total_mass"), dry + prop)
    with rep.section("srp/travels", G + ".copy"):
        c = w.case()
        s = state(c, True)
        rep.eq("srp/copy", G + ".copy", c.num(c.get(c.m(s, "copy"), "srp_scalar")), k, what="the radiation-pressure coefficient is lost")
        rk = c.new(RK, s)
        rep.eq("srp/propagator", RK, c.num(c.get(rk, "state.srp_scalar")), k, what="the radiation-pressure coefficient is lost")
        c.set(c.get(rk, "state"), "srp_scalar", k)
        c.m(rk, "step")
        rep.eq("srp/step", RK + ".step", c.num(c.get(rk, "state.srp_scalar")), k, what="the radiation-pressure coefficient is lost")
        sc = c.new(SC, c.state("GCRF", "s"))
        rep.eq("srp/initial-state", SC, c.num(c.get(sc, "initial_state.srp_scalar")), D.lit(1.3) * R.pi * D.lit(0.005) * D.lit(0.005) * 1000000 / 800)
        rep.eq("srp/spacecraft", SC, c.num(c.get(sc, "propagator.state.srp_scalar")), c.num(c.get(sc, "initial_state.srp_scalar")), what="the radiation-pressure coefficient is lost")


def bool_of(c, s):
    from ..interp import Phi, Ref
    if isinstance(s, Phi):
        a, b = bool_of(c, s.a), bool_of(c, s.b)
        return a if a is b else None
    return c.get(s, "use_perturbations")
