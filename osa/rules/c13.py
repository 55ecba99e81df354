"""One integration step is the classical fourth-order Runge-Kutta step of the state's own equations of motion."""
from .. import dag as D
from .. import ref as R
from ..world import S

MIN_OBLIGATIONS = 12
RK = "openspace.propagators.inertial.RK4"


def check(rep):
    w = rep.world
    f = RK + ".step"
    h = D.var("h", scale=60.0)
    t0 = D.var("s.t", scale=59000.0)

    def deriv(c, t, p, v, thrust, pert):
        s = c.new(S + "GCRF", c.epoch(t), c.v3(p), c.v3(v))
        c.set(s, "use_perturbations", pert)
        c.set(s, "thrust", c.v3(thrust))
        k = c.m(s, "derivative")
        return c.xyz(c.item(k, 0)), c.xyz(c.item(k, 1))

    def rk4(c, p, v, thrust, pert):
        """reference tableau: stage times 0, 1/2, 1/2, 1; weights 1/6, 1/3, 1/3, 1/6"""
        half = h / 2
        k1 = deriv(c, t0, p, v, thrust(0), pert)
        k2 = deriv(c, t0 + half / R.DAY, R.add(p, R.scale(k1[0], half)), R.add(v, R.scale(k1[1], half)), thrust(half), pert)
        k3 = deriv(c, t0 + half / R.DAY, R.add(p, R.scale(k2[0], half)), R.add(v, R.scale(k2[1], half)), thrust(half), pert)
        k4 = deriv(c, t0 + h / R.DAY, R.add(p, R.scale(k3[0], h)), R.add(v, R.scale(k3[1], h)), thrust(h), pert)
        out = []
        for j, x0 in ((0, p), (1, v)):
            out.append([x + h / 6 * (a + 2 * b + 2 * c_ + d) for x, a, b, c_, d in zip(x0, k1[j], k2[j], k3[j], k4[j])])
        return out

    off = lambda t: [D.const(0)] * 3
    for pert in (False, True):
        nm = "perturbed" if pert else "two-body"
        with rep.section("step/" + nm, f):
            c = w.case()
            s = c.state("GCRF", "s", rscale=22000.0, vscale=3.0)
            c.set(s, "use_perturbations", pert)
            p, v = c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity"))
            rk = c.new(RK, s)
            c.set(rk, "step_size", h)
            c.m(rk, "step")
            out = c.pv(c.get(rk, "state"))
            ep, ev = rk4(c, p, v, off, pert)
            n = 6 if pert else None
            # rates of change over the step, so that small force terms weigh
            rate = lambda x, x0: [(a - b) / h for a, b in zip(x, x0)]
            rep.eq("position/" + nm, f, rate(out[:3], p), rate(ep, p), boundary=not pert, nsamples=n, tol=1e-14, rel=1e-13)
            rep.eq("velocity/" + nm, f, rate(out[3:], v), rate(ev, v), boundary=not pert, nsamples=n, tol=1e-14, rel=1e-13)
            rep.eq("epoch/" + nm, f, c.num(c.get(rk, "state.epoch.value")), t0 + h / R.DAY)
            rep.eq("vector/" + nm, f, c.xyz6(c.get(rk, "state.vector")), out)
            rep.rule("kind/" + nm, f, c.clsname(c.get(rk, "state")) == "GCRF", "the propagated state is not inertial")
            rep.eq("caller-state-unchanged/" + nm, RK, c.pv(s), p + v)
    # the equations of motion are those of the state the step starts from, whatever the propagator was built with
    for pert in (False, True):
        nm = "on" if pert else "off"
        for how in ("thrown", "replaced", "second"):
            with rep.section("own-equations/%s/%s" % (how, nm), f):
                c = w.case()
                s = c.state("GCRF", "s", rscale=22000.0, vscale=3.0)
                c.set(s, "use_perturbations", not pert if how != "second" else pert)
                rk = c.new(RK, s if how != "replaced" else c.state("GCRF", "z", rscale=22000.0, vscale=3.0))
                c.set(rk, "step_size", h)
                if how == "thrown":
                    c.set(c.get(rk, "state"), "use_perturbations", pert)
                elif how == "replaced":
                    c.set(s, "use_perturbations", pert)
                    c.set(rk, "state", s)
                else:
                    # the first step ends at the state the reference starts from
                    c.m(rk, "step")
                    t1 = t0 + h / R.DAY
                    x = c.pv(c.get(rk, "state"))
                    rep.eq("second-step/epoch/" + nm, f, c.num(c.get(rk, "state.epoch.value")), t1)
                    fresh = c.new(S + "GCRF", c.epoch(t1), c.v3(x[:3]), c.v3(x[3:]))
                    c.set(fresh, "use_perturbations", pert)
                    one = c.new(RK, fresh)
                    c.set(one, "step_size", h)
                    c.m(one, "step")
                    c.m(rk, "step")
                    rep.eq("second-step/" + nm, f, c.pv(c.get(rk, "state")), c.pv(c.get(one, "state")), boundary=False, nsamples=4, tol=1e-14, rel=1e-13)
                    continue
                p, v = c.xyz(c.get(rk, "state.position")), c.xyz(c.get(rk, "state.velocity"))
                c.m(rk, "step")
                out = c.pv(c.get(rk, "state"))
                ep, ev = rk4(c, p, v, off, pert)
                rep.eq("own-equations/%s/%s" % (how, nm), f, [(a - b) / h for a, b in zip(out, p + v)], [(a - b) / h for a, b in zip(ep + ev, p + v)], boundary=False, nsamples=4, tol=1e-14, rel=1e-13)
    # thrusting: the thrust acceleration enters every stage at that stage's time
    md, m0, isp = D.var("md", lo=0.0, scale=0.003), D.var("m0", lo=500.0, hi=900.0), D.var("isp", lo=100.0, hi=400.0)
    with rep.section("step/thrust", f):
        c = w.case()
        s = c.state("GCRF", "s", rscale=22000.0, vscale=3.0)
        c.set(s, "use_perturbations", False)
        p, v = c.xyz(c.get(s, "position")), c.xyz(c.get(s, "velocity"))
        rk = c.new(RK, s)
        d = c.vec3("d")
        u = R.unit(c.xyz(d))
        for k, x in (("step_size", h), ("m_dot", md), ("m0", m0), ("isp", isp), ("thrust_direction", d)):
            c.set(rk, k, x)
        c.m(rk, "step")
        thrust = lambda t: R.scale(u, md * isp * R.G0 / (m0 - md * t))
        ep, ev = rk4(c, p, v, thrust, False)
        out = c.pv(c.get(rk, "state"))
        rep.eq("position/thrust", f, out[:3], ep, boundary=False, tol=1e-16)
        rep.eq("velocity/thrust", f, out[3:], ev, boundary=False, tol=1e-16)
        rep.eq("mass/thrust", f, c.num(c.get(rk, "m0")), m0 - md * h)
        rep.eq("rate/thrust", f, c.num(c.get(rk, "m_dot")), md)
    # propagation over several steps repeats the step
    with rep.section("repeated", RK + ".step_to_epoch"):
        for secs, n in ((600, 2), (-600, 2), (137, 1), (-301, 2), (899, 3)):
            c = w.case()
            s = c.state("GCRF", "s", epoch=c.epoch(D.const(59000)), rscale=22000.0, vscale=3.0)
            c.set(s, "use_perturbations", False)
            rk, rk2 = c.new(RK, s), c.new(RK, s)
            c.m(rk, "step_to_epoch", c.epoch(D.const(59000) + D.const(secs) / R.DAY))
            c.set(rk2, "step_size", D.const(secs) / n)
            for _ in range(n):
                c.m(rk2, "step")
            rep.eq("repeated/state(%ds)" % secs, RK + ".step_to_epoch", c.pv(c.get(rk, "state")), c.pv(c.get(rk2, "state")), boundary=False, tol=1e-16)
