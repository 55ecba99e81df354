"""Burns deliver the commanded velocity change: impulsive at once, finite by the rocket equation, with the propellant accounted for."""
from .. import dag as D
from .. import ref as R
from ..world import S
from . import c20
from .calls import age

MIN_OBLIGATIONS = 30
UNROLLED = True
RK = "openspace.propagators.inertial.RK4"
SC = "openspace.bodies.artificial.Spacecraft"
ASSUME = ["the velocity change of a finite burn is decided through the thrust law, its duration and the stage equations, not through the numerical quadrature"]


def duration(dv, md, m0, isp):
    return m0 / md * (1 - D.fn("exp", -(dv / (isp * R.G0))))


def powered(x, h, d, md, m0, isp):
    """One classical Runge-Kutta step of two-body motion under thrust along d, written out independently of the code."""
    u = R.unit(d)

    def rate(y, tau):
        r = y[:3]
        k = -(R.MU / (R.mag(r) * R.dot(r, r)))
        return y[3:] + [k * a + b * (md * isp * R.G0 / (m0 - md * tau)) for a, b in zip(r, u)]

    at = lambda k, q: [a + q * b for a, b in zip(x, k)]
    k1 = rate(x, D.const(0))
    k2 = rate(at(k1, h / 2), h / 2)
    k3 = rate(at(k2, h / 2), h / 2)
    k4 = rate(at(k3, h), h)
    return [a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(x, k1, k2, k3, k4)]


def burn(x, d, md, m0, isp):
    """The state after the whole burn, and its duration."""
    from ..equal import Sample
    T = duration(R.mag(d), md, m0, isp)
    n = int(-(-float(Sample(0).ev(T)) // 300))
    for k in range(n):
        x = powered(x, T / n, d, md, m0 - md * T * k / n, isp)
    return x, T, n


def check(rep):
    w = rep.world
    md, m0, isp = D.var("md", lo=0.001, hi=0.02), D.var("m0", lo=500.0, hi=900.0), D.var("isp", lo=100.0, hi=400.0)
    tau = D.var("tau", lo=-300.0, hi=300.0)
    t0 = D.var("s.t", scale=59000.0)
    hs = D.var("step", scale=300.0)
    f = RK + ".thrust_vector"
    with rep.section("thrust", f):
        c = w.case()
        rk = c.new(RK, c.state("GCRF", "s"))
        rep.eq("thrust/off", f, c.xyz(c.m(rk, "thrust_vector", tau)), [D.const(0)] * 3)
        d = c.vec3("d", 0.01)
        for k, v in (("m_dot", md), ("m0", m0), ("isp", isp), ("thrust_direction", d)):
            c.set(rk, k, v)
        exp = R.scale(R.unit(c.xyz(d)), md * isp * R.G0 / (m0 - md * tau))
        rep.eq("thrust/law", f, c.xyz(c.m(rk, "thrust_vector", tau)), exp)
        rep.eq("thrust/at-ignition", f, c.xyz(c.m(rk, "thrust_vector", 0)), R.scale(R.unit(c.xyz(d)), md * isp * R.G0 / m0))
    f = RK + ".maneuver"

    def prop(c, epoch=None):
        s = c.state("GCRF", "s", epoch=epoch, rscale=22000.0, vscale=3.0)
        c.set(s, "use_perturbations", False)
        return s

    with rep.section("maneuver", f):
        c = w.case()
        rk = c.new(RK, prop(c))
        c.set(rk, "step_size", hs)
        d = c.vec3("d", 0.01)
        n0 = len(c.loops())
        c.m(rk, "maneuver", d, md, m0, isp)
        T = duration(R.mag(c.xyz(d)), md, m0, isp)
        rep.eq("maneuver/cut-off-epoch", f, (c.num(c.get(rk, "state.epoch.value")) - t0) * R.DAY, T, what="the burn does not last as long as the rocket equation requires", tol=1e-9)
        rep.eq("maneuver/engine-off", f, c.num(c.get(rk, "m_dot")), 0, what="the engine is left on")
        rep.eq("maneuver/step-size-restored", f, c.num(c.get(rk, "step_size")), hs)
        rep.eq("maneuver/no-thrust-afterwards", f, c.xyz(c.m(rk, "thrust_vector", tau)), [D.const(0)] * 3)
        rep.eq("maneuver/command-unchanged", f, c.xyz(d), [D.var("d." + a, scale=0.01) for a in "xyz"])
        # the mass inside the burn decreases at the flow rate
        found = False
        for l in c.loops()[n0:]:
            ep = [v for k, v in l.induct.items() if k[-2:] == ("epoch", "value")]
            ms = [v for k, v in l.induct.items() if k[-1] == "m0"]
            if ep and ms:
                found = True
                rep.eq("maneuver/mass-flow", f, ms[0][1], -(md * ep[0][1] * R.DAY), what="the mass carried through the burn does not follow the flow rate")
                rep.eq("maneuver/initial-mass", f, ms[0][0], m0)
        if not found:
            rep.notes.append("no recurrence of the mass: decided by the unrolled burns only")
    # unrolled burns, one to four steps, against the step equations with the thrust set explicitly
    for label, dv, nst in (("short", ("0.001", "-0.0008", "0.0005"), 1), ("long", ("-0.009", "0.004", "0.006"), 3)):
        with rep.section("burn/" + label, f):
            c = w.case()
            s = prop(c, c.epoch(D.const(59000)))
            rk = c.new(RK, s)
            a, b, i_ = D.const(D.F("0.003")), D.const(600), D.const(350)
            d = [R.q(x) for x in dv]
            x0 = c.pv(s)
            q, T, n = burn(x0, d, a, b, i_)
            rep.rule("burn/%s/steps" % label, f, n == nst, "internal: expected %d steps, duration needs %d" % (nst, n))
            c.m(rk, "maneuver", c.v3(d), a, b, i_)
            p = c.pv(c.get(rk, "state"))
            rep.eq("burn/%s/position" % label, f, R.sub(p[:3], x0[:3]), R.sub(q[:3], x0[:3]), boundary=False, tol=1e-13, rel=1e-13)
            rep.eq("burn/%s/velocity" % label, f, R.sub(p[3:], x0[3:]), R.sub(q[3:], x0[3:]), boundary=False, tol=1e-13, rel=1e-13)
    # burn after burn: each follows its own command from what the one before left
    with rep.section("burn/sequence", f):
        c = w.case()
        s = prop(c, c.epoch(D.const(59000)))
        rk = c.new(RK, s)
        plan = [(("0.001", "-0.0008", "0.0005"), "0.003", 600, 350), (("-0.002", "0.001", "0.0015"), "0.003", 600, 350), (("0.001", "0.003", "-0.0005"), "0.004", 550, 300),
                (("0.0010001", "0.003", "-0.0005"), "0.004", 540, 300), (("0.0010001", "0.003", "-0.0005"), "0.004", 540, 300), (("-0.0010001", "-0.003", "0.0005"), "0.004", 530, 320)]
        for k, (dv, a, b, i_) in enumerate(plan):
            d, a, b, i_ = [R.q(x) for x in dv], R.q(a), D.const(b), D.const(i_)
            x0 = c.pv(c.get(rk, "state"))
            e0 = c.num(c.get(rk, "state.epoch.value"))
            before = c.fork()
            c.m(rk, "maneuver", c.v3(d), a, b, i_)
            q, T, n = burn(x0, d, a, b, i_)
            p = c.pv(c.get(rk, "state"))
            nm = "burn/sequence/%d" % (k + 1)
            rep.eq(nm + "/position", f, R.sub(p[:3], x0[:3]), R.sub(q[:3], x0[:3]), boundary=False, tol=1e-13, rel=1e-13)
            rep.eq(nm + "/velocity", f, R.sub(p[3:], x0[3:]), R.sub(q[3:], x0[3:]), boundary=False, tol=1e-13, rel=1e-13)
            rep.eq(nm + "/duration", f, (c.num(c.get(rk, "state.epoch.value")) - e0) * R.DAY, T, tol=1e-9)
            # coasting between burns is unpowered
            c.set(rk, "step_size", D.const(60))
            c.m(rk, "step")
            q = powered(p, D.const(60), d, D.const(0), b, i_)
            rep.eq(nm + "/coast", f, c.pv(c.get(rk, "state")), q, boundary=False, tol=1e-12, rel=1e-13)
            # counters that burns leave behind may stand anywhere; the comparison goes on from the state reached
            age(before, c, rk)
    # spacecraft
    g = SC + ".finite_maneuver"
    dry, pr = D.var("dry", lo=300.0, hi=700.0), D.var("prop", lo=0.0, hi=300.0)

    def craft(c, epoch=None, sym=True):
        sc = c.new(SC, prop(c, epoch))
        if sym:
            for k, v in (("m_dot", md), ("isp", isp), ("dry_mass", dry), ("propellant_mass", pr)):
                c.set(sc, k, v)
        return sc

    with rep.section("finite", g):
        c = w.case()
        sc = craft(c)
        b = c.vec3("b", 0.004)
        c.set(c.get(sc, "propagator"), "step_size", hs)
        c.m(sc, "finite_maneuver", b)
        dv = R.mag(c.xyz(b))
        T = duration(dv, md, dry + pr, isp)
        used = (dry + pr) * (1 - D.fn("exp", -(dv / (isp * R.G0))))
        rep.eq("finite/propellant", g, c.num(c.get(sc, "propellant_mass")) - pr, -used, what="propellant used differs from the rocket equation", tol=1e-9)
        rep.eq("finite/dry-mass", g, c.num(c.get(sc, "dry_mass")), dry)
        rep.eq("finite/total-mass", g, c.m(sc, "total_mass"), dry + pr - used)
        rep.eq("finite/epoch", g, (c.num(c.get(c.m(sc, "current_epoch"), "value")) - t0) * R.DAY, T, tol=1e-9)
        rep.eq("finite/flow-rate-kept", g, [c.num(c.get(sc, "m_dot")), c.num(c.get(sc, "isp"))], [md, isp])
        rep.eq("finite/engine-off", g, c.num(c.get(sc, "propagator.m_dot")), 0)
        rep.eq("finite/step-size-kept", g, c.num(c.get(sc, "propagator.step_size")), hs)
        # a second burn starts from what the first left
        b2 = c.vec3("b2", 0.004)
        c.m(sc, "finite_maneuver", b2)
        dv2 = R.mag(c.xyz(b2))
        rep.eq("finite/second-burn-propellant", g, c.num(c.get(sc, "propellant_mass")) + dry, (dry + pr) * D.fn("exp", -((dv + dv2) / (isp * R.G0))), tol=1e-9)
    with rep.section("finite/direction", g):
        # orbits along the axes, of any radius and speed: the burn length is then a constant and the burn unrolls
        o = D.const(0)
        sym = (D.var("rr", lo=6600.0, hi=60000.0), D.var("vv", lo=1.0, hi=8.0), D.var("uu", lo=0.1, hi=2.0))
        num = (D.const(12000), D.const(5), D.const(1))
        for label, dv in (("short", ("0.001", "-0.0008", "0.0005")), ("long", ("-0.009", "0.004", "0.006"))):
            for ax in ("y", "z"):
                for rr, vv, uu in (sym, num):
                    p0, v0, m = {"y": ([o, rr, o], [-vv, uu, o], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]]), "z": ([o, o, rr], [vv, o, uu], [[0, 0, 1], [1, 0, 0], [0, 1, 0]])}[ax]
                    c = w.case()
                    s = c.new(S + "GCRF", c.epoch(D.const(59000)), c.v3(p0), c.v3(v0))
                    c.set(s, "use_perturbations", False)
                    sc, rk = c.new(SC, s), c.new(RK, s)
                    d = [R.q(x) for x in dv]
                    m = [[D.const(x) for x in r] for r in m]
                    c.m(rk, "maneuver", c.v3(R.mv(R.T(m), d)), D.const(D.F("0.003")), D.const(800), D.const(350))
                    c.m(sc, "finite_maneuver", c.v3(d))
                    if all(isinstance(l.trip, D.N) and l.trip.op == "const" for l in c.loops()):
                        break
                else:
                    rep.undecided.append(("finite/direction", g, "the burn did not unroll"))
                    continue
                p, q = c.pv(c.m(sc, "current_state")), c.pv(c.get(rk, "state"))
                rep.eq("finite/%s/%s/velocity" % (label, ax), g, R.sub(p[3:], v0), R.sub(q[3:], v0), boundary=False, tol=1e-11)
                rep.eq("finite/%s/%s/position" % (label, ax), g, R.sub(p[:3], p0), R.sub(q[:3], p0), boundary=False, tol=1e-11)
    with rep.section("finite/sequence", g):
        # the second and third burn are resolved in the orbit frame they find, at the mass they find
        o = D.const(0)
        c = w.case()
        p0, v0 = [o, D.const(12000), o], [D.const(-5), D.const(1), o]
        s = c.new(S + "GCRF", c.epoch(D.const(59000)), c.v3(p0), c.v3(v0))
        c.set(s, "use_perturbations", False)
        sc = c.new(SC, s)
        mass = D.const(800)
        for k, dv in enumerate((("0.001", "-0.0008", "0.0005"), ("-0.002", "0.001", "0.0015"), ("0.0", "0.0", "0.002"))):
            d = [R.q(x) for x in dv]
            cs = c.m(sc, "current_state")
            x0 = c.pv(cs)
            rk = c.new(RK, cs)
            fr = c.call(S + "HCW.frame_matrix", cs)
            c.m(rk, "maneuver", c.m(c.m(fr, "transpose"), "multiply_vector", c.v3(d)), R.q("0.003"), mass, D.const(350))
            c.m(sc, "finite_maneuver", c.v3(d))
            nm = "finite/sequence/%d" % (k + 1)
            p, q = c.pv(c.m(sc, "current_state")), c.pv(c.get(rk, "state"))
            rep.eq(nm + "/velocity", g, R.sub(p[3:], x0[3:]), R.sub(q[3:], x0[3:]), boundary=False, tol=1e-11)
            rep.eq(nm + "/position", g, R.sub(p[:3], x0[:3]), R.sub(q[:3], x0[:3]), boundary=False, tol=1e-11)
            mass = mass * D.fn("exp", -(R.mag(d) / (350 * R.G0)))
            rep.eq(nm + "/mass", g, c.m(sc, "total_mass"), mass, tol=1e-9)
            mass = c.num(c.m(sc, "total_mass"))
    with rep.section("finite/nothing", g):
        c = w.case()
        sc = craft(c)
        before = c.pv(c.m(sc, "current_state"))
        c.m(sc, "finite_maneuver", c.v3([0, 0, 0]))
        rep.eq("finite/zero-burn-state", g, c.pv(c.m(sc, "current_state")), before)
        rep.eq("finite/zero-burn-propellant", g, c.num(c.get(sc, "propellant_mass")), pr)
    g = SC + ".impulsive_maneuver"
    with rep.section("impulsive", g):
        c = w.case()
        sc = craft(c)
        x0 = c.pv(c.m(sc, "current_state"))
        b = c.vec3("b", 0.01)
        c.m(sc, "impulsive_maneuver", b)
        x1 = c.pv(c.m(sc, "current_state"))
        m = R.T(R.ric(x0[:3], x0[3:]))
        rep.eq("impulsive/position", g, x1[:3], x0[:3])
        rep.eq("impulsive/velocity", g, R.sub(x1[3:], x0[3:]), R.mv(m, c.xyz(b)))
        rep.eq("impulsive/epoch", g, c.num(c.get(c.m(sc, "current_epoch"), "value")), t0)
        rep.eq("impulsive/masses", g, [c.num(c.get(sc, "dry_mass")), c.num(c.get(sc, "propellant_mass"))], [dry, pr])
        rep.eq("impulsive/command-unchanged", g, c.xyz(b), [D.var("b." + a, scale=0.01) for a in "xyz"])
        # opposite burn undoes it
        b3 = R.mv(R.ric(x1[:3], x1[3:]), R.mv(m, R.scale(c.xyz(b), D.const(-1))))
        c.m(sc, "impulsive_maneuver", c.v3(b3))
        rep.eq("impulsive/undo", g, c.pv(c.m(sc, "current_state")), x0, boundary=False)
    # whatever the pointing is doing meanwhile, the burn is the same
    for mode in ("lvlh", "solar", "target"):
        with rep.section("busy/" + mode, g):
            c = w.case()
            e = c.epoch(D.const(59000))
            sc, tgt = craft(c, e), c20.craft(c, "tgt", e)
            c20.mode_of(c, sc, mode, tgt)
            c20.slew_state(c, sc, D.const(59000))
            for k in (1, 2):
                x0 = c.pv(c.m(sc, "current_state"))
                b = c.vec3("b%d" % k, 0.01)
                c.m(sc, "impulsive_maneuver", b)
                x1 = c.pv(c.m(sc, "current_state"))
                rep.eq("busy/%s/impulsive-%d/velocity" % (mode, k), g, R.sub(x1[3:], x0[3:]), R.mv(R.T(R.ric(x0[:3], x0[3:])), c.xyz(b)), boundary=False)
                rep.eq("busy/%s/impulsive-%d/position" % (mode, k), g, x1[:3], x0[:3], boundary=False)
                if k == 1:
                    # a step, and another orbit to burn in
                    before = c.fork()
                    c.m(sc, "step")
                    age(before, c, sc)
            x0 = c.pv(c.m(sc, "current_state"))
            e0 = c.num(c.get(c.m(sc, "current_epoch"), "value"))
            b = c.vec3("b", 0.004)
            c.m(sc, "finite_maneuver", b)
            dv = R.mag(c.xyz(b))
            rep.eq("busy/%s/finite/propellant" % mode, SC + ".finite_maneuver", c.num(c.get(sc, "propellant_mass")) - pr, -(dry + pr) * (1 - D.fn("exp", -(dv / (isp * R.G0)))), tol=1e-9, boundary=False)
            rep.eq("busy/%s/finite/epoch" % mode, SC + ".finite_maneuver", (c.num(c.get(c.m(sc, "current_epoch"), "value")) - e0) * R.DAY, duration(dv, md, dry + pr, isp), tol=1e-9, boundary=False)
    # defaults
    with rep.section("defaults", SC):
        c = w.case()
        sc = c.new(SC, prop(c))
        for nm, v in (("m_dot", "0.003"), ("isp", "350"), ("dry_mass", "600"), ("propellant_mass", "200")):
            rep.eq("defaults/" + nm, SC, c.num(c.get(sc, nm)), R.q(v))
