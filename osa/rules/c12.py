"""Propagation to an epoch lands exactly on that epoch, forwards, backwards and over zero time, in steps no longer than the maximum."""
from .. import dag as D
from .. import ref as R

MIN_OBLIGATIONS = 20
UNROLLED = True
RK = "openspace.propagators.inertial.RK4"
SC = "openspace.bodies.artificial.Spacecraft"
ASSUME = ["epochs are real numbers: the rounding of the accumulated epoch is not modelled"]


def strides(c, rk, first):
    """per loop: (number of passes, time advanced per pass in seconds) from the recurrence summaries"""
    out = []
    for l in c.loops()[first:]:
        for path, (init, step) in l.induct.items():
            if path[-2:] == ("epoch", "value") and isinstance(step, D.N):
                out.append((l, step * R.DAY))
    return out


def check(rep):
    w = rep.world
    f = RK + ".step_to_epoch"
    t0, t1 = D.var("s.t", scale=59000.0), D.var("t1", scale=59000.0)
    dt = (t1 - t0) * R.DAY
    hs = D.var("step", scale=60.0)
    # the interval of interest, near enough that boundaries between step counts are exercised
    k = D.var("days", lo=-2.0, hi=2.0)

    def rk4(c, **kw):
        s = c.state("GCRF", "s")
        c.set(s, "use_perturbations", False)
        return c.new(RK, s)

    for label, target in (("any", t1), ("near", t0 + k), ("tiny", t0 + k / 86400), ("same", t0)):
        with rep.section("lands/" + label, f):
            c = w.case()
            rk = rk4(c)
            c.set(rk, "step_size", hs)
            n0 = len(c.loops())
            before = c.pv(c.get(rk, "state"))
            ep = c.epoch(target)
            c.m(rk, "step_to_epoch", ep)
            got = c.num(c.get(rk, "state.epoch.value"))
            rep.eq("lands/" + label, f, got - t0, target - t0, what="the propagated state is not at the requested epoch")
            rep.eq("step-size-restored/" + label, f, c.num(c.get(rk, "step_size")), hs, what="the step size chosen by the user is not restored")
            rep.eq("target-unchanged/" + label, f, c.num(c.get(ep, "value")), target)
            rep.eq("engine-off/" + label, f, c.num(c.get(rk, "m_dot")), 0)
            if label == "same":
                rep.eq("zero-time-is-identity", f, c.pv(c.get(rk, "state")), before, what="propagating over zero time changes the state")
                continue
            ss = strides(c, rk, n0)
            if not ss:
                rep.weakly("max-step/" + label, f, "no recurrence of the epoch was found")
                continue
            for l, step in ss:
                lim = D.num(c.num(c.find(RK + ".MAX_STEP")))
                span = (target - t0) * R.DAY
                rep.cond("max-step/" + label, f, D.c_or(D.cmp_("==", span, D.const(0)), D.cmp_("<=", D.absv(step), lim)), what="a single integration step exceeds the maximum step")
                rep.cond("direction/" + label, f, D.c_or(D.cmp_("==", span, D.const(0)), D.cmp_(">", step * span, D.const(0))), what="steps run against the requested direction")
                rep.eq("max-step-value/" + label, f, lim, 300)
    # unrolled: spans about every boundary between step counts, decided from the epochs at which the motion is evaluated
    DER = "openspace.coordinates.states.GCRF.derivative"
    E0 = D.const(59000)
    for label, secs in [("%s%s" % (sg, x), (D.F(x) if sg == "+" else -D.F(x))) for x in ("0", "0.001", "1", "299.999", "300", "300.001", "451.7", "599.9", "600", "601", "1200", "1500.5") for sg in ("+", "-")]:
        with rep.section("span/" + label, f):
            c = w.case()
            s = c.state("GCRF", "s", epoch=c.epoch(E0))
            c.set(s, "use_perturbations", False)
            rk = c.new(RK, s)
            c.set(rk, "step_size", hs)
            seen = []

            def hook(it, st, args, kw):
                seen.append(it.num(it.getattr(it.getattr(args[0], "epoch", c.fr, st), "value", c.fr, st)))
                return NotImplemented

            goal = E0 + D.const(secs) / R.DAY
            old = w.it.stubs.get(DER)
            w.it.stubs[DER] = hook
            try:
                c.m(rk, "step_to_epoch", c.epoch(goal))
            finally:
                if old is None:
                    del w.it.stubs[DER]
                else:
                    w.it.stubs[DER] = old
            rep.eq("span/%s/lands" % label, f, c.num(c.get(rk, "state.epoch.value")) - E0, D.const(secs) / R.DAY, what="the propagated state is not at the requested epoch", tol=1e-12)
            rep.eq("span/%s/step-size-restored" % label, f, c.num(c.get(rk, "step_size")), hs)
            if all(x.op == "const" for x in seen):
                at = sorted({x.val for x in seen} | {E0.val, goal.val})
                rep.rule("span/%s/step-length" % label, f, all((b - a) * 86400 <= 150 + D.F("1e-6") for a, b in zip(at, at[1:])) , "the motion is evaluated at epochs further apart than half the maximum step")
                lo, hi = sorted((E0.val, goal.val))
                rep.rule("span/%s/direction" % label, f, all(lo - D.F("1e-12") <= x <= hi + D.F("1e-12") for x in at), "the motion is evaluated outside the requested interval")
    with rep.section("there-and-back", f):
        c = w.case()
        rk = rk4(c)
        c.m(rk, "step_to_epoch", c.epoch(t0 + k))
        c.m(rk, "step_to_epoch", c.epoch(t0))
        rep.eq("there-and-back", f, c.num(c.get(rk, "state.epoch.value")), t0)
    with rep.section("single-step", RK + ".step"):
        c = w.case()
        rk = rk4(c)
        rep.eq("default-step", RK + ".step", c.num(c.get(rk, "step_size")), 300)
        c.set(rk, "step_size", hs)
        c.m(rk, "step")
        rep.eq("step/advances-by-step-size", RK + ".step", c.num(c.get(rk, "state.epoch.value")), t0 + hs / R.DAY)
        rep.eq("step/keeps-step-size", RK + ".step", c.num(c.get(rk, "step_size")), hs)
    g = SC + ".step_to_epoch"
    for mode in ("lvlh", "solar", "target"):
        for label, target in (("any", t1), ("near", t0 + k), ("tiny", t0 + k / 86400), ("same", t0)):
            nm = "spacecraft/%s/%s" % (mode, label)
            with rep.section(nm, g):
                c = w.case()
                s = c.state("GCRF", "s")
                c.set(s, "use_perturbations", False)
                sc = c.new(SC, s)
                tgt = None
                if mode == "target":
                    s2 = c.state("GCRF", "g", epoch=c.epoch(t0))
                    c.set(s2, "use_perturbations", False)
                    tgt = c.new(SC, s2)
                    c.m(sc, "track_state", tgt)
                elif mode == "solar":
                    c.m(sc, "track_sun")
                c.set(c.get(sc, "propagator"), "step_size", hs)
                ep = c.epoch(target)
                before = c.pv(c.m(sc, "current_state"))
                c.m(sc, "step_to_epoch", ep)
                rep.eq(nm + "/lands", g, c.num(c.get(c.m(sc, "current_epoch"), "value")) - t0, target - t0, what="the spacecraft is not at the requested epoch")
                rep.eq(nm + "/state-epoch", g, c.num(c.get(c.m(sc, "current_state"), "epoch.value")) - t0, target - t0)
                rep.eq(nm + "/step-size-restored", g, c.num(c.get(sc, "propagator.step_size")), hs)
                rep.eq(nm + "/engine-off", g, c.num(c.get(sc, "propagator.m_dot")), 0)
                rep.eq(nm + "/target-unchanged", g, c.num(c.get(ep, "value")), target)
                if label == "same":
                    rep.eq(nm + "/identity", g, c.pv(c.m(sc, "current_state")), before, what="propagating over zero time changes the state")
                if tgt is not None:
                    rep.eq(nm + "/tracked-lands", g, c.num(c.get(c.m(tgt, "current_epoch"), "value")) - t0, target - t0, what="the tracked target is not at the requested epoch")
    with rep.section("spacecraft/step", g):
        c = w.case()
        s = c.state("GCRF", "s")
        c.set(s, "use_perturbations", False)
        sc = c.new(SC, s)
        c.m(sc, "step")
        rep.eq("spacecraft/step", SC + ".step", c.num(c.get(c.m(sc, "current_epoch"), "value")), t0 + D.const(300) / R.DAY)
