"""A target is reported detectable exactly when every sensor constraint is met; the viewing geometry and photometry follow their definitions."""
from .. import dag as D
from .. import ref as R
from ..world import S
from .c20 import craft, mode_of, slew_state

MIN_OBLIGATIONS = 35
SC = "openspace.bodies.artificial.Spacecraft"
CAM = "openspace.hardware.payloads.Camera"
OC = "openspace.hardware.constraints.OpticalConstraints"


def tan(x):
    return D.sin(x) / D.cos(x)


def log10(x):
    return D.fn("log", x) / D.fn("log", D.const(10))


def check(rep):
    w = rep.world
    t = D.var("t", scale=59000.0)

    def pair(c):
        e = c.epoch(t)
        return craft(c, "sc", e), craft(c, "tgt", e)

    def geo(c, a, b):
        ra, rb = c.xyz(c.m(a, "position")), c.xyz(c.m(b, "position"))
        return ra, R.sub(rb, ra), R.sub(R.sun(t), ra), R.sub(R.moon(t), ra), [-x for x in ra]

    with rep.section("geometry", SC + ".target_vector"):
        c = w.case()
        a, b = pair(c)
        ra, d, sun, moon, earth = geo(c, a, b)
        for nm, args, exp in (("target_vector", (b,), d), ("sun_vector", (), sun), ("moon_vector", (), moon), ("earth_vector", (), earth)):
            rep.eq(nm, SC + "." + nm, c.xyz(c.m(a, nm, *args)), exp)
        for nm, exp in (("range", R.mag(d)), ("sun_angle", R.angle(sun, d)), ("moon_angle", R.angle(moon, d)), ("earth_angle", R.angle(earth, d))):
            rep.eq(nm, SC + "." + nm, c.m(a, nm, b), exp, boundary=False)
        rep.eq("range/symmetric", SC + ".range", c.m(a, "range", b), c.m(b, "range", a))
        v = c.xyz(c.m(a, "velocity"))
        rep.eq("sma", SC + ".sma", c.m(a, "sma"), 1 / (2 / R.mag(ra) - R.dot(v, v) / R.MU))
    alb, rad = D.var("albedo", lo=0.001, hi=1.0), D.var("rad", lo=1e-6, hi=0.5)
    oalb, orad = D.var("oalbedo", lo=0.01, hi=1.0), D.var("orad", lo=1e-6, hi=0.5)

    def magnitude(d, sun):
        phi = R.pi - D.num(R.angle(sun, d))
        k = R.q("2/3") * alb * rad * rad / (R.pi * R.dot(d, d)) * (D.sin(phi) + (R.pi - phi) * D.cos(phi))
        return R.q("-26.74") - R.q("2.5") * log10(k)

    def dressed(c):
        a, b = pair(c)
        # slewing or not makes no difference to what is seen
        slew_state(c, a, t)
        for o, al, r in ((a, oalb, orad), (b, alb, rad)):
            c.set(o, "albedo", al)
            c.set(o, "body_radius", r)
        return a, b

    f = SC + ".visual_magnitude"
    with rep.section("visual_magnitude", f):
        c = w.case()
        a, b = dressed(c)
        ra, d, sun, moon, earth = geo(c, a, b)
        rep.eq("visual_magnitude", f, c.m(a, "visual_magnitude", b), magnitude(d, sun), boundary=False)
    # detection: each limit free, so that each comparison decides in turn
    f = SC + ".detect"
    lims = {"sun_soft": D.var("lim.sun", lo=0.0, hi=3.1), "earth": D.var("lim.earth", lo=0.0, hi=3.1), "moon": D.var("lim.moon", lo=0.0, hi=3.1),
            "vismag": D.var("lim.mag", lo=-10.0, hi=40.0), "bore": D.var("lim.bore", lo=0.0, hi=3.1)}

    def decision(ang, lim):
        bad = D.c_or(D.cmp_("<", ang["sun_soft"], lim["sun_soft"]), D.cmp_("<", ang["earth"], lim["earth"]), D.cmp_("<", ang["moon"], lim["moon"]),
                     D.cmp_(">", ang["vismag"], lim["vismag"]), D.cmp_(">", ang["bore"], lim["bore"]))
        return D.ite(bad, D.const(0), D.const(1))

    relaxed = {"sun_soft": D.const(0), "earth": D.const(0), "moon": D.const(0), "vismag": D.const(1000), "bore": D.const(4)}
    from ..report import as_num
    for which in ("all",) + tuple(lims):
        with rep.section("detect/" + which, f):
            c = w.case()
            a, b = dressed(c)
            z = c.vec3("z", 1.0)
            c.set(a, "body_z", z)
            ra, d, sun, moon, earth = geo(c, a, b)
            lim = {k: (lims[k] if which in ("all", k) else relaxed[k]) for k in lims}
            for cam in ("wfov",):
                for k, v in lim.items():
                    c.set(c.get(a, cam + ".limits"), k, v)
            ang = {"sun_soft": D.num(R.angle(sun, d)), "earth": D.num(R.angle(earth, d)), "moon": D.num(R.angle(moon, d)), "vismag": magnitude(d, sun), "bore": D.num(R.angle(c.xyz(z), d))}
            # limits placed at the measured value plus a margin of either sign, and exactly at it
            if which != "all":
                for sgn, mg in (("over", "1e-6"), ("under", "-1e-6")):
                    m = {lims[which].id: ang[which] + R.q(mg)}
                    got = as_num(c.m(a, "detect", b))
                    rep.eq("detect/%s/limit-%s" % (which, sgn), f, D.subst(got, m), D.subst(decision(ang, lim), m), boundary=False, nsamples=8, plain=True, what="the detection decision differs from the conjunction of the constraints")
                # exactly at the limit: take the value the analysed code itself measures
                meas = {"sun_soft": lambda: c.m(a, "sun_angle", b), "earth": lambda: c.m(a, "earth_angle", b), "moon": lambda: c.m(a, "moon_angle", b),
                        "vismag": lambda: c.m(a, "visual_magnitude", b), "bore": lambda: c.m(z, "angle", c.m(a, "target_vector", b))}[which]()
                rep.eq("detect/%s/limit-met-exactly" % which, f, D.subst(got, {lims[which].id: D.num(meas)}), 1, boundary=False, nsamples=8, plain=True, what="a target exactly at the limit is not detected")
            else:
                rep.eq("detect/all", f, as_num(c.m(a, "detect", b)), decision(ang, lim), boundary=False, nsamples=40, plain=True, what="the detection decision differs from the conjunction of the constraints")
                # one constraint at a time decides, by little or by much, while the rest are met by margins of any size
                got = as_num(c.m(a, "detect", b))
                lower = ("sun_soft", "earth", "moon")
                met = {k: ang[k] + (-D.num(D.var("margin." + k, lo=0.0, hi=0.4)) if k in lower else D.num(D.var("margin." + k, lo=0.0, hi=0.4))) for k in lims}
                rep.eq("detect/met-by-any-margin", f, D.subst(got, {lims[k].id: met[k] for k in lims}), 1, boundary=False, nsamples=12, plain=True, what="a target that meets every constraint is not detected")
                for which2 in lims:
                    for label, mg in (("little", R.q("1e-6")), ("much", D.num(D.var("miss", lo=0.01, hi=0.5)))):
                        m = {lims[k].id: (met[k] if k != which2 else ang[k] + (mg if k in lower else -mg)) for k in lims}
                        rep.eq("detect/%s-missed-by-%s" % (which2, label), f, D.subst(got, m), 0, boundary=False, nsamples=12, plain=True, what="a target that misses one constraint is detected")
                rep.rule("detect/is-boolean", f, not isinstance(c.m(a, "detect", b), D.N), "the detection result is not a truth value")
    # a target close by or far off is seen as any other
    for label, size in (("near", 1.0), ("very-near", 1e-3), ("touching", 1e-5), ("far", 4e5), ("deep-space", 5e6)):
        with rep.section("close/" + label, f):
            c = w.case()
            a, b0 = dressed(c)
            d = [D.var("sep." + k, scale=size) for k in "xyz"]
            st = c.new(S + "GCRF", c.epoch(t), c.v3(R.add(c.xyz(c.m(a, "position")), d)), c.vec3("tv", 3.0))
            b = c.new(SC, st)
            c.set(b, "albedo", alb)
            c.set(b, "body_radius", rad)
            z = c.vec3("z", 1.0)
            c.set(a, "body_z", z)
            ra, _, sun, moon, earth = geo(c, a, b)
            rep.eq("close/%s/target_vector" % label, SC + ".target_vector", c.xyz(c.m(a, "target_vector", b)), d)
            rep.eq("close/%s/range" % label, SC + ".range", c.m(a, "range", b), R.mag(d))
            rep.eq("close/%s/magnitude" % label, SC + ".visual_magnitude", c.m(a, "visual_magnitude", b), magnitude(d, sun), boundary=False)
            ang = {"sun_soft": D.num(R.angle(sun, d)), "earth": D.num(R.angle(earth, d)), "moon": D.num(R.angle(moon, d)), "vismag": magnitude(d, sun), "bore": D.num(R.angle(c.xyz(z), d))}
            for k, v in lims.items():
                c.set(c.get(a, "wfov.limits"), k, v)
            got = as_num(c.m(a, "detect", b))
            lower = ("sun_soft", "earth", "moon")
            met = {k: ang[k] + (-D.num(D.var("margin." + k, lo=0.0, hi=0.4)) if k in lower else D.num(D.var("margin." + k, lo=0.0, hi=0.4))) for k in lims}
            rep.eq("close/%s/seen" % label, f, D.subst(got, {lims[k].id: met[k] for k in lims}), 1, boundary=False, nsamples=12, plain=True, what="a target that meets every constraint is not detected")
            for which2 in lims:
                m = {lims[k].id: (met[k] if k != which2 else ang[k] + (R.q("1e-4") if k in lower else -R.q("1e-4"))) for k in lims}
                rep.eq("close/%s/%s-missed" % (label, which2), f, D.subst(got, m), 0, boundary=False, nsamples=12, plain=True, what="a target that misses one constraint is detected")
    # after any operation, what is seen is seen from where the spacecraft now is
    from .calls import age
    for mode in ("lvlh", "solar", "target"):
        with rep.section("history/" + mode, f):
            c = w.case()
            E0 = D.const(59000)
            e = c.epoch(E0)
            a, b, o = craft(c, "sc", e), craft(c, "tgt", e), craft(c, "oth", e)
            mode_of(c, a, mode, o)
            ops = [("start", lambda: None), ("step", lambda: (c.m(a, "step"), c.m(b, "step"))), ("impulsive", lambda: c.m(a, "impulsive_maneuver", c.v3([R.q("0.01"), R.q("-0.02"), R.q("0.005")]))),
                   ("target-burn", lambda: c.m(b, "impulsive_maneuver", c.v3([R.q("0.03"), R.q("0.02"), R.q("-0.01")]))),
                   ("target-moves", lambda: (c.m(b, "step_to_epoch", c.epoch(E0 + D.const(500) / R.DAY)))),
                   ("step_to_epoch", lambda: (c.m(a, "step_to_epoch", c.epoch(E0 + D.const(500) / R.DAY))))]
            for nm, op in ops:
                before = c.fork()
                op()
                now = c.num(c.get(c.m(a, "current_epoch"), "value"))
                sa, sb = c.pv(c.get(a, "propagator.state")), c.pv(c.get(b, "propagator.state"))
                ra, d = sa[:3], R.sub(sb[:3], sa[:3])
                sun, moon, earth = R.sub(R.sun(now), ra), R.sub(R.moon(now), ra), [-x for x in ra]
                n = "history/%s/%s/" % (mode, nm)
                for q, args, exp in (("target_vector", (b,), d), ("sun_vector", (), sun), ("moon_vector", (), moon), ("earth_vector", (), earth)):
                    rep.eq(n + q, SC + "." + q, c.xyz(c.m(a, q, *args)), exp, boundary=False, nsamples=3)
                for q, exp in (("range", R.mag(d)), ("sun_angle", R.angle(sun, d)), ("moon_angle", R.angle(moon, d)), ("earth_angle", R.angle(earth, d))):
                    rep.eq(n + q, SC + "." + q, c.m(a, q, b), exp, boundary=False, nsamples=3)
                z = c.xyz(c.get(a, "body_z"))
                # only the boresight decides, by a margin of either sign
                lb = D.var("lim.bore", lo=0.0, hi=3.1)
                for k, v in relaxed.items():
                    c.set(c.get(a, "wfov.limits"), k, lb if k == "bore" else v)
                got = as_num(c.m(a, "detect", b))
                for lab, mg, exp in (("inside", "1e-6", 1), ("outside", "-1e-6", 0)):
                    rep.eq(n + "boresight-" + lab, f, D.subst(got, {lb.id: D.num(R.angle(z, d)) + R.q(mg)}), exp, boundary=False, nsamples=4, plain=True, what="the detection decision is not that of the current geometry")
                age(before, c, a, b)
    # cameras
    px, fov, r, dia = D.var("px", lo=1.0, hi=20000.0), D.var("fov", lo=1e-5, hi=1.5), D.var("r", lo=0.0, hi=500000.0), D.var("dia", lo=1e-6, hi=1.0)
    with rep.section("camera", CAM):
        c = w.case()
        k = c.new(CAM, px, fov)
        rep.eq("camera/resolution", CAM + ".resolution", c.m(k, "resolution", r), tan(fov) * r / (2 * px))
        rep.eq("camera/range_error", CAM + ".range_error", c.m(k, "range_error", r, dia), tan(fov) * r * r / (2 * px * dia))
        rep.eq("camera/tracking_minimum", CAM + ".tracking_minimum", c.m(k, "tracking_minimum", dia), dia / tan(fov))
        rep.eq("camera/fields", CAM, [c.num(c.get(k, "pixels")), c.num(c.get(k, "fov"))], [px, fov])
        l = c.get(k, "limits")
        for nm, v in (("sun_hard", D.radians(60)), ("sun_soft", D.radians(90)), ("moon", D.radians(10)), ("earth", D.radians(20)), ("vismag", D.const(15)), ("bore", fov), ("characterization", R.q("2e-5") * px / tan(fov))):
            rep.eq("limits/" + nm, OC, c.num(c.get(l, nm)), v)
        for nm, p_, f_ in (("wfov", 3072, D.radians(5)), ("nfov", 3072, D.radians(R.q("0.125")))):
            k = c.call("%s.%s" % (CAM, nm))
            rep.eq("camera/" + nm, "%s.%s" % (CAM, nm), [c.num(c.get(k, "pixels")), c.num(c.get(k, "fov"))], [D.const(p_), f_])
        sc = craft(c, "sc", c.epoch(t))
        for nm, f_ in (("wfov", D.radians(5)), ("nfov", D.radians(R.q("0.125")))):
            rep.eq("spacecraft/" + nm, SC, c.num(c.get(sc, nm + ".fov")), f_)
        rep.eq("spacecraft/defaults", SC, [c.num(c.get(sc, x)) for x in ("body_radius", "albedo", "pointing_accuracy")], [R.q("0.005"), R.q("0.3"), R.q("1e-5")])
        # cameras of different spacecraft do not share limits
        s2 = craft(c, "s2", c.epoch(t))
        c.set(c.get(sc, "wfov.limits"), "bore", D.const(3))
        rep.eq("spacecraft/limits-not-shared", SC, c.num(c.get(s2, "wfov.limits.bore")), D.radians(5))
        rep.eq("spacecraft/limits-not-shared-nfov", SC, c.num(c.get(sc, "nfov.limits.bore")), D.radians(R.q("0.125")))
