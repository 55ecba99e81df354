"""The commanded pointing is held after every operation: body axes are fresh, orthogonal, right-handed, and slews are timed."""
from .. import dag as D
from .. import ref as R
from ..world import S
from .calls import age

MIN_OBLIGATIONS = 60
UNROLLED = True
SC = "openspace.bodies.artificial.Spacecraft"


def craft(c, name, epoch):
    s = c.state("GCRF", name, epoch=epoch, rscale=22000.0, vscale=3.0)
    c.set(s, "use_perturbations", False)
    return c.new(SC, s)


def slew_state(c, sc, t):
    """Slewing or not, with the slew ending at any time before or after: returns the flag as 0/1 and the stop time."""
    flag, stop = D.cmp_(">", D.var("busy", lo=-1.0, hi=1.0), D.const(0)), t + D.var("left", lo=-3.0, hi=3.0)
    c.set(sc, "slewing", flag)
    c.set(sc, "slew_stop", c.epoch(stop))
    return flag, stop


def mode_of(c, sc, mode, tgt):
    if mode == "lvlh":
        c.m(sc, "track_sun")
        c.m(sc, "track_lvlh")
    elif mode == "solar":
        c.m(sc, "track_sun")
    else:
        c.m(sc, "track_state", tgt)


def axes_ref(c, sc, mode, target=None):
    x = c.pv(c.m(sc, "current_state"))
    r, v = x[:3], x[3:]
    t = c.num(c.get(c.m(sc, "current_epoch"), "value"))
    sun = R.sub(R.sun(t), r)
    neg = lambda a: [-k for k in a]
    if mode == "lvlh":
        z = neg(r)
        y = R.cross(r, v)
        return R.cross(y, z), y, z
    if mode == "solar":
        z = neg(sun)
        xx = R.cross(z, [D.const(0), D.const(0), D.const(1)])
        return xx, R.cross(z, xx), z
    p = c.xyz(c.m(target, "position"))
    z = R.sub(p, r)
    y = R.cross(z, sun)
    return R.cross(y, z), y, z


def check(rep):
    w = rep.world
    E0 = D.const(59000)

    def axes(name, entry, c, sc, mode, tgt=None):
        ref = axes_ref(c, sc, mode, tgt)
        got = [c.xyz(c.get(sc, a)) for a in ("body_x", "body_y", "body_z")]
        for a, g, e in zip("xyz", got, ref):
            rep.eq("%s/%s/body-%s" % (mode, name, a), entry, R.unit(g), R.unit(e), boundary=False, nsamples=4, what="the body axis does not follow the commanded pointing")
        x, y, z = [R.unit(g) for g in got]
        rep.eq("%s/%s/right-handed" % (mode, name), entry, R.cross(x, y), z, boundary=False, nsamples=4, what="the body axes are not a right-handed orthogonal triad")

    for mode in ("lvlh", "solar", "target"):
        ent = SC + {"lvlh": ".track_lvlh", "solar": ".track_sun", "target": ".track_state"}[mode]
        events = {
            "commanded": (ent, lambda c, sc: None),
            "update": (SC + ".update_attitude", lambda c, sc: c.m(sc, "update_attitude")),
            "step": (SC + ".step", lambda c, sc: c.m(sc, "step")),
            "step_to_epoch": (SC + ".step_to_epoch", lambda c, sc: c.m(sc, "step_to_epoch", c.epoch(E0 + D.const(450) / R.DAY))),
            "impulsive": (SC + ".impulsive_maneuver", lambda c, sc: c.m(sc, "impulsive_maneuver", c.vec3("b", 0.3))),
            "finite": (SC + ".finite_maneuver", lambda c, sc: c.m(sc, "finite_maneuver", c.vec3("b", 0.003))),
        }
        for ev, (entry, act) in events.items():
            with rep.section("%s/%s" % (mode, ev), entry):
                c = w.case()
                e = c.epoch(E0)
                tgt = craft(c, "tgt", e) if mode == "target" else None
                sc = craft(c, "sc", e)
                if ev == "step":
                    c.set(c.get(sc, "propagator"), "step_size", D.var("sc.h", scale=200.0))
                mode_of(c, sc, mode, tgt)
                act(c, sc)
                axes(ev, entry, c, sc, mode, tgt)
                rep.rule("%s/%s/mode-kept" % (mode, ev), entry, c.get(sc, "steering") == mode, "the steering mode changed to %s" % (c.get(sc, "steering"),))
                if mode == "target":
                    rep.eq("target/%s/epochs-agree" % ev, entry, c.num(c.get(c.m(tgt, "current_epoch"), "value")), c.num(c.get(c.m(sc, "current_epoch"), "value")), what="the tracked target is not at the epoch of the tracking spacecraft")
            if ev == "commanded":
                continue
            # the same while slewing, or not, whenever the slew ends
            with rep.section("%s/%s/slewing" % (mode, ev), entry):
                c = w.case()
                e = c.epoch(E0)
                tgt = craft(c, "tgt", e) if mode == "target" else None
                sc = craft(c, "sc", e)
                if ev == "step":
                    c.set(c.get(sc, "propagator"), "step_size", D.var("sc.h", scale=200.0))
                mode_of(c, sc, mode, tgt)
                flag, stop = slew_state(c, sc, E0)
                act(c, sc)
                axes(ev + "/slewing", entry, c, sc, mode, tgt)
                now = c.num(c.get(c.m(sc, "current_epoch"), "value"))
                rep.eq("%s/%s/slewing/flag" % (mode, ev), entry, as_int(c.get(sc, "slewing")), D.ite(D.c_and(flag, D.c_not(D.cmp_(">", now, stop))), D.const(1), D.const(0)), boundary=False, nsamples=16, what="the slew flag does not end with the slew")
                rep.eq("%s/%s/slewing/stop-kept" % (mode, ev), entry, c.num(c.get(sc, "slew_stop.value")), stop)
    with rep.section("initial", SC):
        c = w.case()
        sc = craft(c, "sc", c.epoch(D.var("t", scale=59000.0)))
        axes("initial", SC, c, sc, "lvlh")
        rep.rule("initial/mode", SC, c.get(sc, "steering") == "lvlh", "a new spacecraft is not Earth-pointing")
        rep.rule("initial/not-slewing", SC, c.get(sc, "slewing") is False, "a new spacecraft is slewing")
    # switching targets
    with rep.section("retarget", SC + ".track_state"):
        c = w.case()
        e = c.epoch(E0)
        a, b, sc = craft(c, "a", e), craft(c, "b", e), craft(c, "sc", e)
        c.m(sc, "track_state", a)
        za = c.xyz(c.get(sc, "body_z"))
        c.m(sc, "track_state", b)
        axes("retarget", SC + ".track_state", c, sc, "target", b)
        ang = R.angle(za, R.sub(c.xyz(c.m(b, "position")), c.xyz(c.m(sc, "position"))))
        rep.eq("retarget/slew-time", SC + ".track_state", (c.num(c.get(sc, "slew_stop.value")) - E0) * R.DAY, D.num(ang) / D.radians(R.q("0.5")), boundary=False, nsamples=6)
        c.m(sc, "step")
        axes("retarget-step", SC + ".track_state", c, sc, "target", b)
    # a target at another epoch, behind or ahead, is brought to the same one
    for label, off in (("stale-target", -500), ("target-ahead", 700), ("target-just-behind", -1), ("target-just-ahead", 1)):
        with rep.section(label, SC + ".track_state"):
            c = w.case()
            tgt, sc = craft(c, "tgt", c.epoch(E0 + D.const(off) / R.DAY)), craft(c, "sc", c.epoch(E0))
            z0 = c.xyz(c.get(sc, "body_z"))
            c.m(sc, "track_state", tgt)
            ang = R.angle(z0, c.xyz(c.get(sc, "body_z")))
            rep.eq(label + "/slew-time", SC + ".track_state", (c.num(c.get(sc, "slew_stop.value")) - E0) * R.DAY, D.num(ang) / D.radians(R.q("0.5")), boundary=False, nsamples=6, what="the slew does not end after the angle between the old and new pointing")
            rep.eq(label + "/epoch", SC + ".track_state", c.num(c.get(c.m(tgt, "current_epoch"), "value")), E0)
            axes(label, SC + ".track_state", c, sc, "target", tgt)
    # the tracker goes back in time, the target follows
    with rep.section("target-backwards", SC + ".step_to_epoch"):
        c = w.case()
        tgt, sc = craft(c, "tgt", c.epoch(E0)), craft(c, "sc", c.epoch(E0))
        c.m(sc, "track_state", tgt)
        back = E0 - D.const(450) / R.DAY
        c.m(sc, "step_to_epoch", c.epoch(back))
        rep.eq("target-backwards/epoch", SC + ".step_to_epoch", c.num(c.get(c.m(tgt, "current_epoch"), "value")), back)
        axes("target-backwards", SC + ".step_to_epoch", c, sc, "target", tgt)
    # operation after operation, whatever the ones before left; the tracked target moves by itself in between
    for mode in ("lvlh", "solar", "target"):
        with rep.section("history/" + mode, SC + ".update_attitude"):
            c = w.case()
            e = c.epoch(E0)
            tgt, sc = craft(c, "tgt", e), craft(c, "sc", e)
            mode_of(c, sc, mode, tgt)
            ops = [("step", lambda: c.m(sc, "step")), ("impulsive", lambda: c.m(sc, "impulsive_maneuver", c.v3([R.q("0.01"), R.q("-0.02"), R.q("0.005")]))),
                   ("target-moves", lambda: (c.m(tgt, "impulsive_maneuver", c.v3([R.q("-0.02"), R.q("0.01"), R.q("0.03")])), c.m(tgt, "step"), c.m(sc, "update_attitude"))),
                   ("step_to_epoch", lambda: c.m(sc, "step_to_epoch", c.epoch(E0 + D.const(500) / R.DAY))), ("step-again", lambda: c.m(sc, "step"))]
            for k, (nm, op) in enumerate(ops):
                before = c.fork()
                op()
                axes("history-%d-%s" % (k + 1, nm), SC + ".update_attitude", c, sc, mode, tgt)
                age(before, c, sc)
    # a finite burn of an orbit along the axes, whose length is a constant: it unrolls
    for mode in ("lvlh", "solar", "target"):
        with rep.section("finite/" + mode, SC + ".finite_maneuver"):
            c = w.case()
            e = c.epoch(E0)
            tgt = craft(c, "tgt", e)
            s = c.new(S + "GCRF", e, c.v3([D.const(0), D.const(12000), D.const(0)]), c.v3([D.const(-5), D.const(1), D.const(0)]))
            c.set(s, "use_perturbations", False)
            sc = c.new(SC, s)
            mode_of(c, sc, mode, tgt)
            slew_state(c, sc, E0)
            for k, b in enumerate((("-0.009", "0.004", "0.006"), ("0.001", "-0.0008", "0.0005"))):
                c.m(sc, "finite_maneuver", c.v3([R.q(x) for x in b]))
                axes("finite-%d-unrolled" % (k + 1), SC + ".finite_maneuver", c, sc, mode, tgt)
                if mode == "target":
                    rep.eq("target/finite-%d-unrolled/epochs-agree" % (k + 1), SC + ".finite_maneuver", c.num(c.get(c.m(tgt, "current_epoch"), "value")), c.num(c.get(c.m(sc, "current_epoch"), "value")), boundary=False)
    # slews
    slew = D.var("slew", lo=0.0, scale=1e-3)
    for first, second in (("lvlh", "solar"), ("lvlh", "target"), ("solar", "lvlh"), ("solar", "target"), ("target", "lvlh"), ("target", "solar")):
        ent = SC + {"lvlh": ".track_lvlh", "solar": ".track_sun", "target": ".track_state"}[second]
        with rep.section("slew/%s-%s" % (first, second), ent):
            c = w.case()
            t = D.var("t", scale=59000.0)
            e = c.epoch(t)
            tgt, sc = craft(c, "tgt", e), craft(c, "sc", e)
            if first != "lvlh":
                mode_of(c, sc, first, tgt)
            c.set(sc, "slew_scalar", slew)
            c.set(sc, "slewing", False)
            z0 = c.xyz(c.get(sc, "body_z"))
            c.m(sc, {"lvlh": "track_lvlh", "solar": "track_sun", "target": "track_state"}[second], *([tgt] if second == "target" else []))
            z1 = axes_ref(c, sc, second, tgt)[2]
            nm = "slew/%s-%s" % (first, second)
            rep.eq(nm + "/duration", ent, c.num(c.get(sc, "slew_stop.value")), t + D.num(R.angle(z0, z1)) * slew, boundary=False, nsamples=6, what="the slew does not end after the angle between the old and new pointing")
            rep.eq(nm + "/mode", ent, D.const(int(c.get(sc, "steering") == second)), D.const(1))
            rep.eq(nm + "/slewing", ent, as_int(c.get(sc, "slewing")), D.const(1), boundary=False, nsamples=6)
    # slew rate: half a degree per second
    with rep.section("slew-rate", SC):
        c = w.case()
        sc = craft(c, "sc", c.epoch(E0))
        rep.eq("slew-rate/default", SC, c.num(c.get(sc, "slew_scalar")) * R.DAY, 1 / D.num(D.radians(R.q("0.5"))))
    # repeating the command neither restarts nor extends the slew
    for mode in ("lvlh", "solar", "target"):
        ent = SC + {"lvlh": ".track_lvlh", "solar": ".track_sun", "target": ".track_state"}[mode]
        with rep.section("repeat/" + mode, ent):
            c = w.case()
            e = c.epoch(E0)
            tgt, sc = craft(c, "tgt", e), craft(c, "sc", e)
            mode_of(c, sc, mode, tgt)
            stop = E0 + D.var("left", lo=-1.0, hi=1.0)
            flag = D.cmp_(">", D.var("busy", lo=-1.0, hi=1.0), D.const(0))
            c.set(sc, "slew_stop", c.epoch(stop))
            c.set(sc, "slewing", flag)
            c.m(sc, ent.split(".")[-1], *([tgt] if mode == "target" else []))
            rep.eq("repeat/%s/stop" % mode, ent, c.num(c.get(sc, "slew_stop.value")), stop, what="repeating the command restarts the slew")
            rep.eq("repeat/%s/slewing" % mode, ent, as_int(c.get(sc, "slewing")), D.ite(D.c_and(flag, D.c_not(D.cmp_(">", E0, stop))), D.const(1), D.const(0)), boundary=False, nsamples=16, what="repeating the command restarts the slew")
            # a repeat some time into a slew that was commanded, not just set up
            c = w.case()
            e = c.epoch(E0)
            tgt, sc = craft(c, "tgt", e), craft(c, "sc", e)
            mode_of(c, sc, mode, tgt)
            asked = c.num(c.get(sc, "slew_stop.value"))
            for k in range(2):
                c.m(sc, "step_to_epoch", c.epoch(E0 + D.const(3 * k) / R.DAY))
                c.m(sc, ent.split(".")[-1], *([tgt] if mode == "target" else []))
                rep.eq("repeat/%s/later-%d" % (mode, k), ent, c.num(c.get(sc, "slew_stop.value")), asked, boundary=False, what="repeating the command restarts the slew")
    # the slew ends once its stop time has passed, and not before
    with rep.section("slew-end", SC + ".update_attitude"):
        c = w.case()
        t, stop = D.var("t", scale=59000.0), D.var("stop", scale=59000.0)
        sc = craft(c, "sc", c.epoch(t))
        c.set(sc, "slewing", True)
        c.set(sc, "slew_stop", c.epoch(stop))
        c.m(sc, "update_attitude")
        rep.eq("slew-end", SC + ".update_attitude", as_int(c.get(sc, "slewing")), D.ite(D.cmp_(">", t, stop), D.const(0), D.const(1)), what="the slew flag does not end with the slew")
        rep.eq("slew-end/stop-kept", SC + ".update_attitude", c.num(c.get(sc, "slew_stop.value")), stop)


def as_int(v):
    from ..report import as_num
    return as_num(v)
