"""Queries change nothing they can reach; operations change only their own receiver, and only the part they are about."""
from .. import dag as D
from ..interp import Raised
from . import calls

MIN_OBLIGATIONS = 150
BODY = ("body_x", "body_y", "body_z", "slewing")
SC, RK, HI, KA = calls.ART, calls.RK4, calls.HILL, calls.FIL
KALMAN = ("epoch", "propagator", "x00", "x10", "p00", "p10", "f", "k", "z", "r", "range_error", "angular_error")
FRAME = {
    SC + ".impulsive_maneuver": ("propagator",) + BODY,
    SC + ".finite_maneuver": ("propagator", "propellant_mass") + BODY,
    SC + ".acquire": ("filter", "steering", "tracked_target", "slew_stop") + BODY,
    SC + ".update_attitude": BODY,
    SC + ".track_lvlh": ("steering", "slew_stop") + BODY,
    SC + ".track_sun": ("steering", "slew_stop") + BODY,
    SC + ".track_state": ("steering", "tracked_target", "slew_stop") + BODY,
    SC + ".step": ("propagator",) + BODY,
    SC + ".step_to_epoch": ("propagator",) + BODY,
    SC + ".process_wfov": ("filter",),
    SC + ".process_nfov": ("filter",),
    RK + ".step": ("state", "m0"),
    RK + ".maneuver": ("state", "thrust_direction", "isp", "m0"),
    RK + ".step_to_epoch": ("state", "m0"),
    HI + ".step": ("state",),
    HI + ".step_by_seconds": ("state",),
    KA + ".predict_covariance": ("p10",),
    KA + ".predict_state": ("x10", "f"),
    KA + ".predict": ("x10", "f", "p10"),
    KA + ".process": KALMAN,
}


def effects(rep, name, recv, args, role, label="", **kw):
    w = rep.world
    short = name.replace("openspace.", "")
    tag = short + label
    with rep.section(tag, name):
        c = w.case()
        s, vals, r, before = calls.run(c, name, recv, args, **kw)
        own = before.paths(s, "self") if s is not None else {}
        given = {}
        for i, v in enumerate(vals):
            for k, p in before.paths(v, "arg%d" % i).items():
                given.setdefault(k, p)
        bad = []
        for k, f in calls.changes(before, c, list(given), strict=True):
            if k not in own:
                bad.append("%s.%s of an argument changes" % (given[k], f))
        now = calls.shared(c)
        for k, v in calls.shared(before).items():
            if k not in now or not calls.same(v, now[k], before, c, deep=True):
                bad.append("program-wide %s changes" % k)
        rep.rule(tag + "/arguments", name, not bad, "; ".join(bad[:4]))
        if s is None:
            return
        bad = []
        frame = FRAME.get(name, ()) if role == "mutate" else ()
        for k, f in calls.changes(before, c, list(own), strict=role != "mutate"):
            path = "%s.%s" % (own[k], f)
            parts = path.split(".")
            if str(f).startswith("_") or parts[1] in frame:
                continue
            # a tracked target is brought along
            if role == "mutate" and parts[1] == "tracked_target" and len(parts) > 2 and parts[2] in ("propagator",) + BODY:
                continue
            if role == "mutate" and path == "self.tracked_target" and calls.refs(c.get(s, "tracked_target")) == calls.refs(before.get(s, "tracked_target")):
                continue
            bad.append("%s changes" % path)
        rep.rule(tag + "/receiver", name, not bad, "; ".join(sorted(bad)[:4]))


def solved(w):
    """Kepler's equation as one unknown function of its data, where its solver is called by name"""
    f = "openspace.math.functions.EccentricAnomaly.from_ma_e"

    def stub(it, st, args, kw):
        if len(args) == 2 and all(isinstance(x, D.N) for x in args):
            return D.opq("ea", *args)
        return NotImplemented

    return f, stub


def check(rep):
    w = rep.world
    for name, recv, args, role in calls.entries():
        effects(rep, name, recv, args, role)
        if calls.aliases(recv, args) and "track_state" not in name and "acquire" not in name and "process_" not in name:
            try:
                calls.run(w.case(), name, recv, args, alias=True)
            except Raised:
                pass  # the question makes no sense of one object twice
            else:
                effects(rep, name, recv, args, role, "(same object)", alias=True)
        if recv in ("craft", "site") or "craft" in args:
            if role == "query" and "craft" in args:
                effects(rep, name, recv, args, role, "(apart)", apart=True)
            if recv == "craft":
                effects(rep, name, recv, args, role, "(solar)", mode="solar")
                if "acquire" not in name and "track_state" not in name:
                    effects(rep, name, recv, args, role, "(target)", mode="target")
    # a query follows its data: asked before the data changed or not, the answer is that of the present data
    kf, stub = solved(w)
    for name, recv, args, role in calls.entries():
        if role == "mutate" or "noise" in name or "observe_" in name or name.endswith("Gauss.coes_from_positions") or recv is None:
            continue
        short = name.replace("openspace.", "")
        with rep.section(short + "/data-changes", name):
            last = name.rsplit(".", 1)[1]
            w.it.stubs[kf] = stub
            try:
                c = w.case()
                b = calls.Builder(c)
                s = b.make(recv)
                vals = [b.make(k) for k in args]
                fresh = c.fork()
                c.m(s, last, *vals)
                for k, f, v in calls.reset(fresh, s, *vals):
                    fresh.st.w(k).f[f] = v
                    c.st.w(k).f[f] = v
                r1 = c.m(s, last, *vals)
                r2 = fresh.m(s, last, *vals)
            finally:
                w.it.stubs.pop(kf, None)
            if calls.unsummed(c, r1):
                rep.weak.append((short + "/data-changes", name, "a loop-carried value has no closed form"))
            else:
                rep.rule(short + "/data-changes", name, calls.same(r1, r2, c, fresh, deep=True), "the answer is not that of the present data once the question was asked before")
    # a query answers the same when asked again, and whatever was asked before
    for name, recv, args, role in calls.entries():
        if role == "mutate" or "noise" in name or "observe_" in name or name.endswith("Gauss.coes_from_positions") or name.endswith("eccentric_anomaly") or name.endswith("ClassicalElements.to_ijk"):
            continue
        short = name.replace("openspace.", "")
        with rep.section(short + "/again", name):
            c = w.case()
            b = calls.Builder(c)
            s = b.make(recv) if recv else None
            vals = [b.make(k) for k in args]
            last = name.rsplit(".", 1)[1]

            def ask(c, s=s, vals=vals):
                return c.m(s, last, *vals) if s is not None else c.call(name, *vals)

            s2 = b.make(recv) if recv else None
            vals2 = [b.make(k) for k in args]
            r1 = ask(c)
            mid = c.fork()
            r2 = ask(c)
            rep.rule(short + "/again", name, calls.same(r1, r2, mid, c, deep=True), "asked again without any change, the answer differs")
            # same question to another receiver, and another question to the same receiver, before the question itself
            for lab, first in (("other-receiver", (s2, vals)), ("other-question", (s, vals2)), ("other", (s2, vals2))):
                if lab != "other" and (s is None or not args):
                    continue
                c = w.case()
                b = calls.Builder(c)
                s_ = b.make(recv) if recv else None
                vals_ = [b.make(k) for k in args]
                t_ = b.make(recv) if recv else None
                valst = [b.make(k) for k in args]
                fresh = c.fork()
                r = ask(fresh, s_, vals_)
                ask(c, t_ if lab != "other-question" else s_, valst if lab != "other-receiver" else vals_)
                q = ask(c, s_, vals_)
                rep.rule("%s/after-%s" % (short, lab), name, calls.same(r, q, fresh, c, deep=True), "the answer depends on what was asked before")
