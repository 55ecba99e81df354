"""Results, constructed objects and updated objects never share mutable parts with what the caller passed in or got before."""
from .. import dag as D
from ..interp import Raised
from . import calls

MIN_OBLIGATIONS = 150
# deliberate sharing: an observation hands out its own epoch, a filter drives the propagator it was given, a spacecraft follows the
# very target it tracks, and the filter's default matrices are class-wide constants
ALLOW = [
    ("openspace.estimation.obs.SpaceObservation.epoch", "self.", ""), ("openspace.estimation.obs.GroundObservation.epoch", "self.", ""),
    ("openspace.estimation.filtering.RelativeKalman", "arg1", "result.propagator"),
    ("openspace.bodies.artificial.Spacecraft.acquire", "arg0", "self.tracked_target"),
    ("openspace.bodies.artificial.Spacecraft.track_state", "arg0", "self.tracked_target"),
]
COPIES = ("copy",)


def allowed(name, other, mine):
    return any(name == n and other.startswith(o) and mine.startswith(m) for n, o, m in ALLOW)


def check(rep):
    w = rep.world
    for name, recv, args, role, alias in [e + (False,) for e in calls.entries()] + [e + (True,) for e in calls.entries() if calls.aliases(e[1], e[2])]:
        short = name.replace("openspace.", "") + ("(same object)" if alias else "")
        if alias:
            if any(x in name for x in ("track_state", "acquire", "process_")):
                continue
            try:
                calls.run(w.case(), name, recv, args, alias=True)
            except Raised:
                continue  # the question makes no sense of one object twice
        with rep.section(short, name):
            c = w.case()
            s, vals, r, before = calls.run(c, name, recv, args, alias=alias)
            own = c.paths(s, "self") if s is not None else {}
            given = {}
            for i, v in enumerate(vals):
                for k, p in c.paths(v, "arg%d" % i).items():
                    given.setdefault(k, p)
            res = c.paths(r, "result")
            bad = []
            for k, p in res.items():
                for other in (given, own):
                    if k in other and not allowed(name, other[k], p):
                        bad.append("%s is %s" % (p, other[k]))
            for k, p in own.items():
                if k in given and not alias and not allowed(name, given[k], p):
                    bad.append("%s is %s" % (p, given[k]))
            glob = calls.globals_of(c)
            if not name.startswith("openspace.estimation.filtering"):
                for k, p in res.items():
                    if k in glob:
                        bad.append("%s is an object shared by the whole program" % p)
            rep.rule(short, name, not bad, "shared mutable data: " + "; ".join(bad[:4]))
            # asked again, of the same objects and of others equal to them
            if res:
                bad = []
                for how in ("again", "of an equal"):
                    if how == "again":
                        t, us = s, vals
                    else:
                        b = calls.Builder(c)
                        t = b.make(recv) if recv else None
                        us = [b.make(k) for k in args]
                    try:
                        q = c.m(t, name.rsplit(".", 1)[1], *us) if t is not None else c.call(name, *us)
                    except Raised:
                        continue
                    mine = set(own) | set(given)
                    for k, p in c.paths(q, "result").items():
                        if k in res and k not in mine and k not in glob:
                            bad.append("%s is %s of the result before (asked %s)" % (p, res[k], how))
                rep.rule(short + "/again", name, not bad, "two results share mutable data: " + "; ".join(bad[:4]))
            if name.rsplit(".", 1)[1] in COPIES:
                rep.rule(short + "/equal", name, calls.same(r, s, c, c) and calls.same(s, r, c, c), "the copy is not equal to the original")
    # what was read from an object stays as it was when the object moves on
    SC = calls.ART
    for meth, args in (("step", ()), ("impulsive_maneuver", ("burn",)), ("step_to_epoch", ("epoch",)), ("track_sun", ())):
        with rep.section("history/" + meth, SC + "." + meth):
            c = w.case()
            b = calls.Builder(c)
            a = b.make("craft")
            got = [c.m(a, "current_state"), c.m(a, "current_epoch"), c.m(a, "position"), c.m(a, "velocity")]
            vals = [b.make(k) for k in args]
            before = c.fork()
            c.m(a, meth, *vals)
            ok = all(calls.same(g, g, before, c) for g in got)
            rep.rule("history/" + meth, SC + "." + meth, ok, "a state read earlier changes when the spacecraft moves on")
    # two objects built from the same parts evolve independently
    for cls, kinds, meth, args in ((SC, ("gcrf",), "step", ()), (calls.RK4, ("gcrf",), "step", ()), (calls.HILL, ("hcw", "sma"), "step", ()), (SC, ("gcrf",), "impulsive_maneuver", ("burn",))):
        nm = "independent/%s.%s" % (cls.rsplit(".", 1)[1], meth)
        with rep.section(nm, cls):
            c = w.case()
            b = calls.Builder(c)
            parts = [b.make(k) for k in kinds]
            x, y = c.new(cls, *parts), c.new(cls, *parts)
            vals = [b.make(k) for k in args]
            before = c.fork()
            c.m(x, meth, *vals)
            rep.rule(nm, cls, calls.same(y, y, before, c), "moving one object changes another built from the same parts")
