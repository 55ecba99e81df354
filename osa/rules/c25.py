"""Transfer planning: circular and elliptical speeds obey vis-viva and a Hohmann transfer is continuous at both ends, for every pair of radii."""
from .. import dag as D
from .. import ref as R

MIN_OBLIGATIONS = 10
P = "openspace.planning.maneuvers."
FIELDS = ("initial_velocity", "transfer_velocity_1", "transfer_velocity_2", "final_velocity", "delta_v_1", "delta_v_2")


def check(rep):
    w = rep.world
    r1, r2 = D.var("r1", lo=1.0, hi=1.0e6), D.var("r2", lo=1.0, hi=1.0e6)
    r, k = D.var("r", lo=1.0, hi=1.0e6), D.var("k", lo=0.5, hi=40.0)
    f = P + "VisViva.circular_velocity"
    with rep.section("circular", f):
        c = w.case()
        v = c.call(f, r)
        rep.eq("circular/definition", f, v, D.sqrt(R.MU / r))
        rep.eq("circular/is-vis-viva", f, v, c.call(P + "VisViva.eccentric_velocity", r, r))
        rep.eq("circular/period", f, R.TWO_PI * r / v, c.call("openspace.math.functions.EquationsOfMotion.TAU.from_a_mu", r, R.MU))
    f = P + "VisViva.eccentric_velocity"
    with rep.section("eccentric", f):
        c = w.case()
        a = r * k
        v = c.call(f, r, a)
        rep.eq("eccentric/definition", f, v, D.sqrt(R.MU * (2 / r - 1 / a)))
        rep.eq("eccentric/energy", f, v * v / 2 - R.MU / r, -R.MU / (2 * a))
        # open orbits have a negative semi-major axis
        a = -(r * D.var("ko", lo=0.01, hi=40.0))
        rep.eq("eccentric/open", f, c.call(f, r, a), D.sqrt(R.MU * (2 / r - 1 / a)))
    f = P + "Hohmann"
    with rep.section("hohmann", f):
        c = w.case()
        h = c.new(f, r1, r2)
        g = {x: c.num(c.get(h, x)) for x in FIELDS}
        a = (r1 + r2) / 2
        exp = {
            "initial_velocity": D.sqrt(R.MU / r1), "transfer_velocity_1": D.sqrt(R.MU * (2 / r1 - 1 / a)),
            "transfer_velocity_2": D.sqrt(R.MU * (2 / r2 - 1 / a)), "final_velocity": D.sqrt(R.MU / r2),
        }
        exp["delta_v_1"] = exp["transfer_velocity_1"] - exp["initial_velocity"]
        exp["delta_v_2"] = exp["final_velocity"] - exp["transfer_velocity_2"]
        for x in FIELDS:
            rep.eq("hohmann/" + x, f, g[x], exp[x])
        # laws that tie the fields together
        rep.eq("hohmann/angular-momentum", f, r1 * g["transfer_velocity_1"], r2 * g["transfer_velocity_2"])
        rep.cond("hohmann/burns-point-the-same-way", f, D.c_or(D.cmp_("==", r1, r2), D.cmp_(">", g["delta_v_1"] * (r2 - r1), D.const(0))), what="the first burn has the wrong sign")
        rep.cond("hohmann/second-burn-sign", f, D.c_or(D.cmp_("==", r1, r2), D.cmp_(">", g["delta_v_2"] * (r2 - r1), D.const(0))), what="the second burn has the wrong sign")
        back = c.new(f, r2, r1)
        b = {x: c.num(c.get(back, x)) for x in FIELDS}
        rep.eq("hohmann/reversed", f, [b["delta_v_1"], b["delta_v_2"]], [-g["delta_v_2"], -g["delta_v_1"]])
        same = c.new(f, r1, r1)
        rep.eq("hohmann/no-transfer-no-burn", f, [c.num(c.get(same, "delta_v_1")), c.num(c.get(same, "delta_v_2"))], [D.const(0)] * 2)
