"""Relative propagation is the Clohessy-Wiltshire transition for every orbit and interval: identity at zero, composition, inverse."""
from .. import dag as D
from .. import ref as R
from ..world import S

MIN_OBLIGATIONS = 14
H = "openspace.propagators.relative.Hill"


def check(rep):
    w = rep.world
    sma = D.var("sma", lo=6600.0, hi=60000.0)
    t1, t2 = D.var("t1", scale=3000.0), D.var("t2", scale=3000.0)
    n = D.sqrt(R.MU / (sma * sma * sma))

    def hill(c):
        return c.new(H, c.state("HCW", "h", rscale=50.0, vscale=0.01), sma)

    with rep.section("construction", H):
        c = w.case()
        s = c.state("HCW", "h", rscale=50.0, vscale=0.01)
        p = c.new(H, s, sma)
        rep.eq("mean-motion", H, c.num(c.get(p, "n")), n)
        rep.eq("axis", H, c.num(c.get(p, "sma")), sma)
        rep.eq("state", H, c.pv(c.get(p, "state")), c.pv(s))
        rep.eq("default-step", H, c.num(c.get(p, "step_size")), 600)
    f = H + ".system_matrix"
    with rep.section("transition", f):
        c = w.case()
        p = hill(c)
        m = c.rows(c.m(p, "system_matrix", t1))
        # scaled so that every entry has the size of one: lengths in km, time in units of 1/n
        rep.eq("transition/definition", f, balance(m, n), balance(R.hill(n, t1), n))
        rep.eq("transition/zero-time", f, c.flat(c.m(p, "system_matrix", 0)), R.flat(R.eye(6)))
        m2, m12, mi = c.rows(c.m(p, "system_matrix", t2)), c.rows(c.m(p, "system_matrix", t1 + t2)), c.rows(c.m(p, "system_matrix", -t1))
        rep.eq("transition/composition", f, balance(R.mm(m2, m), n), balance(m12, n))
        rep.eq("transition/reversible", f, balance(R.mm(mi, m), n), balance(R.eye(6), n))
        rep.eq("transition/long", f, balance(c.rows(c.m(p, "system_matrix", t1 * 40)), n), balance(R.hill(n, t1 * 40), n))
    f = H + ".step_by_seconds"
    with rep.section("step_by_seconds", f):
        c = w.case()
        p = hill(c)
        x0 = c.pv(c.get(p, "state"))
        c.m(p, "step_by_seconds", t1)
        x1 = R.mv(R.hill(n, t1), x0)
        rep.eq("step_by_seconds/position", f, c.xyz(c.get(p, "state.position")), x1[:3])
        rep.eq("step_by_seconds/velocity", f, c.xyz(c.get(p, "state.velocity")), x1[3:])
        rep.eq("step_by_seconds/vector", f, c.xyz6(c.get(p, "state.vector")), c.pv(c.get(p, "state")))
        rep.rule("step_by_seconds/kind", f, c.clsname(c.get(p, "state")) == "HCW", "the propagated state is not a relative state")
        rep.eq("step_by_seconds/orbit-unchanged", f, [c.num(c.get(p, "n")), c.num(c.get(p, "sma")), c.num(c.get(p, "step_size"))], [n, sma, D.const(600)])
        c.m(p, "step_by_seconds", t2)
        x2 = R.mv(R.hill(n, t1 + t2), x0)
        rep.eq("steps-compose/position", f, c.xyz(c.get(p, "state.position")), x2[:3])
        rep.eq("steps-compose/velocity", f, c.xyz(c.get(p, "state.velocity")), x2[3:])
        c.m(p, "step_by_seconds", -(t1 + t2))
        rep.eq("there-and-back", f, c.pv(c.get(p, "state")), x0)
    f = H + ".step"
    with rep.section("step", f):
        c = w.case()
        p = hill(c)
        x0 = c.pv(c.get(p, "state"))
        h = D.var("h", scale=500.0)
        c.set(p, "step_size", h)
        c.m(p, "step")
        x1 = R.mv(R.hill(n, h), x0)
        rep.eq("step/position", f, c.xyz(c.get(p, "state.position")), x1[:3])
        rep.eq("step/velocity", f, c.xyz(c.get(p, "state.velocity")), x1[3:])
        rep.eq("step/keeps-step-size", f, c.num(c.get(p, "step_size")), h)
        c.m(p, "step")
        x2 = R.mv(R.hill(n, 2 * h), x0)
        rep.eq("second-step/position", f, c.xyz(c.get(p, "state.position")), x2[:3])
        rep.eq("second-step/velocity", f, c.xyz(c.get(p, "state.velocity")), x2[3:])
        # any other step size from here on
        c.set(p, "step_size", t2)
        c.m(p, "step")
        rep.eq("step-size-set-anew", f, c.pv(c.get(p, "state")), R.mv(R.hill(n, 2 * h + t2), x0))
        rep.eq("step/orbit-unchanged", f, [c.num(c.get(p, "n")), c.num(c.get(p, "sma")), c.num(c.get(p, "step_size"))], [n, sma, t2])


def balance(m, n):
    """rows and columns of the velocity half in units of n times a length"""
    out = []
    for i in range(6):
        for j in range(6):
            x = m[i][j]
            if i < 3 <= j:
                x = x * n
            elif j < 3 <= i:
                x = x / n
            out.append(x)
    return out
