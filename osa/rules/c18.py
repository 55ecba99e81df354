"""Every processed observation applies the Kalman predict and update equations of the relative orbit, whatever the filter's history."""
from .. import dag as D
from .. import ref as R
from ..world import L, S
from . import calls

MIN_OBLIGATIONS = 25
K = "openspace.estimation.filtering.RelativeKalman"
H = "openspace.propagators.relative.Hill"
SO = "openspace.estimation.obs.SpaceObservation"


def sel(m):
    """H P: the position rows"""
    return [list(r) for r in m[:3]]


def update_ref(x10, p10, z, r):
    pht = [row[:3] for row in p10]
    s = R.madd([row[:3] for row in p10[:3]], r)
    k = R.mm(pht, R.inv3(s))
    x = R.add(x10, R.mv(k, R.sub(z, x10[:3])))
    ikh = [[R.eye(6)[i][j] - (k[i][j] if j < 3 else 0) for j in range(6)] for i in range(6)]
    p = R.madd(R.mm(ikh, R.mm(p10, R.T(ikh))), R.mm(k, R.mm(r, R.T(k))))
    return k, x, p


def check(rep):
    w = rep.world
    sma = D.var("sma", lo=6400.0, hi=500000.0)
    n = D.sqrt(R.MU / (sma * sma * sma))
    te, tob = D.var("te", scale=59000.0), D.var("tob", scale=59000.0)
    dt = D.var("dt", scale=900.0)

    def filt(c):
        h = c.new(H, c.state("HCW", "h", rscale=50.0, vscale=0.01), sma)
        return c.new(K, c.epoch(te), h)

    def q():
        return [[R.q("1e-16") if i == j else D.const(0) for j in range(6)] for i in range(6)]

    with rep.section("construction", K):
        c = w.case()
        f = filt(c)
        rep.eq("initial/state", K, c.xyz6(c.get(f, "x00")), c.xyz6(c.get(f, "propagator.state.vector")))
        rep.eq("initial/epoch", K, c.num(c.get(f, "epoch.value")), te)
        cov = [[(R.q("0.5") if i < 3 else R.q("5e-05")) if i == j else D.const(0) for j in range(6)] for i in range(6)]
        rep.eq("initial/covariance", K, c.flat(c.get(f, "p00")), R.flat(cov))
        rep.eq("initial/process-noise", K, c.flat(c.get(f, "q")), R.flat(q()), tol=1e-25)
        rep.eq("initial/transition", K, c.flat(c.get(f, "f")), R.flat(R.eye(6)))
    # one stage at a time, from arbitrary earlier values
    g = K + ".predict_state"
    with rep.section("predict_state", g):
        c = w.case()
        f = filt(c)
        c.set(f, "x00", c.vec6("x"))
        x = c.xyz6(c.get(f, "x00"))
        c.m(f, "predict_state", dt)
        F_ = R.hill(n, dt)
        rep.eq("predict_state/state", g, c.xyz6(c.get(f, "x10")), R.mv(F_, x))
        rep.eq("predict_state/transition", g, c.flat(c.get(f, "f")), R.flat(F_))
        rep.eq("predict_state/estimate-kept", g, c.xyz6(c.get(f, "x00")), x)
    g = K + ".predict_covariance"
    with rep.section("predict_covariance", g):
        c = w.case()
        f = filt(c)
        P, F_, Q = c.mat("Matrix6D", "P"), c.mat("Matrix6D", "F"), c.mat("Matrix6D", "Q")
        for k_, v in (("p00", P), ("f", F_), ("q", Q)):
            c.set(f, k_, v)
        c.m(f, "predict_covariance")
        rep.eq("predict_covariance", g, c.flat(c.get(f, "p10")), R.flat(R.madd(R.mm(c.rows(F_), R.mm(c.rows(P), R.T(c.rows(F_)))), c.rows(Q))))
    g = K + ".gain"
    with rep.section("gain", g):
        c = w.case()
        f = filt(c)
        P, Rm = c.mat("Matrix6D", "P"), c.mat("Matrix3D", "R")
        c.set(f, "p10", P)
        c.set(f, "r", Rm)
        c.m(f, "gain")
        k_, _, _ = update_ref([D.const(0)] * 6, c.rows(P), [D.const(0)] * 3, c.rows(Rm))
        rep.eq("gain", g, c.flat(c.get(f, "k")), R.flat(k_), boundary=False)
    g = K + ".update_state"
    with rep.section("update_state", g):
        c = w.case()
        f = filt(c)
        Km, x, z = c.mat("Matrix6by3", "K"), c.vec6("x"), c.vec3("z")
        for k_, v in (("k", Km), ("x10", x), ("z", z)):
            c.set(f, k_, v)
        c.m(f, "update_state")
        exp = R.add(c.xyz6(x), R.mv(c.rows(Km), R.sub(c.xyz(z), c.xyz6(x)[:3])))
        rep.eq("update_state/estimate", g, c.xyz6(c.get(f, "x00")), exp)
        rep.eq("update_state/propagator-follows", g, c.pv(c.get(f, "propagator.state")), exp)
    g = K + ".update_covariance"
    with rep.section("update_covariance", g):
        c = w.case()
        f = filt(c)
        Km, P, Rm = c.mat("Matrix6by3", "K"), c.mat("Matrix6D", "P"), c.mat("Matrix3D", "R")
        for k_, v in (("k", Km), ("p10", P), ("r", Rm)):
            c.set(f, k_, v)
        c.m(f, "update_covariance")
        kk = c.rows(Km)
        ikh = [[R.eye(6)[i][j] - (kk[i][j] if j < 3 else 0) for j in range(6)] for i in range(6)]
        exp = R.madd(R.mm(ikh, R.mm(c.rows(P), R.T(ikh))), R.mm(kk, R.mm(c.rows(Rm), R.T(kk))))
        rep.eq("update_covariance", g, c.flat(c.get(f, "p00")), R.flat(exp))
        # symmetric in, symmetric out, for any gain
        P, Rm = c.mat("Matrix6D", "Ps", sym=True), c.mat("Matrix3D", "Rs", sym=True)
        c.set(f, "p10", P)
        c.set(f, "r", Rm)
        c.m(f, "update_covariance")
        o = c.rows(c.get(f, "p00"))
        rep.eq("update_covariance/symmetric", g, R.flat(o), R.flat(R.T(o)))
        c.set(f, "p00", c.mat("Matrix6D", "Ps", sym=True))
        c.set(f, "f", c.mat("Matrix6D", "F"))
        c.m(f, "predict_covariance")
        o = c.rows(c.get(f, "p10"))
        rep.eq("predict_covariance/symmetric", g, R.flat(o), R.flat(R.T(o)))
    for g, args, st in ((K + ".predict", (dt,), "predict"), (K + ".update", (), "update")):
        with rep.section(st, g):
            c = w.case()
            f = filt(c)
            P = c.mat("Matrix6D", "P")
            if st == "predict":
                c.set(f, "x00", c.vec6("x"))
                c.set(f, "p00", P)
                x = c.xyz6(c.get(f, "x00"))
                c.m(f, "predict", dt)
                F_ = R.hill(n, dt)
                rep.eq("predict/state", g, c.xyz6(c.get(f, "x10")), R.mv(F_, x))
                rep.eq("predict/covariance-uses-new-transition", g, c.flat(c.get(f, "p10")), R.flat(R.madd(R.mm(F_, R.mm(c.rows(P), R.T(F_))), q())))
            else:
                x, z, Rm = c.vec6("x"), c.vec3("z"), c.mat("Matrix3D", "R")
                for k_, v in (("x10", x), ("p10", P), ("z", z), ("r", Rm)):
                    c.set(f, k_, v)
                c.m(f, "update")
                k_, xx, pp = update_ref(c.xyz6(x), c.rows(P), c.xyz(z), c.rows(Rm))
                rep.eq("update/gain", g, c.flat(c.get(f, "k")), R.flat(k_), boundary=False)
                rep.eq("update/state", g, c.xyz6(c.get(f, "x00")), xx, boundary=False)
                rep.eq("update/covariance", g, c.flat(c.get(f, "p00")), R.flat(pp), boundary=False)
    g = K + ".process"
    # histories of observations: each step must follow the equations from whatever the earlier ones left
    hist = {
        "process": [("first", None), ("second", None)],
        "process-same-epoch": [("at-filter-epoch", te), ("again-at-once", te)],
        "process-simultaneous": [("first", None), ("at-the-same-time", "same")],
        "process-late": [("first", te + D.num(D.var("lead", lo=0.001, hi=0.2))), ("earlier-than-first", te - D.num(D.var("lag", lo=0.001, hi=0.2))), ("back-to-start", te)],
        "process-repeated": [("once", None), ("same-observation-again", "object")],
    }
    for hn, steps in hist.items():
        with rep.section(hn, g):
            c = w.case()
            f = filt(c)
            x, P = [D.var("x%d" % i, scale=20.0 if i < 3 else 0.01) for i in range(6)], c.mat("Matrix6D", "P", sym=True)
            c.set(f, "x00", c.v6(x))
            c.set(f, "p00", P)
            # the process noise is the filter's own, of a size that shows where it enters
            qm = q()
            if hn in ("process", "process-simultaneous", "process-repeated"):
                Q = c.mat("Matrix6D", "Q", sym=True)
                c.set(f, "q", Q)
                qm = c.rows(Q)
            prev_p = c.rows(P)
            prev_t = te
            ob = None
            for k_, when in steps:
                if when != "object":
                    t = prev_t if when == "same" else D.var("o" + k_ + ".t", scale=59000.0) if when is None else D.num(when)
                    o = c.state("GCRF", "o" + k_, rscale=22000.0, vscale=3.0, epoch=c.epoch(t))
                    d = c.vec3("d" + k_, 60.0)
                    re, ae = D.var("re" + k_, lo=0.0, scale=0.5), D.var("ae" + k_, lo=0.0, scale=1e-4)
                    ob = c.new(SO, o, d, re, ae)
                before = c.fork()
                c.m(f, "process", ob)
                ro, vo, dd = c.xyz(c.get(o, "position")), c.xyz(c.get(o, "velocity")), c.xyz(d)
                dts = (t - prev_t) * R.DAY
                F_ = R.hill(n, dts)
                x10 = R.mv(F_, x)
                p10 = R.madd(R.mm(F_, R.mm(prev_p, R.T(F_))), qm)
                z, _ = R.to_hcw(ro, vo, R.add(ro, dd), vo)
                rho, ra, dec = R.to_spherical(dd)
                err = R.sub(R.spherical(rho + re, ra + ae, dec + ae), dd)
                he, _ = R.to_hcw(ro, vo, R.add(ro, err), vo)
                rm = [[he[i] * he[i] if i == j else D.const(0) for j in range(3)] for i in range(3)]
                nm = "%s/%s/" % (hn, k_)
                rep.eq(nm + "epoch", g, c.num(c.get(f, "epoch.value")), t)
                rep.eq(nm + "measurement", g, c.xyz(c.get(f, "z")), z, boundary=False)
                rep.eq(nm + "noise", g, c.flat(c.get(f, "r")), R.flat(rm), boundary=False, tol=1e-20)
                rep.eq(nm + "errors", g, [c.num(c.get(f, "range_error")), c.num(c.get(f, "angular_error"))], [re, ae])
                rep.eq(nm + "predicted", g, c.xyz6(c.get(f, "x10")), x10, boundary=False)
                rep.eq(nm + "predicted-covariance", g, c.flat(c.get(f, "p10")), R.flat(p10), boundary=False)
                kk, xx, pp = update_ref(x10, p10, z, rm)
                rep.eq(nm + "estimate", g, c.xyz6(c.get(f, "x00")), xx, boundary=False)
                rep.eq(nm + "covariance", g, c.flat(c.get(f, "p00")), R.flat(pp), boundary=False)
                rep.eq(nm + "propagator", g, c.pv(c.get(f, "propagator.state")), c.xyz6(c.get(f, "x00")))
                # the next observation starts from what this one left, however many came before
                calls.age(before, c, f)
                x, prev_p, prev_t = c.xyz6(c.get(f, "x00")), c.rows(c.get(f, "p00")), t
    with rep.section("shared-defaults", K):
        # the class-wide matrices are not altered by using a filter
        c = w.case()
        f = filt(c)
        before = [c.flat(c.find("%s.%s" % (K, a))) for a in ("DEFAULT_COVARIANCE", "DEFAULT_NOISE", "H", "HT", "I")]
        ob = c.new(SO, c.state("GCRF", "o", rscale=22000.0, vscale=3.0), c.vec3("d", 60.0), D.var("re", lo=0.0), D.var("ae", lo=0.0, scale=1e-4))
        c.m(f, "process", ob)
        after = [c.flat(c.find("%s.%s" % (K, a))) for a in ("DEFAULT_COVARIANCE", "DEFAULT_NOISE", "H", "HT", "I")]
        for a, x, y in zip(("covariance", "noise", "H", "HT", "I"), before, after):
            rep.eq("defaults-unaltered/" + a, K + ".process", y, x)
