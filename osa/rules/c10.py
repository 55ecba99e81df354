"""The closed-form orbit relations equal their definitions for every orbit and agree with one another."""
from .. import dag as D
from .. import ref as R

MIN_OBLIGATIONS = 40
E = "openspace.math.functions.EquationsOfMotion."
F_ = "openspace.math.functions."


def check(rep):
    w = rep.world
    pos = dict(lo=0.0)
    a = D.var("a", lo=0.0, scale=20000.0)
    mu = D.var("mu", lo=0.0, scale=400000.0)
    e = D.var("e", lo=0.0, hi=0.9999)
    eh = D.var("eh", lo=1.0001, hi=6.0)  # open orbits: negative semimajor axis
    nh = D.var("nh", lo=-1.5, hi=1.5)
    ph = a * (eh * eh - 1)
    f = D.var("f", lo=0.001, hi=0.999)
    r = D.var("r", lo=0.0, scale=15000.0)
    n = D.var("n", lo=0.0, scale=0.001)
    tau = D.var("tau", lo=0.0, scale=20000.0)
    nu = D.var("nu", lo=-7.0, hi=7.0)
    u = D.var("u", lo=-3.1, hi=6.2)
    ea = D.var("ea", lo=-3.14, hi=6.28)
    h = D.var("h", lo=0.0, scale=50000.0)
    phi = D.var("phi", lo=-1.5, hi=1.5)
    xi = D.var("xi", lo=-12.0, hi=12.0)
    v = D.var("v", lo=0.0, scale=4.0)
    b = a * f  # b < a
    c_ = a * e
    p = a * (1 - e * e)
    rdv = D.var("rdv", scale=4000.0)
    third = D.const(D.F(1, 3)) if hasattr(D, "F") else None
    cases = [
        ("E.from_a_c", (a, c_), e, ()),
        ("E.from_a_b", (a, a * D.sqrt(1 - e * e)), e, ()),
        ("E.from_a_p", (a, p), e, ()),
        ("F.from_a_b", (a, b), 1 - f, ()),
        ("A.from_mu_n", (a * a * a * n * n, n), a, ()),
        ("A.from_mu_tau", (a * a * a * n * n, R.TWO_PI / n), a, ()),
        ("A.from_mu_r_v", (mu, r, v), mu * r / (2 * mu - r * v * v), [D.cmp_("!=", 2 * mu - r * v * v, D.const(0))]),
        ("B.from_a_e", (a, e), a * D.sqrt(1 - e * e), ()),
        ("P.from_a_b", (a, a * D.sqrt(1 - e * e)), p, ()),
        ("P.from_a_e", (a, e), p, ()),
        ("P.from_mu_h", (mu, h), h * h / mu, ()),
        ("H.from_r_v_phi", (r, v, phi), r * v * D.cos(phi), ()),
        ("H.from_mu_p", (mu, h * h / mu), h, ()),
        ("XI.from_mu_r_v", (mu, r, v), v * v / 2 - mu / r, ()),
        ("XI.from_mu_a", (mu, a), -mu / (2 * a), ()),
        ("V.from_a_mu_r", (a, mu, r), D.sqrt(mu * (2 / r - 1 / a)), [D.cmp_("<", r, 2 * a)]),
        ("V.from_mu_r_xi", (mu, r, v * v / 2 - mu / r), v, ()),
        ("V.from_mu_r_e_nu", (mu, p / (1 + e * D.cos(nu)), e, nu), D.sqrt(mu * (2 * (1 + e * D.cos(nu)) / p - 1 / a)), ()),
        ("TAU.from_a_mu", (a, a * a * a * n * n), R.TWO_PI / n, ()),
        ("N.from_a_mu", (a, a * a * a * n * n), n, ()),
        ("N.from_tau", (R.TWO_PI / n,), n, ()),
        ("EA.from_rdv_r_a_n", (rdv, r, a, n), R.wrap(D.atan2(rdv / (a * a * n), 1 - r / a)), ()),
        ("NU.from_e_ea", (e, ea), R.wrap(D.atan2(D.sqrt(1 - e * e) * D.sin(ea), D.cos(ea) - e)), ()),
        ("W.from_u_nu", (u, nu), R.wrap(u - nu), [D.cmp_(">=", u - nu, -R.TWO_PI), D.cmp_("<", u - nu, R.TWO_PI)]),
        ("MA.from_ea_e", (ea, e), R.wrap(ea - e * D.sin(ea)), ()),
    ]
    cases += [
        ("E.from_a_c", (-a, -(a * eh)), eh, ()),
        ("E.from_a_p", (-a, ph), eh, ()),
        ("E.from_a_p", (a, a), D.const(0), ()),
        ("P.from_a_e", (-a, eh), ph, ()),
        ("P.from_a_e", (a, D.const(0)), a, ()),
        ("B.from_a_e", (a, D.const(0)), a, ()),
        ("E.from_a_b", (a, a), D.const(0), ()),
        ("F.from_a_b", (a, a), D.const(0), ()),
        ("XI.from_mu_a", (mu, -a), mu / (2 * a), ()),
        ("V.from_a_mu_r", (-a, mu, r), D.sqrt(mu * (2 / r + 1 / a)), ()),
        ("V.from_a_mu_r", (a, mu, a), D.sqrt(mu / a), ()),
        ("V.from_mu_r_e_nu", (mu, ph / (1 + eh * D.cos(nh)), eh, nh), D.sqrt(mu * (2 * (1 + eh * D.cos(nh)) / ph + 1 / a)), ()),
        ("V.from_mu_r_e_nu", (mu, r, D.const(0), nu), D.sqrt(mu / r), ()),
        ("V.from_mu_r_e_nu", (mu, r, D.const(1), nh), D.sqrt(2 * mu / r), ()),
        ("V.from_mu_r_xi", (mu, r, D.const(0)), D.sqrt(2 * mu / r), ()),
        ("XI.from_mu_r_v", (mu, r, D.sqrt(2 * mu / r)), D.const(0), ()),
        ("NU.from_e_ea", (D.const(0), ea), R.wrap(ea), ()),
        ("MA.from_ea_e", (ea, D.const(0)), R.wrap(ea), ()),
    ]
    count = {}
    for nm, args, exp, pre in cases:
        count[nm] = k = count.get(nm, 0) + 1
        lab = nm if k == 1 else "%s(%d)" % (nm, k)
        with rep.section(nm, E + nm) as s:
            s.pre = pre
            c = w.case()
            rep.eq(lab, E + nm, c.call(E + nm, *args), exp, pre)
    nm = F_ + "Radius.from_p_e_nu"
    with rep.section("R.from_p_e_nu", nm):
        c = w.case()
        rep.eq("R.from_p_e_nu", nm, c.call(nm, p, e, nu), p / (1 + e * D.cos(nu)))
        rep.eq("R.from_p_e_nu/open", nm, c.call(nm, ph, eh, nh), ph / (1 + eh * D.cos(nh)), [D.cmp_(">", 1 + eh * D.cos(nh), R.q("0.001"))])
        rep.eq("R.from_p_e_nu/parabola", nm, c.call(nm, r, D.const(1), nu), r / (1 + D.cos(nu)), [D.cmp_(">", 1 + D.cos(nu), R.q("0.001"))])
    # vector forms
    nm = E + "H.from_r_v"
    with rep.section("H.from_r_v", nm):
        c = w.case()
        rr, vv = c.vec3("r", 9000.0), c.vec3("v", 5.0)
        hv = c.call(nm, rr, vv)
        rep.eq("H.from_r_v", nm, c.xyz(hv), R.cross(c.xyz(rr), c.xyz(vv)))
    inc, raan = D.var("inc", lo=0.01, hi=3.13), D.var("raan", lo=-3.14, hi=6.28)
    lat = D.var("lat", lo=-3.14, hi=6.28)
    wv = R.mv(R.mm(R.R3(-raan), R.R1(-inc)), [D.const(0), D.const(0), D.const(1)])
    rv = R.scale(R.mv(R.mm(R.R3(-raan), R.R1(-inc)), [D.cos(lat), D.sin(lat), D.const(0)]), r)
    with rep.section("I.from_w", E + "I.from_w"):
        c = w.case()
        rep.eq("I.from_w", E + "I.from_w", c.call(E + "I.from_w", c.v3(wv)), inc, boundary=False)
        x = [D.var("w.x"), D.var("w.y"), D.var("w.z")]
        rep.eq("I.from_w/definition", E + "I.from_w", c.call(E + "I.from_w", c.v3(x)), D.atan2(D.sqrt(x[0] * x[0] + x[1] * x[1]), x[2]))
        # polar and equatorial orbits
        rep.eq("I.from_w/equatorial", E + "I.from_w", c.call(E + "I.from_w", c.v3([0, 0, D.var("k", lo=0.0)])), 0)
        rep.eq("I.from_w/retrograde", E + "I.from_w", c.call(E + "I.from_w", c.v3([0, 0, -D.var("k", lo=0.0)])), R.pi)
    with rep.section("RAAN.from_w", E + "RAAN.from_w"):
        c = w.case()
        rep.eq("RAAN.from_w", E + "RAAN.from_w", c.call(E + "RAAN.from_w", c.v3(wv)), R.wrap(raan), boundary=False)
        x = [D.var("w.x"), D.var("w.y"), D.var("w.z")]
        rep.eq("RAAN.from_w/definition", E + "RAAN.from_w", c.call(E + "RAAN.from_w", c.v3(x)), R.wrap(D.atan2(x[0], -x[1])))
    with rep.section("U.from_r_w", E + "U.from_r_w"):
        c = w.case()
        rep.eq("U.from_r_w", E + "U.from_r_w", c.call(E + "U.from_r_w", c.v3(rv), c.v3(wv)), R.wrap(lat), boundary=False)
        x, y = c.vec3("r", 9000.0), c.vec3("w")
        x_, y_ = c.xyz(x), c.xyz(y)
        rep.eq("U.from_r_w/definition", E + "U.from_r_w", c.call(E + "U.from_r_w", x, y), R.wrap(D.atan2(x_[2], x_[1] * y_[0] - x_[0] * y_[1])))
    # small helpers and conversions
    x = D.var("x", scale=3.0)
    with rep.section("sign", F_ + "sign"):
        c = w.case()
        rep.eq("sign", F_ + "sign", c.call(F_ + "sign", x), D.ite(D.cmp_(">", x, D.const(0)), D.const(1), D.ite(D.cmp_("<", x, D.const(0)), D.const(-1), D.const(0))))
    d, m, s = D.var("d", scale=20.0), D.var("m", scale=20.0), D.var("s", scale=20.0)
    nm = F_ + "Conversions.hms_to_decimal_day"
    with rep.section("hms", nm):
        c = w.case()
        rep.eq("hms", nm, c.call(nm, d, m, s), d / 24 + m / 1440 + s / 86400)
    nm = F_ + "Conversions.dms_to_radians"
    with rep.section("dms", nm):
        c = w.case()
        rep.eq("dms", nm, c.call(nm, d, m, s), D.radians(d + m / 60 + s / 3600))
    # agreement between different relations for the same orbit
    with rep.section("consistency", E + "A.from_mu_r_v"):
        c = w.case()
        mu3 = a * a * a * n * n
        rr = p / (1 + e * D.cos(nu))
        vv = c.call(E + "V.from_a_mu_r", a, mu3, rr)
        rep.eq("consistency/energy", E + "XI.from_mu_r_v", c.call(E + "XI.from_mu_r_v", mu3, rr, vv), c.call(E + "XI.from_mu_a", mu3, a))
        rep.eq("consistency/axis", E + "A.from_mu_r_v", c.call(E + "A.from_mu_r_v", mu3, rr, vv), a)
        rep.eq("consistency/speed", E + "V.from_mu_r_e_nu", c.call(E + "V.from_mu_r_e_nu", mu3, rr, e, nu), vv)
        rep.eq("consistency/period", E + "N.from_tau", c.call(E + "N.from_tau", c.call(E + "TAU.from_a_mu", a, mu3)), c.call(E + "N.from_a_mu", a, mu3))
