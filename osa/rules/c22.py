"""Observations describe the true line of sight: angles, range, reconstructed positions and the noise that is applied."""
from .. import dag as D
from .. import ref as R
from ..world import L, POS, S
from .c20 import craft

MIN_OBLIGATIONS = 35
SO = "openspace.estimation.obs.SpaceObservation"
GO = "openspace.estimation.obs.GroundObservation"
GS = "openspace.bodies.terrestrial.GroundSite"
SC = "openspace.bodies.artificial.Spacecraft"
V3 = L + "Vector3D"
ASSUME = ["the shape of the noise distributions is that of the standard library's generators"]


def draws(nodes, kind):
    return sorted([v for v in D.variables([n for n in nodes if isinstance(n, D.N)]) if v.name.startswith(kind + "#")], key=lambda v: int(v.name.split("#")[1]))


def to_ijk(p_itrf, t):
    return R.mv(R.R3(-R.gha(t)), p_itrf)


def check(rep):
    w = rep.world
    t = D.var("t", scale=59000.0)
    re, ae = D.var("re", lo=0.0, scale=0.5), D.var("ae", lo=0.0, scale=1e-4)
    with rep.section("space", SO):
        c = w.case()
        s = c.state("GCRF", "s", epoch=c.epoch(t), rscale=22000.0)
        d = c.vec3("d", 300.0)
        o = c.new(SO, s, d, re, ae)
        dd, p = c.xyz(d), c.xyz(c.get(s, "position"))
        rho, ra, dec = R.to_spherical(dd)
        rep.eq("space/range", SO, c.num(c.get(o, "range")), rho)
        rep.eq("space/right-ascension", SO, c.num(c.get(o, "right_ascension")), ra)
        rep.eq("space/declination", SO, c.num(c.get(o, "declination")), dec)
        rep.eq("space/errors", SO, [c.num(c.get(o, "range_error")), c.num(c.get(o, "angular_error"))], [re, ae])
        rep.eq("space/direction", SO, c.xyz(c.get(o, "observed_direction")), dd)
        rep.eq("space/observer", SO, c.pv(c.get(o, "observer_state")), c.pv(s))
        rep.eq("space/epoch", SO + ".epoch", c.num(c.get(c.m(o, "epoch"), "value")), t)
        q = R.add(p, dd)
        rep.eq("space/ijk_position", SO + ".ijk_position", c.xyz(c.m(o, "ijk_position")), to_ijk(R.gcrf_to_itrf(q, t), t), boundary=False)
        # the angles and range lead back to the line of sight
        rep.eq("space/angles-give-direction", SO, R.spherical(*[c.num(c.get(o, k)) for k in ("range", "right_ascension", "declination")]), dd, boundary=False)
    lat, lon, alt = D.var("lat", lo=-1.55, hi=1.55), D.var("lon", lo=0.0, hi=6.2831), D.var("alt", lo=-5.0, hi=9.0)
    site = R.lla_to_itrf(lat, lon, alt)
    enz = R.enz(lon, lat)

    def azel(d):
        return R.mag(d), R.wrap(D.atan2(d[0], d[1])), D.atan2(d[2], D.sqrt(d[0] * d[0] + d[1] * d[1]))

    def ground(c, d):
        st = c.call(S + "ITRF.from_fixed", c.epoch(t), c.v3(site))
        return c.new(GO, st, d, re, ae)

    with rep.section("ground", GO):
        c = w.case()
        d = c.vec3("d", 900.0)
        o = ground(c, d)
        dd = c.xyz(d)
        rho, az, el = azel(dd)
        rep.eq("ground/range", GO, c.num(c.get(o, "range")), rho)
        rep.eq("ground/azimuth-from-north-through-east", GO, c.num(c.get(o, "azimuth")), az)
        rep.eq("ground/elevation", GO, c.num(c.get(o, "elevation")), el)
        rep.eq("ground/errors", GO, [c.num(c.get(o, "range_error")), c.num(c.get(o, "angular_error"))], [re, ae])
        rep.eq("ground/direction", GO, c.xyz(c.get(o, "observed_direction")), dd)
        rep.eq("ground/epoch", GO + ".epoch", c.num(c.get(c.m(o, "epoch"), "value")), t)
        q = R.add(site, R.mv(R.T(enz), dd))
        # the altitude-dependent geodetic inverse is compared elsewhere: here its result is a round trip
        rep.eq("ground/ijk_position", GO + ".ijk_position", c.xyz(c.m(o, "ijk_position")), to_ijk(q, t), boundary=False)
        rep.eq("ground/gcrf_position", GO + ".gcrf_position", c.xyz(c.m(o, "gcrf_position")), R.itrf_to_gcrf(q, t), boundary=False)
    f = GO + ".from_angles_and_range"
    az, el, rng = D.var("az", lo=0.0, hi=6.2831), D.var("el", lo=-1.57, hi=1.57), D.var("rng", lo=0.0, scale=900.0)
    with rep.section("from_angles_and_range", f):
        c = w.case()
        st = c.call(S + "ITRF.from_fixed", c.epoch(t), c.v3(site))
        o = c.call(f, st, az, el, rng, re, ae)
        rep.eq("from-angles/direction", f, c.xyz(c.get(o, "observed_direction")), [rng * D.cos(el) * D.sin(az), rng * D.cos(el) * D.cos(az), rng * D.sin(el)])
        rep.eq("from-angles/azimuth", f, c.num(c.get(o, "azimuth")), az, boundary=False)
        rep.eq("from-angles/elevation", f, c.num(c.get(o, "elevation")), el, boundary=False)
        rep.eq("from-angles/range", f, c.num(c.get(o, "range")), rng, boundary=False)
        rep.eq("from-angles/errors", f, [c.num(c.get(o, "range_error")), c.num(c.get(o, "angular_error"))], [re, ae])
        rep.eq("from-angles/epoch", f, c.num(c.get(c.m(o, "epoch"), "value")), t)
        rep.eq("from-angles/observer", f, c.xyz(c.get(o, "observer_state.position")), site)
        rep.rule("from-angles/kind", f, c.clsname(o) == "GroundObservation", "does not return a ground observation")
    f = GS + ".angles_and_range"
    with rep.section("angles_and_range", f):
        c = w.case()
        gs = c.new(GS, c.new(POS + "LLA", lat, lon, alt))
        sc = craft(c, "sc", c.epoch(t))
        o = c.m(gs, "angles_and_range", sc)
        p = c.xyz(c.m(sc, "position"))
        d = R.mv(enz, R.sub(R.gcrf_to_itrf(p, t), site))
        rho, a_, e_ = azel(d)
        rep.eq("site/range", f, c.num(c.get(o, "range")), rho, boundary=False)
        rep.eq("site/azimuth", f, c.num(c.get(o, "azimuth")), a_, boundary=False)
        rep.eq("site/elevation", f, c.num(c.get(o, "elevation")), e_, boundary=False)
        rep.eq("site/epoch", f, c.num(c.get(c.m(o, "epoch"), "value")), t)
        rep.eq("site/noise-free", f, [c.num(c.get(o, "range_error")), c.num(c.get(o, "angular_error"))], [D.const(0), D.const(0)])
        rep.eq("site/observer", f, c.xyz(c.get(o, "observer_state.position")), site)
        # the observation leads back to the spacecraft (up to the second-order terms of the nutation matrix)
        rep.eq("site/leads-back-to-target", f, c.xyz(c.m(o, "gcrf_position")), p, boundary=False, tol=1e-7, nsamples=8)
    # noise
    sr, sa = D.var("sr", lo=0.0, scale=0.5), D.var("sa", lo=0.0, scale=0.01)
    f = V3 + ".with_magnitude_noise"
    with rep.section("magnitude-noise", f):
        c = w.case()
        v = c.vec3("v", 300.0)
        r = c.xyz(c.m(v, "with_magnitude_noise", sr))
        g = draws(r, "gauss")
        vv = c.xyz(v)
        rep.rule("magnitude-noise/one-draw", f, len(g) == 1, "%d normal draws where one is expected" % len(g))
        if g:
            rep.eq("magnitude-noise/along-vector", f, r, R.scale(R.unit(vv), R.mag(vv) + sr * g[0]))
        r = c.xyz(c.m(v, "with_magnitude_noise", 0))
        rep.eq("magnitude-noise/zero-sigma", f, r, vv)
    f = V3 + ".with_angular_noise"
    # also straight along the polar axis, where the axis to tilt about is a matter of choice
    zz = D.var("v.z", lo=0.5, hi=900.0)
    for tag, at in (("", None), ("-up", (0, 0, zz)), ("-down", (0, 0, -zz))):
      with rep.section("angular-noise" + tag, f):
        c = w.case()
        v = c.vec3("v", 300.0) if at is None else c.new(V3, *at)
        r = c.xyz(c.m(v, "with_angular_noise", sa))
        g, u = draws(r, "gauss"), draws(r, "unif")
        vv = c.xyz(v)
        rep.rule("angular-noise" + tag + "/draws", f, len(g) == 1 and len(u) == 1, "expected one normal and one uniform draw, found %d and %d" % (len(g), len(u)))
        rep.eq("angular-noise" + tag + "/keeps-length", f, R.mag(r), R.mag(vv))
        if g and u:
            rep.eq("angular-noise" + tag + "/cone-angle", f, R.dot(r, vv) / R.dot(vv, vv), D.cos(sa * g[0]))
            # turning the uniform draw through one turn carries the vector once around the cone
            for k, lab in ((D.const(D.F(1, 2)), "half"), (D.const(D.F(1, 4)), "quarter")):
                r0 = [D.subst(x, {u[0].id: D.const(0)}) for x in r]
                rk = [D.subst(x, {u[0].id: k}) for x in r]
                rep.eq("angular-noise%s/%s-turn" % (tag, lab), f, rk, R.mv(R.rot(vv, R.TWO_PI * k), r0), boundary=False)
        r = c.xyz(c.m(v, "with_angular_noise", 0))
        rep.eq("angular-noise" + tag + "/zero-sigma", f, r, vv, boundary=False)
    f = V3 + ".with_noise"
    with rep.section("noise", f):
        c = w.case()
        v = c.vec3("v", 300.0)
        vv = c.xyz(v)
        r = c.xyz(c.m(v, "with_noise", sr, sa))
        g = draws(r, "gauss")
        rep.rule("noise/independent-draws", f, len(g) == 2, "range and direction noise do not use independent draws")
        if len(g) == 2:
            # which draw acts on the range is decided by the value numbers
            m2 = R.dot(r, r)
            gr = [x for x in g if x in D.variables([m2])]
            ok = False
            from .. import equal
            for gr, ga in ((g[0], g[1]), (g[1], g[0])):
                k = R.mag(vv) + sr * gr
                if equal.decide([(m2, k * k)], nsamples=6, plain=True).equal:
                    ok = True
                    rep.eq("noise/range", f, m2, k * k)
                    rep.eq("noise/angle", f, R.dot(r, vv) / R.mag(vv), k * D.cos(sa * ga))
                    break
            rep.rule("noise/range-sigma", f, ok, "the length is not the true length plus sigma times a normal draw")
        rep.eq("noise/receiver-unchanged", f, c.xyz(v), vv)
    # sensors of a spacecraft
    pa, rad = D.var("pa", lo=0.0, scale=0.2), D.var("rad", lo=0.0005, hi=0.02)
    for cam in ("wfov", "nfov"):
        f = SC + ".observe_" + cam
        with rep.section("observe/" + cam, f):
            c = w.case()
            a, b = craft(c, "sc", c.epoch(t)), craft(c, "tgt", c.epoch(t))
            c.set(a, "pointing_accuracy", pa)
            c.set(a, "body_radius", D.var("own", lo=0.0005, hi=0.02))
            c.set(b, "body_radius", rad)
            px, fov = {}, {}
            for k in ("wfov", "nfov"):
                px[k], fov[k] = D.var("px." + k, lo=100.0, hi=5000.0), D.var("fov." + k, lo=0.001, hi=1.0)
                c.set(a, k, c.new("openspace.hardware.payloads.Camera", px[k], fov[k]))
            o = c.m(a, "observe_" + cam, b)
            d = R.sub(c.xyz(c.m(b, "position")), c.xyz(c.m(a, "position")))
            err = D.sin(fov[cam]) / D.cos(fov[cam]) * R.dot(d, d) / (2 * px[cam] * 2 * rad)
            rep.eq("observe/%s/range-error" % cam, f, c.num(c.get(o, "range_error")), err, what="the range error is not that of this camera and the target's size")
            rep.eq("observe/%s/angular-error" % cam, f, c.num(c.get(o, "angular_error")), pa)
            rep.eq("observe/%s/observer" % cam, f, c.pv(c.get(o, "observer_state")), c.pv(c.m(a, "current_state")))
            rep.eq("observe/%s/epoch" % cam, f, c.num(c.get(c.m(o, "epoch"), "value")), t)
            got = c.xyz(c.get(o, "observed_direction"))
            zero = {v.id: D.const(0) for v in draws(got, "gauss")}
            rep.eq("observe/%s/truth-without-noise" % cam, f, [D.subst(x, zero) for x in got], d, boundary=False, what="without noise the observation is not the true line of sight")
            g = draws(got, "gauss")
            rep.rule("observe/%s/noise-applied" % cam, f, len(g) == 2, "the observation does not carry both range and angular noise")
            if len(g) == 2:
                from .. import equal
                m2 = R.dot(got, got)
                ok = any(equal.decide([(m2, (R.mag(d) + err * x) * (R.mag(d) + err * x))], nsamples=6, plain=True).equal for x in g)
                rep.rule("observe/%s/range-noise-sigma" % cam, f, ok, "the range noise is not scaled by the camera's range error")
                ok = any(equal.decide([(R.dot(got, d) * R.dot(got, d) / (R.dot(got, got) * R.dot(d, d)), D.cos(pa * x) * D.cos(pa * x))], nsamples=6, plain=True).equal for x in g)
                rep.rule("observe/%s/angular-noise-sigma" % cam, f, ok, "the angular noise is not scaled by the pointing accuracy")
        f = SC + ".process_" + cam
        with rep.section("process/" + cam, f):
            c = w.case()
            a, b = craft(c, "sc", c.epoch(t)), craft(c, "tgt", c.epoch(t))
            # make the cameras distinguishable
            for k, p_ in (("wfov", 3000), ("nfov", 700)):
                c.set(a, k, c.new("openspace.hardware.payloads.Camera", D.const(p_), D.const(D.F(1, 10))))
            c.m(a, "acquire", b)
            c.m(a, "process_" + cam, b)
            flt = c.get(a, "filter")
            d = R.sub(c.xyz(c.m(b, "position")), c.xyz(c.m(a, "position")))
            kf = D.const(D.F(1, 10))
            err = D.sin(kf) / D.cos(kf) * R.dot(d, d) / (2 * {"wfov": 3000, "nfov": 700}[cam] * 2 * R.q("0.005"))
            rep.eq("process/%s/uses-its-camera" % cam, f, c.num(c.get(flt, "range_error")), err)
            rep.eq("process/%s/epoch" % cam, f, c.num(c.get(flt, "epoch.value")), t)
    # what is observed is where the two are now, however often and from where it was observed before
    for how in ("target-moved", "observer-moved", "both-moved", "another-target", "time-passed"):
        f = SC + ".observe_wfov"
        with rep.section("again/" + how, f):
            c = w.case()
            t2 = D.var("t2", scale=59000.0)
            a, b, o3 = craft(c, "sc", c.epoch(t)), craft(c, "tgt", c.epoch(t)), craft(c, "oth", c.epoch(t))
            gs = c.new(GS, c.new(POS + "LLA", lat, lon, alt))
            for cam in ("wfov", "nfov"):
                c.m(a, "observe_" + cam, b)
            c.m(gs, "angles_and_range", b)
            now = t2 if how == "time-passed" else t
            if how in ("target-moved", "both-moved", "time-passed"):
                c.set(c.get(b, "propagator"), "state", c.state("GCRF", "moved", epoch=c.epoch(now), rscale=22000.0, vscale=3.0))
            if how in ("observer-moved", "both-moved", "time-passed"):
                c.set(c.get(a, "propagator"), "state", c.state("GCRF", "shifted", epoch=c.epoch(now), rscale=22000.0, vscale=3.0))
            if how == "another-target":
                b = o3
            xa, xb = c.xyz(c.get(a, "propagator.state.position")), c.xyz(c.get(b, "propagator.state.position"))
            d = R.sub(xb, xa)
            for cam in ("wfov", "nfov"):
                o = c.m(a, "observe_" + cam, b)
                got = c.xyz(c.get(o, "observed_direction"))
                zero = {v.id: D.const(0) for v in draws(got, "gauss")}
                rep.eq("again/%s/%s/truth-without-noise" % (how, cam), SC + ".observe_" + cam, [D.subst(x, zero) for x in got], d, boundary=False, nsamples=6, what="without noise the observation is not the true line of sight")
                rep.eq("again/%s/%s/observer" % (how, cam), SC + ".observe_" + cam, c.xyz(c.get(o, "observer_state.position")) + [c.num(c.get(c.m(o, "epoch"), "value"))], xa + [now], boundary=False, nsamples=6)
                rep.rule("again/%s/%s/fresh-noise" % (how, cam), SC + ".observe_" + cam, len(draws(got, "gauss")) == 2, "the observation does not carry its own range and angular noise")
            o = c.m(gs, "angles_and_range", b)
            dd = R.mv(enz, R.sub(R.gcrf_to_itrf(xb, now), site))
            rep.eq("again/%s/site" % how, GS + ".angles_and_range", c.xyz(c.get(o, "observed_direction")) + [c.num(c.get(c.m(o, "epoch"), "value"))], dd + [now], boundary=False, nsamples=6)
    f = SC + ".acquire"
    with rep.section("acquire", f):
        c = w.case()
        a, b = craft(c, "sc", c.epoch(t)), craft(c, "tgt", c.epoch(t))
        xa, xb = c.pv(c.m(a, "current_state")), c.pv(c.m(b, "current_state"))
        c.m(a, "acquire", b)
        p, v = R.to_hcw(xa[:3], xa[3:], xb[:3], xb[3:])
        flt = c.get(a, "filter")
        rep.eq("acquire/seed-position", f, c.xyz6(c.get(flt, "x00"))[:3], p, boundary=False)
        rep.eq("acquire/seed-velocity", f, c.xyz6(c.get(flt, "x00"))[3:], v, boundary=False)
        rep.eq("acquire/epoch", f, c.num(c.get(flt, "epoch.value")), t)
        rep.eq("acquire/axis", f, c.num(c.get(flt, "propagator.sma")), 1 / (2 / R.mag(xa[:3]) - R.dot(xa[3:], xa[3:]) / R.MU))
        rep.rule("acquire/tracks", f, c.get(a, "steering") == "target", "the spacecraft does not turn to the acquired target")
