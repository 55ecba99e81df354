"""The public entry points, with the kinds of their arguments: what the ownership and effect rules enumerate."""
from .. import dag as D
from ..interp import Phi, Ref, FuncVal, ClassVal, Bound
from ..world import L, POS, S

ART = "openspace.bodies.artificial.Spacecraft"
CEL = "openspace.bodies.celestial."
TER = "openspace.bodies.terrestrial.GroundSite"
COE = "openspace.coordinates.elements.ClassicalElements"
OBS = "openspace.estimation.obs."
FIL = "openspace.estimation.filtering.RelativeKalman"
CAM = "openspace.hardware.payloads.Camera"
RK4 = "openspace.propagators.inertial.RK4"
HILL = "openspace.propagators.relative.Hill"
EP = "openspace.time.Epoch"
EOM = "openspace.math.functions."
PC = POS + "PositionConvert."
SCV = S + "StateConvert."


def methods(cls, kind, table):
    return [("%s.%s" % (cls, m), kind, tuple(a.split())) for m, a in table]


def entries():
    """(dotted name, kind of receiver or None, kinds of arguments, role) ; role: query, mutate, new"""
    out = []

    def add(rows, role):
        out.extend((n, k, a, role) for n, k, a in rows)

    def q(cls, kind, text, role="query"):
        rows = []
        for line in text.strip().split(";"):
            parts = line.split()
            if parts:
                rows.append(("%s.%s" % (cls, parts[0]), kind, tuple(parts[1:])))
        add(rows, role)

    # linear algebra
    q(L + "Vector3D", "v3", "plus v3; minus v3; dot v3; cross v3; scaled pos; normalized; magnitude; angle v3; copy; rotation_about_axis v3 num; with_magnitude_noise pos; with_angular_noise pos; with_noise pos pos")
    q(L + "Vector3D", None, "rotation_matrix v3 num", "query")
    q(L + "Vector6D", "v6", "plus v6; minus v6; dot v6; copy")
    q(L + "Vector6D", None, "from_position_and_velocity v3 v3")
    sh = {"Matrix3D": (3, 3), "Matrix3by6": (3, 6), "Matrix6by3": (6, 3), "Matrix6D": (6, 6)}
    key = {"Matrix3D": "m33", "Matrix3by6": "m36", "Matrix6by3": "m63", "Matrix6D": "m66"}
    for k, (nr, nc) in sh.items():
        q(L + k, key[k], "transpose; multiply_vector %s; " % ("v3" if nc == 3 else "v6") + "; ".join("column_%d" % (j + 1) for j in range(nc)))
        out.append((L + k, None, tuple(["v3" if nc == 3 else "v6"] * nr), "new"))
    q(L + "Matrix3D", "m33", "plus m33; scaled num; determinant; cofactor; adjugate; inverse; diagonal; multiply_matrix3by6 m36")
    q(L + "Matrix6D", "m66", "plus m66; minus m66; diagonal; multiply_matrix m66; multiply_matrix_6by3 m63")
    q(L + "Matrix6D", None, "identity")
    q(L + "Matrix3by6", "m36", "multiply_matrix_6by3 m63")
    q(L + "Matrix6by3", "m63", "multiply m33; multiply_matrix3by6 m36")
    # time
    q(EP, "epoch", "copy; julian_value; julian_centuries_past_j2000; plus_days days; greenwich_hour_angle")
    # positions
    q(POS + "SphericalPosition", "sph", "to_cartesian")
    q(POS + "SphericalPosition", None, "from_cartesian v3")
    q(POS + "LLA", "lla", "copy")
    for fr, ms in (("gcrf", "to_itrf to_tod to_mod to_ijk"), ("itrf", "to_gcrf to_tod to_mod to_ijk")):
        q(PC + fr, None, "; ".join("%s pos3 epoch" % m for m in ms.split()))
    q(PC + "itrf", None, "to_lla pos3")
    q(PC + "lla", None, "to_itrf lla")
    q(PC + "enz", None, "to_itrf lla v3")
    # states
    for k in ("GCRF", "ITRF", "IJK", "HCW"):
        out.append((S + k, None, ("epoch", "pos3", "vel3"), "new"))
    q(S + "ITRF", None, "from_fixed epoch pos3", "new")
    q(S + "HCW", None, "from_state_vector v6", "new")
    q(S + "HCW", None, "frame_matrix gcrf")
    q(S + "GCRF", "gcrf", "copy; acceleration_from_gravity; acceleration_from_earth; acceleration_from_moon; acceleration_from_sun; acceleration_from_srp; acceleration_from_thrust; derivative; sun_vector; moon_vector")
    q(SCV + "gcrf", None, "to_hcw gcrf gcrf")
    q(SCV + "hcw", None, "to_gcrf hcw gcrf")
    # elements
    out.append((COE, None, ("epoch", "sma", "ecc", "num", "num", "num", "num"), "new"))
    q(COE, None, "from_ijk ijk", "new")
    q(COE, "coe", "eccentric_anomaly; perigee_vector; semilatus_rectum_vector; to_ijk")
    # bodies
    q(CEL + "Earth", None, "obliquity_of_ecliptic_at_epoch epoch; geo_radius; rotation epoch; precession epoch; nutation epoch")
    q(CEL + "Sun", None, "get_position epoch")
    q(CEL + "Moon", None, "get_position epoch")
    out.append((TER, None, ("lla",), "new"))
    q(TER, None, "from_itrf_position pos3", "new")
    q(TER, "site", "enz_position pos3; angles_and_range craft")
    out.append((ART, None, ("gcrf",), "new"))
    q(ART, "craft", "area; srp_scalar; total_mass; sma; observe_wfov craft; observe_nfov craft; velocity; detect craft; visual_magnitude craft; sun_angle craft; moon_angle craft; earth_angle craft; range craft; position; sun_vector; moon_vector; earth_vector; target_vector craft; hill_position craft; current_state; current_epoch")
    q(ART, "craft", "impulsive_maneuver burn; finite_maneuver burn; acquire craft; update_attitude; track_lvlh; track_sun; track_state craft; step; step_to_epoch epoch", "mutate")
    q(ART, "crafta", "process_wfov craft; process_nfov craft", "mutate")
    # sensors and observations
    q(CAM, "camera", "resolution pos; range_error pos pos; tracking_minimum pos")
    out.append((OBS + "SpaceObservation", None, ("gcrf", "v3", "pos", "pos"), "new"))
    out.append((OBS + "GroundObservation", None, ("itrf", "v3", "pos", "pos"), "new"))
    q(OBS + "GroundObservation", None, "from_angles_and_range itrf num num pos pos pos", "new")
    q(OBS + "SpaceObservation", "sobs", "epoch; ijk_position")
    q(OBS + "GroundObservation", "gobs", "epoch; ijk_position; gcrf_position")
    # propagators and filter
    out.append((RK4, None, ("gcrf",), "new"))
    q(RK4, "rk4", "step; maneuver burn mdot mass isp; step_to_epoch epoch", "mutate")
    q(RK4, "rk4", "thrust_vector secs")
    out.append((HILL, None, ("hcw", "sma"), "new"))
    q(HILL, "hill", "system_matrix secs")
    q(HILL, "hill", "step_by_seconds secs; step", "mutate")
    out.append((FIL, None, ("epoch", "hill"), "new"))
    q(FIL, "kalman", "predict_covariance; predict_state secs; predict secs; process sobs", "mutate")
    q(EOM + "EquationsOfMotion.H", None, "from_r_v pos3 vel3")
    q(EOM + "EquationsOfMotion.RAAN", None, "from_w v3")
    q(EOM + "EquationsOfMotion.I", None, "from_w v3")
    q(EOM + "EquationsOfMotion.U", None, "from_r_w pos3 v3")
    q("openspace.estimation.iod.Gauss", None, "coes_from_positions sobs sobs")
    # scalar relations
    Q = EOM + "EquationsOfMotion."
    for k, text in (
        ("E", "from_a_c sma ecc; from_a_b sma pos; from_a_p sma pos"), ("F", "from_a_b sma pos"), ("A", "from_mu_n mu pos; from_mu_tau mu sma; from_mu_r_v mu sma pos"),
        ("B", "from_a_e sma ecc"), ("P", "from_a_b sma pos; from_a_e sma ecc; from_mu_h mu sma"), ("H", "from_r_v_phi sma pos num; from_mu_p mu sma"),
        ("XI", "from_mu_r_v mu sma pos; from_mu_a mu sma"), ("V", "from_a_mu_r sma mu sma; from_mu_r_xi mu sma pos; from_mu_r_e_nu mu sma ecc num"), ("TAU", "from_a_mu sma mu"),
        ("N", "from_a_mu sma mu; from_tau sma"), ("EA", "from_rdv_r_a_n num sma sma pos"), ("NU", "from_e_ea ecc num"), ("W", "from_u_nu pos pos"), ("MA", "from_ea_e num ecc"),
    ):
        q(Q + k, None, text)
    q(EOM + "Radius", None, "from_p_e_nu sma ecc num")
    q(EOM + "Conversions", None, "hms_to_decimal_day num num num; dms_to_radians num num num")
    q(EOM.rstrip("."), None, "sign num")
    out.append((EOM + "LegendrePolynomial", None, ("num",), "new"))
    q("openspace.planning.maneuvers.VisViva", None, "circular_velocity sma; eccentric_velocity sma sma")
    out.append(("openspace.planning.maneuvers.Hohmann", None, ("sma", "sma"), "new"))
    q(EP, None, "from_gregorian year month day hour minute pos")
    return out


WHOLE = {"year": (1900, 2100), "month": (1, 12), "day": (1, 28), "hour": (0, 23), "minute": (0, 59)}


class Builder:
    """fresh symbolic arguments of each kind"""

    tag = ""
    #: spacecraft at epochs of their own
    apart = False
    #: pointing of the spacecraft
    mode = "lvlh"

    def __init__(self, c, apart=False, mode="lvlh"):
        self.c, self.n, self.apart, self.mode = c, 0, apart, mode

    def make(self, kind):
        c = self.c
        self.n += 1
        nm = "%s%s%d" % (self.tag, kind, self.n)
        if kind in ("v3", "pos3", "vel3", "burn"):
            return c.vec3(nm, {"v3": 2.0, "pos3": 15000.0, "vel3": 4.0, "burn": 0.01}[kind])
        if kind == "v6":
            return c.vec6(nm)
        if kind in ("m33", "m36", "m63", "m66"):
            return c.mat({"m33": "Matrix3D", "m36": "Matrix3by6", "m63": "Matrix6by3", "m66": "Matrix6D"}[kind], nm)
        if kind == "num":
            return D.var(nm, scale=2.0)
        if kind == "pos":
            return D.var(nm, lo=0.001, hi=2.0)
        if kind == "err":
            return D.var(nm, lo=0.0, hi=2.0)
        if kind == "secs":
            return D.var(nm, scale=100000.0)
        if kind == "days":
            return D.var(nm, scale=40.0)
        if kind == "sma":
            return D.var(nm, lo=7000.0, hi=50000.0)
        if kind == "ecc":
            return D.var(nm, lo=0.01, hi=0.7)
        if kind == "mdot":
            return D.var(nm, lo=0.0001, hi=0.01)
        if kind == "mass":
            return D.var(nm, lo=500.0, hi=900.0)
        if kind == "isp":
            return D.var(nm, lo=100.0, hi=400.0)
        if kind == "mu":
            return D.var(nm, lo=300000.0, hi=500000.0)
        if kind in WHOLE:
            lo, hi = WHOLE[kind]
            return D.var(nm, lo=lo, hi=hi, integer=True)
        if kind == "epoch":
            return c.epoch(nm)
        if kind in ("gcrf", "itrf", "ijk"):
            s = c.state(kind.upper(), nm, rscale=15000.0, vscale=3.0)
            if kind == "gcrf":
                c.set(s, "use_perturbations", False)
            return s
        if kind == "hcw":
            return c.state("HCW", nm, rscale=50.0, vscale=0.01)
        if kind == "sph":
            return c.new(POS + "SphericalPosition", D.var(nm + "r", lo=1.0, hi=9000.0), D.var(nm + "a"), D.var(nm + "d"))
        if kind == "lla":
            return c.new(POS + "LLA", D.var(nm + ".lat", lo=-1.5, hi=1.5), D.var(nm + ".lon", lo=-6.28, hi=6.28), D.var(nm + ".alt", lo=-0.4, hi=9.0))
        if kind == "coe":
            return c.new(COE, c.epoch(nm), *[self.make(k) for k in ("sma", "ecc", "num", "num", "num", "num")])
        if kind == "site":
            return c.new(TER, self.make("lla"))
        if kind in ("craft", "crafta"):
            # spacecraft used together are at one epoch: bringing a lagging target along is a documented effect
            s = c.state("GCRF", nm, epoch=c.epoch(nm + ".t" if self.apart else self.tag + "craft.t"), rscale=15000.0, vscale=3.0)
            c.set(s, "use_perturbations", False)
            a = c.new(ART, s)
            # every attribute has a value of its own, so that data moving between objects is seen
            for k, lo, hi in (("albedo", 0.1, 0.9), ("body_radius", 0.001, 0.02), ("pointing_accuracy", 1e-6, 1e-4), ("m_dot", 0.001, 0.01), ("isp", 100.0, 400.0),
                              ("dry_mass", 300.0, 700.0), ("propellant_mass", 100.0, 300.0), ("slew_scalar", 0.001, 0.01)):
                c.set(a, k, D.var("%s.%s" % (nm, k), lo=lo, hi=hi))
            for k in ("wfov", "nfov"):
                c.set(a, k, c.new(CAM, D.var("%s.%s.p" % (nm, k), lo=100.0, hi=5000.0), D.var("%s.%s.f" % (nm, k), lo=0.01, hi=1.0)))
            for k in ("wfov", "nfov"):
                for l, lo, hi in (("sun_soft", 0.1, 3.0), ("sun_hard", 0.1, 3.0), ("moon", 0.0, 2.0), ("earth", 0.0, 2.0), ("vismag", 5.0, 30.0), ("bore", 0.01, 2.0)):
                    c.set(c.get(a, k + ".limits"), l, D.var("%s.%s.%s" % (nm, k, l), lo=lo, hi=hi))
            c.set(c.get(a, "propagator"), "step_size", D.var(nm + ".h", lo=1.0, hi=300.0))
            if self.mode == "solar":
                c.m(a, "track_sun")
            elif self.mode == "target":
                self.mode = "lvlh"
                o = self.make("craft")
                self.mode = "target"
                c.m(a, "track_state", o)
            if kind == "crafta":
                c.m(a, "acquire", self.make("craft"))
            return a
        if kind == "camera":
            return c.new(CAM, D.var(nm + "p", lo=100.0, hi=5000.0), D.var(nm + "f", lo=0.001, hi=1.0))
        if kind == "sobs":
            return c.new(OBS + "SpaceObservation", self.make("gcrf"), c.vec3(nm, 300.0), self.make("err"), self.make("err"))
        if kind == "gobs":
            return c.new(OBS + "GroundObservation", self.make("itrf"), c.vec3(nm, 300.0), self.make("err"), self.make("err"))
        if kind == "rk4":
            a = c.new(RK4, self.make("gcrf"))
            c.set(a, "step_size", D.var(nm + ".h", lo=1.0, hi=300.0))
            return a
        if kind == "hill":
            a = c.new(HILL, self.make("hcw"), self.make("sma"))
            c.set(a, "step_size", D.var(nm + ".h", lo=1.0, hi=600.0))
            return a
        if kind == "kalman":
            a = c.new(FIL, c.epoch(nm), self.make("hill"))
            # a filter that was used before
            for k in ("range_error", "angular_error"):
                c.set(a, k, D.var("%s.%s" % (nm, k), lo=0.0, hi=2.0))
            return a
        raise KeyError(kind)


def aliases(recv, args):
    """can the receiver or an argument be given once more as another argument?"""
    kinds = ([recv.replace("crafta", "craft")] if recv else []) + [a for a in args if a not in NUMBERS]
    return len(set(kinds)) < len(kinds)


NUMBERS = set("num pos err secs days sma ecc mdot mass isp mu year month day hour minute".split())


def run(c, name, recv, args, alias=False, **kw):
    """interpret one call; -> (receiver, arguments, result, state of the heap before)"""
    b = Builder(c, **kw)
    self_ = b.make(recv) if recv else None
    vals = []
    one = {recv.replace("crafta", "craft"): self_} if recv else {}
    for k in args:
        vals.append(one[k] if alias and k in one else b.make(k))
        if k not in NUMBERS:
            one.setdefault(k, vals[-1])
    before = c.fork()
    if self_ is not None:
        r = c.m(self_, name.rsplit(".", 1)[1], *vals)
    else:
        r = c.call(name, *vals)
    return self_, vals, r, before


def reset(c, *roots):
    """(object, field, value): another value for every number the objects hold"""
    out, seen = [], set()
    for r, label in zip(roots, "rabcdefg"):
        for k, path in c.paths(r, label).items():
            o = c.st.heap[k]
            if o.kind != "inst" or k in seen:
                continue
            seen.add(k)
            for f, v in (o.f or {}).items():
                if isinstance(v, D.N) and not (v.op == "const" and v.val == 0):
                    out.append((k, f, v * D.var("re:%s.%s" % (path, f), lo=1.01, hi=1.05)))
    return out


def unsummed(c, *vals):
    """numbers reachable from the values that a loop summary left without a closed form"""
    todo, seen = list(vals), set()
    while todo:
        v = todo.pop()
        if isinstance(v, D.N):
            if any(x.name.startswith(("mu:", "K@")) for x in D.variables([v])):
                return True
        elif isinstance(v, Phi):
            todo += [v.a, v.b]
        elif isinstance(v, tuple):
            todo += list(v)
        elif isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            o = c.st.heap.get(v.id)
            if o is not None and o.kind in ("inst", "list"):
                todo += list((o.f or {}).values()) + list(o.items or [])
    return False


def globals_of(c):
    """objects that belong to modules and classes"""
    return {k: o for k, o in c.st.heap.items() if o.kind in ("inst", "list", "dict", "set", "module", "class") and str(o.origin or "").startswith("global")}


def refs(v):
    if isinstance(v, Phi):
        return (id(v.c), refs(v.a), refs(v.b))
    return v.id if isinstance(v, Ref) else repr(v)


def fields(v, c):
    """gated fields of joined objects of one class"""
    if isinstance(v, Phi):
        a, b = fields(v.a, c), fields(v.b, c)
        if a is None or b is None or set(a) != set(b) or a["__class__"] != b["__class__"]:
            return None
        return {k: a[k] if k == "__class__" else c.it.phi(v.c, a[k], b[k]) for k in a}
    if isinstance(v, Ref):
        o = c.st.heap.get(v.id)
        if o is None:
            return None
        if o.kind == "inst":
            return dict(o.f or {}, __class__=getattr(o.cls, "name", "?"))
        if o.kind == "list" and o.items is not None:
            return dict({i: x for i, x in enumerate(o.items)}, __class__="list%d" % len(o.items))
    return None


def same(a, b, ca, cb, seen=None, deep=False):
    """do two values (in two heaps) denote the same data?"""
    from .. import equal
    seen = set() if seen is None else seen
    if a is b:
        if not isinstance(a, (Ref, Phi, tuple, Bound)):
            return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        if (a.id, b.id) in seen:
            return True
        seen.add((a.id, b.id))
        x, y = ca.st.heap.get(a.id), cb.st.heap.get(b.id)
        if x is y:
            if a.id == b.id and x is not None and x.kind not in ("inst", "list", "dict", "set"):
                return True
        if x is None or y is None or x.kind != y.kind:
            return x is y
        if x.kind == "inst" and x.cls is not y.cls and getattr(x.cls, "name", 0) != getattr(y.cls, "name", 1):
            return False
        fx, fy = x.f or {}, y.f or {}
        for k in fx:
            if k not in fy or not same(fx[k], fy[k], ca, cb, seen, deep):
                return False
        ix, iy = x.items, y.items
        if (ix is None) != (iy is None):
            return False
        if ix is not None:
            if len(ix) != len(iy):
                return False
            return all(same(p, q, ca, cb, seen, deep) for p, q in zip(ix, iy))
        return True
    if isinstance(a, Phi) or isinstance(b, Phi):
        fa, fb = fields(a, ca), fields(b, cb)
        if fa is not None and fb is not None:
            key = (str(refs(a)), str(refs(b)))
            if key in seen:
                return True
            seen.add(key)
            return all(k in fb and same(fa[k], fb[k], ca, cb, seen, deep) for k in fa)
        if isinstance(a, Phi) and isinstance(b, Phi):
            return same(a.a, b.a, ca, cb, seen, deep) and same(a.b, b.b, ca, cb, seen, deep)
        if isinstance(a, Phi):
            return same(a.a, b, ca, cb, seen, deep) and same(a.b, b, ca, cb, seen, deep)
        return same(a, b.a, ca, cb, seen, deep) and same(a, b.b, ca, cb, seen, deep)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(p, q, ca, cb, seen, deep) for p, q in zip(a, b))
    if isinstance(a, D.N) or isinstance(b, D.N):
        from ..report import as_num
        try:
            v = equal.decide([(as_num(a), as_num(b))], nsamples=8, plain=not deep, boundary=deep)
        except Exception:
            return False
        return v.equal is not False
    try:
        return bool(a == b)
    except Exception:
        return False


def guarded(v, new):
    """the new value is the old one except under some condition: a write, however rarely that condition holds"""
    n = 0
    while isinstance(new, D.N) and new.op == "ite" and n < 20:
        kids = [a for a in new.args if isinstance(a, D.N)]
        if len(kids) != 2:
            return False
        if kids[0] is v or kids[1] is v:
            return kids[0] is not kids[1]
        new, n = kids[1], n + 1
    return False


def changes(before, after, ids, strict=False):
    """(object id, field) of fields that existed before and hold other data now"""
    out = []
    for k in ids:
        x, y = before.st.heap.get(k), after.st.heap.get(k)
        if x is None or x is y:
            continue
        if y is None or x.kind != y.kind:
            out.append((k, "?"))
            continue
        for f, v in (x.f or {}).items():
            if str(f).startswith("__"):
                continue
            if y.f is None or f not in y.f:
                out.append((k, f))
            elif not same(v, y.f[f], before, after, deep=True) or (strict and isinstance(v, D.N) and guarded(v, y.f[f])):
                out.append((k, f))
        if x.items is not None:
            if y.items is None or len(x.items) != len(y.items):
                out.append((k, "[]"))
            else:
                for i, (p, q) in enumerate(zip(x.items, y.items)):
                    if not same(p, q, before, after, deep=True):
                        out.append((k, "[%d]" % i))
    return out


# data that belongs to the whole program
SHARED = {
    "openspace.math.constants": "SECONDS_IN_DAY HOURS_IN_DAY MINUTES_IN_DAY MINUTES_IN_HOUR SECONDS_IN_HOUR SECONDS_IN_MINUTE DEGREES_IN_HOUR SEA_LEVEL_G BASE_IN_KILO SECONDS_IN_SIDEREAL_DAY",
    "openspace.math.functions.EccentricAnomaly": "TOLERANCE",
    "openspace.time.Epoch": "MJD_ZERO JULIAN_CENTURY J2000_JULIAN_DATE UTC_TDT_OFFSET",
    "openspace.bodies.celestial.Earth": "C S DEGREE_AND_ORDER MU RADIUS FLATTENING OBLIQUITY_OF_ECLIPTIC USE_GEODETIC_MODEL",
    "openspace.bodies.celestial.Sun": "W_PLUS_W COS_OBLIQUITY SIN_OBLIQUITY MU P AU",
    "openspace.bodies.celestial.Moon": "MU RADIUS",
    "openspace.propagators.relative.Hill": "DEFAULT_STEP_SIZE",
    "openspace.propagators.inertial.RK4": "MAX_STEP",
    "openspace.estimation.filtering.RelativeKalman": "DEFAULT_COVARIANCE DEFAULT_NOISE H HT I",
    "openspace.hardware.constraints.OpticalConstraints": "DEFAULT_SUN_HARD DEFAULT_SUN_SOFT DEFAULT_MOON_LIMIT DEFAULT_EARTH_LIMIT DEFAULT_LIMITING_MAG DEFAULT_RESOLUTION_LIMIT DEFAULT_FRAME_DAMP",
    "openspace.hardware.payloads.Camera": "DEFAULT_WIDE_PIXELS DEFAULT_NARROW_PIXELS DEFAULT_NFOV DEFAULT_WFOV",
    "openspace.bodies.artificial.Spacecraft": "DEFAULT_RADIUS DEFAULT_ALBEDO STEERING_MODES DEFAULT_SLEW_SCALE DEFAULT_POINTING_ACCURACY DEFAULT_MASS DEFAULT_PROP_MASS DEFAULT_M_DOT DEFAULT_ISP",
    "openspace.estimation.iod.Gauss": "NU_TOLERANCE",
}


def shared(c):
    """dotted name -> value of the program-wide data, where it still exists"""
    out = {}
    for o, names in SHARED.items():
        for n in names.split():
            try:
                out["%s.%s" % (o, n)] = c.it.lookup("%s.%s" % (o, n), c.st)
            except Exception:
                pass
    return out


def left_behind(a, b):
    """names of program-wide values that differ between two heaps"""
    out = []
    for k, x in a.heap.items():
        y = b.heap.get(k)
        if y is None or x is y:
            continue
        fx, fy = x.f or {}, y.f or {}
        for f in list(fx) + [f for f in fy if f not in fx]:
            if f not in fx or f not in fy or not identical(fx[f], fy[f]):
                out.append((k, f))
        ix, iy = x.items or [], y.items or []
        if len(ix) != len(iy) or any(not identical(p, q) for p, q in zip(ix, iy)):
            out.append((k, None))
    return out


def identical(p, q):
    if p is q:
        return True
    if isinstance(p, Ref) and isinstance(q, Ref):
        return p.id == q.id
    if isinstance(p, (tuple, list)) and isinstance(q, (tuple, list)):
        return len(p) == len(q) and all(identical(x, y) for x, y in zip(p, q))
    try:
        return type(p) is type(q) and not isinstance(p, (D.N, D.C, Phi)) and bool(p == q)
    except Exception:
        return False


def warm(world):
    """Use the entry points visited so far on other data; the program-wide state they leave becomes the starting point of later cases."""
    it = world.it
    visited = set(it.visited)
    base = it.base
    c = world.case()
    n = 0
    for name, recv, args, role in entries():
        try:
            v = it.lookup(name, c.st)
        except Exception:
            continue
        f = getattr(v, "func", v)
        q = getattr(f, "qual", None)
        if q is None or not (q in visited or (isinstance(v, ClassVal) and q + ".__init__" in visited)):
            continue
        keep = c.st.fork()
        c.st.owned = set()
        try:
            b = Builder(c)
            b.tag = "w.%d." % n
            s = b.make(recv) if recv else None
            vals = [b.make(k) for k in args]
            if s is not None:
                pre = c.fork()
                c.m(s, name.rsplit(".", 1)[1], *vals)
                if role == "query" and isinstance(s, Ref) and kept(pre, c, s):
                    cls = getattr(c.st.heap[s.id].cls, "qual", None)
                    world.keeps.setdefault(cls, []).append((name.rsplit(".", 1)[1], args))
            else:
                c.call(name, *vals)
            # results kept by the identity of an object come back when that object has changed
            ids = keyed(c)
            for i, v in enumerate([s] + vals):
                if isinstance(v, Ref) and v.id in ids:
                    q = (name, recv, args, i)
                    lst = world.keeps.setdefault(getattr(c.st.heap[v.id].cls, "qual", None), [])
                    if q not in lst:
                        lst.append(q)
            trim(c, keep)
            n += 1
        except Exception:
            c.st = keep
    left = left_behind(base, c.st)
    if left:
        labels = []
        for k, f in left:
            o = c.st.heap[k]
            w = str(getattr(o.cls, "name", None) or o.origin or o.kind)
            # a counter may have reached any value
            x, y = (base.heap[k].f or {}).get(f), (o.f or {}).get(f)
            if f is not None and counter(x, y):
                c.st.w(k).f[f] = D.var("count:%s.%s" % (w, f), lo=0, hi=1e6, integer=True)
            labels.append("%s.%s" % (w, f) if f is not None else w)
        st = c.st
        st.owned = set()
        if hasattr(st, "pc"):
            st.pc = base.pc
        it.base = st
        return sorted(set(labels)), n
    return [], n


def trim(c, before, most=2):
    """a program-wide table that every rehearsal adds to keeps a few entries of each form: the later rehearsals did not happen as far as it is concerned"""

    def shape(k):
        if isinstance(k, tuple):
            return tuple(shape(x) for x in k)
        if c.it.symbolic(k):
            return "*"
        if isinstance(k, Ref):
            return "@" + str(getattr(c.st.heap[k.id].cls, "qual", c.st.heap[k.id].kind))
        return repr(k)

    for i, o in list(c.st.heap.items()):
        if o.kind != "dict" or not o.f or not str(o.origin or "").startswith("global") or before.heap.get(i) is o:
            continue
        seen, drop = {}, []
        for k in o.f:
            h = shape(k)
            if "*" not in repr(h) and "@" not in repr(h):
                continue
            seen[h] = seen.get(h, 0) + 1
            if seen[h] > most:
                drop.append(k)
        if drop:
            f = c.st.w(i).f
            for k in drop:
                del f[k]
            # nor did they touch what it holds
            todo, done = list(f.values()), set()
            while todo:
                x = todo.pop()
                if isinstance(x, Phi):
                    todo += [x.a, x.b]
                elif isinstance(x, (tuple, list)):
                    todo += list(x)
                elif isinstance(x, Ref) and x.id not in done and x.id in before.heap:
                    done.add(x.id)
                    y = before.heap[x.id]
                    if c.st.heap[x.id] is not y:
                        c.st.heap[x.id] = y
                        c.st.owned.discard(x.id)
                    todo += list((y.f or {}).values()) + list(y.items or ())


def keyed(c):
    """objects that program-wide dictionaries are keyed by"""
    out = set()

    def go(k):
        if isinstance(k, Ref):
            out.add(k.id)
        elif isinstance(k, tuple):
            for x in k:
                go(x)

    for o in c.st.heap.values():
        if o.kind == "dict" and str(o.origin or "").startswith("global"):
            for k in o.f or ():
                go(k)
    return out


def kept(before, after, s):
    """a query left something behind in the objects it was asked of"""
    for k in before.paths(s, "it"):
        x, y = before.st.heap.get(k), after.st.heap.get(k)
        if x is y or y is None:
            continue
        fx, fy = x.f or {}, y.f or {}
        if set(fx) != set(fy) or any(not identical(fx[f], fy[f]) for f in fx) or len(x.items or ()) != len(y.items or ()):
            return True
    return False


def rehearse(c, s):
    """ask an object about other data before it is given its own, where asking leaves something behind"""
    keeps = c.w.keeps
    o = c.st.heap.get(s.id) if isinstance(s, Ref) else None
    if o is None or o.kind != "inst" or getattr(o.cls, "qual", None) not in keeps:
        return
    todo = keeps[o.cls.qual]
    saved = dict(keeps)
    keeps.clear()
    marks = len(c.it.raises), len(c.it.hazards), len(c.it.loops)
    try:
        for entry in todo:
            back = c.st.fork()
            c.st.owned = set()
            try:
                new = reset(c, s)
                old = [(k, f, c.st.heap[k].f[f]) for k, f, _ in new]
                for k, f, v in new:
                    c.st.w(k).f[f] = v
                b = Builder(c)
                b.tag = "used."
                if len(entry) == 2:
                    c.m(s, entry[0], *[b.make(k) for k in entry[1]])
                else:
                    name, recv, args, i = entry
                    us = [s if i == 0 else b.make(recv) if recv else None] + [s if i == j + 1 else b.make(k) for j, k in enumerate(args)]
                    if recv:
                        c.m(us[0], name.rsplit(".", 1)[1], *us[1:])
                    else:
                        c.call(name, *us[1:])
                for k, f, v in old:
                    c.st.w(k).f[f] = v
            except Exception:
                c.st = back
    finally:
        keeps.update(saved)
        del c.it.raises[marks[0]:]
        del c.it.hazards[marks[1]:]
        del c.it.loops[marks[2]:]


def age(before, c, *roots):
    """Attributes that counted up since `before` may have reached any value: they become unknowns."""
    n = 0
    for k, path in [kp for r in roots for kp in c.paths(r, "it").items()]:
        x, y = before.st.heap.get(k), c.st.heap.get(k)
        if x is None or x is y or not x.f or not y.f:
            continue
        for f, v in list(y.f.items()):
            if f in x.f and f not in DOCUMENTED and counter(x.f[f], v):
                c.st.w(k).f[f] = D.var("count:%s.%s" % (path, f), lo=0, hi=1e6, integer=True)
                n += 1
    return n


DOCUMENTED = set("x y z vx vy vz value m0 m_dot isp step_size sma n epoch".split())


def counter(x, y):
    ok = lambda v: isinstance(v, D.N) and v.op == "const" and v.val == int(v.val) and v.val >= 0
    return ok(x) and ok(y) and y.val > x.val
