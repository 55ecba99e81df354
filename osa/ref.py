"""Reference equations, written as value-number graphs.

The constants and series are those of the literature the package documents (Montenbruck & Gill, Vallado, Clohessy-
Wiltshire, EGM96/GGM degree and order 4), not read from the package.
"""
from __future__ import annotations

from fractions import Fraction as F

from . import dag as D
from .alg import PI

pi = D.const(PI)
TWO_PI = D.const(2 * PI)
MU = D.const(D.lit(398600.4418))
RE = D.const(D.lit(6378.137))
FLAT = D.const(F(1) / F("298.2572235"))
G0 = D.const(D.lit(0.00981))
DAY = 86400
SUN_MU = D.const(D.lit(132712440041.9))
MOON_MU = D.const(D.lit(4902.800305555))
OBLIQ = D.radians(D.lit(23.43929111))
SUN_P = D.const(D.lit(4.56e-06))


def q(s):
    return D.const(F(s))


def arcsec(s):
    return D.radians(D.const(F(str(s)) / 3600))


# ------------------------------------------------------------------ vectors
def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def scale(a, k):
    return [x * k for x in a]


def dot(a, b):
    t = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        t = t + x * y
    return t


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mag(a):
    return D.sqrt(dot(a, a))


def unit(a):
    m = mag(a)
    return [x / m for x in a]


def angle(a, b):
    c = dot(a, b) / (mag(a) * mag(b))
    one = D.const(1)
    c = D.ite(D.cmp_(">", c, one), one, D.ite(D.cmp_("<", c, -one), -one, c))
    return D.fn("acos", c)


# ------------------------------------------------------------------ matrices (lists of rows)
def T(m):
    return [list(r) for r in zip(*m)]


def mv(m, v):
    return [dot(r, v) for r in m]


def mm(a, b):
    bt = T(b)
    return [[dot(r, c) for c in bt] for r in a]


def madd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def msub(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def eye(n):
    return [[D.const(int(i == j)) for j in range(n)] for i in range(n)]


def flat(m):
    return [x for r in m for x in r]


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


def inv3(m):
    d = det3(m)
    c = [cross(m[1], m[2]), cross(m[2], m[0]), cross(m[0], m[1])]
    return [[c[j][i] / d for j in range(3)] for i in range(3)]


def rot(axis, th):
    """active right-handed rotation by th about axis (Rodrigues)"""
    u = unit(axis)
    c, s = D.cos(th), D.sin(th)
    k = [[D.const(0), -u[2], u[1]], [u[2], D.const(0), -u[0]], [-u[1], u[0], D.const(0)]]
    i = eye(3)
    return [[i[a][b] * c + k[a][b] * s + u[a] * u[b] * (1 - c) for b in range(3)] for a in range(3)]


def R1(t):
    """frame rotation about x"""
    c, s, o, l = D.cos(t), D.sin(t), D.const(0), D.const(1)
    return [[l, o, o], [o, c, s], [o, -s, c]]


def R2(t):
    c, s, o, l = D.cos(t), D.sin(t), D.const(0), D.const(1)
    return [[c, o, -s], [o, l, o], [s, o, c]]


def R3(t):
    c, s, o, l = D.cos(t), D.sin(t), D.const(0), D.const(1)
    return [[c, s, o], [-s, c, o], [o, o, l]]


# ------------------------------------------------------------------ angles
def wrap(x):
    """x in (-2pi, 2pi) brought to [0, 2pi)"""
    return D.ite(D.cmp_("<", x, D.const(0)), x + TWO_PI, x)


def clamp(x, lo, hi):
    lo, hi = D.num(lo), D.num(hi)
    return D.ite(D.cmp_(">", x, hi), hi, D.ite(D.cmp_("<", x, lo), lo, x))


# ------------------------------------------------------------------ time and Earth orientation
def jd(t):
    return t + q("2400000.5")


def centuries(t):
    return (jd(t) - 2451545) / 36525


def gha(t):
    u = t - q("69.184") / DAY
    frac = D.mod(u, D.const(1))
    j = (jd(u) - frac - 2451545) / 36525
    deg = q("100.4606184") + q("36000.77004") * j + q("0.000387933") * j * j + q("360.98564724") * frac
    return D.radians(D.mod(deg, D.const(360)))


def obliquity(t):
    c = centuries(t)
    return OBLIQ - arcsec("46.815") * c - arcsec("0.00059") * c * c + arcsec("0.001813") * c * c * c


def nut_angles(t):
    d = jd(t) - 2451545
    a1 = D.radians(q("125") - q("0.05295") * d)
    a2 = D.radians(q("200.9") + q("1.97129") * d)
    dpsi = D.radians(q("-0.0048")) * D.sin(a1) - D.radians(q("0.0004")) * D.sin(a2)
    deps = D.radians(q("0.0026")) * D.cos(a1) + D.radians(q("0.0002")) * D.cos(a2)
    return dpsi, deps


def precession(t):
    c = centuries(t)
    zeta = arcsec("2306.2181") * c + arcsec("0.30188") * c * c + arcsec("0.017998") * c * c * c
    theta = arcsec("2004.3109") * c - arcsec("0.42665") * c * c - arcsec("0.041833") * c * c * c
    z = zeta + arcsec("0.7928") * c * c + arcsec("0.000205") * c * c * c
    return mm(R3(-z), mm(R2(theta), R3(-zeta)))


def nutation(t):
    dpsi, deps = nut_angles(t)
    e = obliquity(t)
    c, s, l = D.cos(e), D.sin(e), D.const(1)
    return [[l, -dpsi * c, -dpsi * s], [dpsi * c, l, -deps], [dpsi * s, deps, l]]


def gast(t):
    dpsi, _ = nut_angles(t)
    return gha(t) + dpsi * D.cos(obliquity(t))


def earth_rotation(t):
    return R3(gast(t))


def sun(t):
    c = centuries(t)
    m = D.radians(q("357.5256") + q("35999.049") * c)
    lam = D.radians(q("282.94")) + m + arcsec("6892") * D.sin(m) + arcsec("72") * D.sin(2 * m)
    r = (q("149.619") - q("2.499") * D.cos(m) - q("0.021") * D.cos(2 * m)) * 1000000
    return [r * D.cos(lam), r * D.sin(lam) * D.cos(OBLIQ), r * D.sin(lam) * D.sin(OBLIQ)]


def moon(t):
    c = centuries(t)
    L0 = D.radians(q("218.31617") + q("481267.88088") * c - q("1.3972") * c)
    l = D.radians(q("134.96292") + q("477198.86753") * c)
    lp = D.radians(q("357.52543") + q("35999.04944") * c)
    f = D.radians(q("93.27283") + q("483202.01873") * c)
    d = D.radians(q("297.85027") + q("445267.11135") * c)
    s = D.sin
    lam = L0
    for k, a in ((22640, l), (769, 2 * l), (-4586, l - 2 * d), (2370, 2 * d), (-668, lp), (-412, 2 * f), (-212, 2 * l - 2 * d),
                 (-206, l + lp - 2 * d), (192, l + 2 * d), (-165, lp - 2 * d), (148, l - lp), (-125, d), (-110, l + lp), (-55, 2 * f - 2 * d)):
        lam = lam + arcsec(k) * s(a)
    beta = arcsec(18520) * s(f + lam - L0 + arcsec(412) * s(2 * f) + arcsec(541) * s(lp))
    for k, a in ((-526, f - 2 * d), (44, l + f - 2 * d), (-31, f - l - 2 * d), (-25, f - 2 * l), (-23, lp + f - 2 * d), (21, f - l), (11, f - lp - 2 * d)):
        beta = beta + arcsec(k) * s(a)
    r = D.const(385000)
    for k, a in ((-20905, l), (-3699, 2 * d - l), (-2956, 2 * d), (-570, 2 * l), (246, 2 * l - 2 * d), (-205, lp - 2 * d), (-171, l + 2 * d), (-152, l + lp - 2 * d)):
        r = r + D.const(k) * D.cos(a)
    v = [r * D.cos(lam) * D.cos(beta), r * D.sin(lam) * D.cos(beta), r * D.sin(beta)]
    return mv(R1(-OBLIQ), v)


# ------------------------------------------------------------------ frames
def ric(r, v):
    rh = unit(r)
    ch = unit(cross(r, v))
    return [rh, cross(ch, rh), ch]


def enz(lon, lat):
    sl, cl, sp, cp = D.sin(lon), D.cos(lon), D.sin(lat), D.cos(lat)
    return [[-sl, cl, D.const(0)], [-sp * cl, -sp * sl, cp], [cp * cl, cp * sl, sp]]


def lla_to_itrf(lat, lon, alt):
    e2 = FLAT * (2 - FLAT)
    n = RE / D.sqrt(1 - e2 * D.sin(lat) * D.sin(lat))
    return [(n + alt) * D.cos(lat) * D.cos(lon), (n + alt) * D.cos(lat) * D.sin(lon), (n * (1 - e2) + alt) * D.sin(lat)]


def gcrf_to_itrf(p, t):
    return mv(earth_rotation(t), mv(nutation(t), mv(precession(t), p)))


def itrf_to_gcrf(p, t):
    return mv(T(precession(t)), mv(T(nutation(t)), mv(T(earth_rotation(t)), p)))


def to_hcw(ro, vo, r, v):
    """curvilinear relative state of (r, v) about the origin orbit"""
    m = ric(ro, vo)
    magt, magi = mag(ro), mag(r)
    vt, p, w = mv(m, vo), mv(m, r), mv(m, v)
    rho = D.sqrt(p[0] * p[0] + p[1] * p[1])
    lam, phi = D.atan2(p[1], p[0]), D.atan2(p[2], rho)
    rdot = dot(p, w) / magi
    lamdot = (p[0] * w[1] - p[1] * w[0]) / (rho * rho)
    phidot = (w[2] - rdot * p[2] / magi) / rho
    return [magi - magt, lam * magt, phi * magt], [rdot - vt[0], magt * (lamdot - vt[1] / magt), magt * phidot]


def from_hcw(ro, vo, x, xd):
    m = ric(ro, vo)
    magt = mag(ro)
    vt = mv(m, vo)
    r = magt + x[0]
    lam, phi = x[1] / magt, x[2] / magt
    rd, ld, pd = xd[0] + vt[0], xd[1] / magt + vt[1] / magt, xd[2] / magt
    cl, sl, cp, sp = D.cos(lam), D.sin(lam), D.cos(phi), D.sin(phi)
    p = [r * cp * cl, r * cp * sl, r * sp]
    w = [rd * cp * cl - r * sp * pd * cl - r * cp * sl * ld, rd * cp * sl - r * sp * pd * sl + r * cp * cl * ld, rd * sp + r * cp * pd]
    mt = T(m)
    return mv(mt, p), mv(mt, w)


def hill(n, t):
    s, c, o, l = D.sin(n * t), D.cos(n * t), D.const(0), D.const(1)
    return [
        [4 - 3 * c, o, o, s / n, 2 * (1 - c) / n, o],
        [6 * (s - n * t), l, o, -2 * (1 - c) / n, (4 * s - 3 * n * t) / n, o],
        [o, o, c, o, o, s / n],
        [3 * n * s, o, o, c, 2 * s, o],
        [-6 * n * (1 - c), o, o, -2 * s, 4 * c - 3, o],
        [o, o, -n * s, o, o, c],
    ]


def spherical(r, ra, dec):
    return [r * D.cos(dec) * D.cos(ra), r * D.cos(dec) * D.sin(ra), r * D.sin(dec)]


def to_spherical(p):
    return mag(p), wrap(D.atan2(p[1], p[0])), D.atan2(p[2], D.sqrt(p[0] * p[0] + p[1] * p[1]))


# ------------------------------------------------------------------ forces
CN = {(2, 0): "-0.000484165143790815", (2, 1): "-2.06615509074176e-10", (2, 2): "2.43938357328313e-06",
      (3, 0): "9.57161207093473e-07", (3, 1): "2.03046201047864e-06", (3, 2): "9.04787894809528e-07", (3, 3): "7.21321757121568e-07",
      (4, 0): "5.39965866638991e-07", (4, 1): "-5.36157389388867e-07", (4, 2): "3.50501623962649e-07", (4, 3): "9.90856766672321e-07", (4, 4): "-1.88519633023033e-07"}
SN = {(2, 1): "1.38441389137979e-09", (2, 2): "-1.40027370385934e-06", (3, 1): "2.48200415856872e-07", (3, 2): "-6.19005475177618e-07", (3, 3): "1.41434926192941e-06",
      (4, 1): "-4.73567346518086e-07", (4, 2): "6.62480026275829e-07", (4, 3): "-2.00956723567452e-07", (4, 4): "3.08803882149194e-07"}


def unnorm(n, m, s):
    from math import factorial
    k = F((1 if m == 0 else 2) * (2 * n + 1) * factorial(n - m), factorial(n + m))
    return q(s) * D.sqrt(D.const(k))


def geopotential(p):
    """gradient of the degree 2..4 potential, Cunningham's recursion in Earth-fixed Cartesian coordinates"""
    from math import factorial
    x, y, z = p
    r2 = dot(p, p)
    a, b, c = x * RE / r2, y * RE / r2, z * RE / r2
    rho = RE * RE / r2
    V, W = {(0, 0): RE / D.sqrt(r2)}, {(0, 0): D.const(0)}
    nmax = 5
    for m in range(0, nmax + 1):
        if m > 0:
            V[m, m] = (2 * m - 1) * (a * V[m - 1, m - 1] - b * W[m - 1, m - 1])
            W[m, m] = (2 * m - 1) * (a * W[m - 1, m - 1] + b * V[m - 1, m - 1])
        if m + 1 <= nmax:
            V[m + 1, m] = (2 * m + 1) * c * V[m, m]
            W[m + 1, m] = (2 * m + 1) * c * W[m, m]
        for n in range(m + 2, nmax + 1):
            V[n, m] = (D.const(F(2 * n - 1, n - m)) * c * V[n - 1, m]) - D.const(F(n + m - 1, n - m)) * rho * V[n - 2, m]
            W[n, m] = (D.const(F(2 * n - 1, n - m)) * c * W[n - 1, m]) - D.const(F(n + m - 1, n - m)) * rho * W[n - 2, m]
    ax = ay = az = D.const(0)
    h = D.const(F(1, 2))
    for n in range(2, 5):
        for m in range(0, n + 1):
            C_ = unnorm(n, m, CN[n, m])
            S_ = unnorm(n, m, SN[n, m]) if m else D.const(0)
            if m == 0:
                ax = ax - C_ * V[n + 1, 1]
                ay = ay - C_ * W[n + 1, 1]
            else:
                k = D.const((n - m + 2) * (n - m + 1))
                ax = ax + h * (-C_ * V[n + 1, m + 1] - S_ * W[n + 1, m + 1] + k * (C_ * V[n + 1, m - 1] + S_ * W[n + 1, m - 1]))
                ay = ay + h * (-C_ * W[n + 1, m + 1] + S_ * V[n + 1, m + 1] + k * (-C_ * W[n + 1, m - 1] + S_ * V[n + 1, m - 1]))
            az = az + D.const(n - m + 1) * (-C_ * V[n + 1, m] - S_ * W[n + 1, m])
    g = MU / (RE * RE)
    return [g * ax, g * ay, g * az]


def third_body(mu, s, r):
    d = sub(s, r)
    dm, sm = mag(d), mag(s)
    return [mu * (u / (dm * dm * dm) - w / (sm * sm * sm)) for u, w in zip(d, s)]


def two_body(r):
    m = mag(r)
    return [-(MU * x / (m * m * m)) for x in r]


def srp(t, r, k):
    u = unit(sub(sun(t), r))
    return [-(SUN_P * k * x / 1000) for x in u]
