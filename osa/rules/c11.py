"""Calendar dates, Julian dates and sidereal time agree with the Gregorian calendar and the defining series for every epoch."""
from .. import dag as D
from .. import ref as R

MIN_OBLIGATIONS = 20
T = "openspace.time.Epoch"


def days(y, m):
    """modified Julian date of the first of the month: counting days from 1858-11-17"""
    def leap(k):
        return k % 4 == 0 and (k % 100 != 0 or k % 400 == 0)
    # whole 400-year cycles hold 146097 days
    cyc, rest = divmod(y - 1600, 400)
    n = cyc * 146097
    for k in range(1600, 1600 + rest):
        n += 366 if leap(k) else 365
    ml = [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    n += sum(ml[: m - 1])
    return n - 94553  # 1600-01-01 is MJD -94553


def check(rep):
    w = rep.world
    f = T + ".from_gregorian"
    d = D.var("day", lo=1, hi=31, integer=True)
    h, mi, s = D.var("hour", lo=0, hi=23, integer=True), D.var("minute", lo=0, hi=59, integer=True), D.var("sec", lo=0.0, hi=60.0)
    exp0 = d - 1 + h / 24 + mi / 1440 + s / 86400
    # two whole 400-year cycles, and the turn of every century of four millennia
    years = sorted(set(range(1560, 2401)) | {k + j for k in range(0, 4001, 100) for j in (-1, 0, 1, 4, 82)} - {-1}) if not rep.thorough else list(range(0, 4401))
    with rep.section("calendar", f):
        for m in range(1, 13):
            found, expected = [], []
            for y in years:
                c = w.case()
                ep = c.call(f, D.const(y), D.const(m), d, h, mi, s)
                found.append(c.num(c.get(ep, "value")) - D.const(days(y, m)))
                expected.append(exp0)
            # group by month: 801 years each, whole 400-year cycle twice
            rep.eq("calendar/month-%d(%d..%d)" % (m, years[0], years[-1]), f, found, expected, nsamples=4, tol=1e-13, rel=1e-13)
    with rep.section("calendar-any-day", f):
        # a day number outside the month counts on
        c = w.case()
        dd = D.var("dd", scale=40.0, integer=True)
        ep = c.call(f, D.const(2023), D.const(3), dd, 0, 0, 0)
        rep.eq("calendar/day-counts-on", f, c.num(c.get(ep, "value")), dd - 1 + days(2023, 3))
        rep.rule("calendar/kind", f, c.clsname(ep) == "Epoch", "does not return an epoch")
    t, k = D.var("t", scale=59000.0), D.var("k", scale=3.0)
    c = w.case()
    for nm, args, exp in (("julian_value", (), R.jd(t)), ("julian_centuries_past_j2000", (), R.centuries(t)), ("greenwich_hour_angle", (), R.gha(t))):
        with rep.section(nm, T + "." + nm):
            c = w.case()
            rep.eq(nm, "%s.%s" % (T, nm), c.m(c.epoch(t), nm, *args), exp, tol=1e-9)
    with rep.section("gha-range", T + ".greenwich_hour_angle"):
        c = w.case()
        g = c.m(c.epoch(t), "greenwich_hour_angle")
        rep.cond("greenwich_hour_angle/range", T + ".greenwich_hour_angle", D.c_and(D.cmp_(">=", g, D.const(0)), D.cmp_("<", g, R.TWO_PI)), what="hour angle outside [0, 2 pi)")
        # one day later Greenwich has turned a little more than once
        g2 = c.m(c.m(c.epoch(t), "plus_days", 1), "greenwich_hour_angle")
        turn = D.mod(g2 - g, R.TWO_PI)
        rep.cond("greenwich_hour_angle/rate", T + ".greenwich_hour_angle", D.c_and(D.cmp_(">", turn, R.q("0.01720")), D.cmp_("<", turn, R.q("0.01721"))), what="sidereal rate is not one turn and 0.9856 degrees per day")
    with rep.section("plus_days", T + ".plus_days"):
        c = w.case()
        e = c.epoch(t)
        e2 = c.m(e, "plus_days", k)
        rep.eq("plus_days", T + ".plus_days", c.num(c.get(e2, "value")), t + k)
        rep.eq("plus_days/receiver-unchanged", T + ".plus_days", c.num(c.get(e, "value")), t)
        rep.eq("plus_days/back", T + ".plus_days", c.num(c.get(c.m(e2, "plus_days", -k), "value")), t)
    with rep.section("copy", T + ".copy"):
        c = w.case()
        e = c.epoch(t)
        rep.eq("copy", T + ".copy", c.num(c.get(c.m(e, "copy"), "value")), t)
