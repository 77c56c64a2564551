"""C18: tide prediction is Longman's formula at the given instant and place."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every day of 1990-2035 with the hour and minute stepping through all values (and each hour of 60 days, each minute of 2 days) x 63 places '
             'x 4 heights; 8 time zones incl. half hours and daylight saving x 48 half hours around 4 turns of date; 9 containers; 100001 instants; '
             'all pairs of different lengths up to 4; every 3 days of 1990-2035 at 63 places against the attraction of the Moon and the Sun where an independent ephemeris has them',
    'thorough': 'every 3 hours of 1950-2060, 187 places',
}
TZS = [0, 5.5, -8, 12, 13, -3.5, 'America/New_York', 'Pacific/Auckland']


def groups(tier):
    q = tier == 'quick'
    yield 'days', (['days', y, q] for y in (range(1990, 2036) if q else range(1950, 2061))), 1
    yield 'hours', (['hours', d] for d in range(0, 60)), 6
    yield 'minutes', (['minutes', m] for m in range(0, 48)), 6
    yield 'sky', (['sky', y] for y in (range(1990, 2036) if q else range(1950, 2061))), 2
    yield 'time zones', (['tz', z, d] for z in range(len(TZS)) for d in range(4)), 2
    yield 'day', (['day', n] for n in (100001,)), 1
    yield 'containers', (['cont', k] for k in range(9)), 1
    yield 'lengths', (['len', n] for n in itertools.product(range(0, 5), repeat=3) if len(set(n)) > 1), 20


PLACES = [(la, lo) for la in (-90, -66.5, -45, -20, 0, 10.25, 40, 60, 90) for lo in (-180, -120.5, -30, 0, 45, 100, 180)]
MORE = [(la, lo) for la in range(-80, 81, 10) for lo in range(-180, 180, 33)]


def dms(d, m, s):
    return math.radians(d + m / 60 + s / 3600)


def asec(rev, s):
    return rev * 2 * math.pi + math.radians(s / 3600)


def bodies(days, hour):
    """everything that depends on the instant only (Schureman's mean longitudes; Longman's eqs. 7-34)"""
    T = days / 36525.0
    s = dms(270, 26, 14.72) + asec(1336, 1108411.20) * T + asec(0, 9.09) * T * T
    p = dms(334, 19, 40.87) + asec(11, 392515.94) * T - asec(0, 37.24) * T * T - asec(0, 0.045) * T ** 3
    h = dms(279, 41, 48.04) + asec(0, 129602768.13) * T + asec(0, 1.089) * T * T
    N = dms(259, 10, 57.12) - asec(5, 482912.63) * T + asec(0, 7.58) * T * T
    p1 = dms(281, 13, 15.0) + asec(0, 6189.03) * T + asec(0, 1.63) * T * T
    e1 = 0.01675104 - 0.00004180 * T - 0.000000126 * T * T
    i, w, e, m = math.radians(5.145), math.radians(23.452), 0.05490, 0.074804
    I = math.acos(math.cos(w) * math.cos(i) - math.sin(w) * math.sin(i) * math.cos(N))
    nu = math.asin(math.sin(i) * math.sin(N) / math.sin(I))
    al = math.atan2(math.sin(w) * math.sin(N) / math.sin(I), math.cos(N) * math.cos(nu) + math.sin(N) * math.sin(nu) * math.cos(w))
    xi = N - al
    sg = s - xi
    l = (sg + 2 * e * math.sin(s - p) + 1.25 * e * e * math.sin(2 * (s - p)) + 3.75 * m * e * math.sin(s - 2 * h + p)
         + 11 / 8 * m * m * math.sin(2 * (s - h)))
    l1 = h + 2 * e1 * math.sin(h - p1)
    c, c1 = 3.84402e10, 1.495e13
    d = 1 / (1 / c + (e * math.cos(s - p) + e * e * math.cos(2 * (s - p)) + 15 / 8 * m * e * math.cos(s - 2 * h + p)
                      + m * m * math.cos(2 * (s - h))) / (c * (1 - e * e)))
    D = 1 / (1 / c1 + e1 * math.cos(h - p1) / (c1 * (1 - e1 * e1)))
    # directions seen from the centre; x towards the equator's crossing with the orbit
    moon = (math.cos(l), math.sin(l) * math.cos(I), math.sin(l) * math.sin(I))
    sun = (math.cos(l1), math.sin(l1) * math.cos(w), math.sin(l1) * math.sin(w))
    return moon, sun, d, D, math.radians(15 * (hour - 12)) + h, nu


def tide(b, lat, lon, alt):
    moon, sun, d, D, t, nu = b
    mu, M, S = 6.673e-8, 7.3537e25, 1.993e33
    la, t = math.radians(lat), t + math.radians(lon)
    cl, sl = math.cos(la), math.sin(la)
    ct = moon[0] * cl * math.cos(t - nu) + moon[1] * cl * math.sin(t - nu) + moon[2] * sl
    cp = sun[0] * cl * math.cos(t) + sun[1] * cl * math.sin(t) + sun[2] * sl
    r = 6.378270e8 / math.sqrt(1 + 0.006738 * sl * sl) + 100 * alt
    gm = mu * M * r / d ** 3 * (3 * ct * ct - 1) + 1.5 * mu * M * r * r / d ** 4 * (5 * ct ** 3 - 3 * ct)
    gs = mu * S * r / D ** 3 * (3 * cp * cp - 1)
    f = 1e3 * (1 + 0.612 - 1.5 * 0.303)
    return (gm + gs) * f, gm * f, gs * f


def sky(t):
    """Moon and Sun (m, equator of date) and the star angle of Greenwich (deg), from the low-precision series of the
    Astronomical Almanac, which share nothing with Longman's"""
    import datetime as dt
    S, C = (lambda a: math.sin(math.radians(a))), (lambda a: math.cos(math.radians(a)))
    n = (t - dt.datetime(2000, 1, 1, 12, tzinfo=dt.timezone.utc)).total_seconds() / 86400
    T = n / 36525
    a = [135.0 + 477198.87 * T, 259.3 - 413335.36 * T, 235.7 + 890534.22 * T, 269.9 + 954397.74 * T]
    lm = (218.32 + 481267.881 * T + 6.29 * S(a[0]) - 1.27 * S(a[1]) + 0.66 * S(a[2]) + 0.21 * S(a[3])
          - 0.19 * S(357.5 + 35999.05 * T) - 0.11 * S(186.5 + 966404.03 * T))
    bm = (5.13 * S(93.3 + 483202.02 * T) + 0.28 * S(228.2 + 960400.89 * T) - 0.28 * S(318.3 + 6003.15 * T)
          - 0.17 * S(217.6 - 407332.21 * T))
    dm = 6378140 / S(0.9508 + 0.0518 * C(a[0]) + 0.0095 * C(a[1]) + 0.0078 * C(a[2]) + 0.0028 * C(a[3]))
    g = 357.528 + 0.9856003 * n
    ls = 280.46 + 0.9856474 * n + 1.915 * S(g) + 0.02 * S(2 * g)
    ds = (1.00014 - 0.01671 * C(g) - 0.00014 * C(2 * g)) * 1.495978707e11
    e = 23.4393 - 0.013 * T

    def xyz(lon, lat, d):
        y, z = C(lat) * S(lon), S(lat)
        return d * C(lat) * C(lon), d * (C(e) * y - S(e) * z), d * (S(e) * y + C(e) * z)
    return xyz(lm, bm, dm), xyz(ls, 0.0, ds), 280.46062 + 360.98564737 * n


def pull(s, lat, lon, alt):
    """upward attraction (mGal, as gravity loses it, with the earth's yielding) of the Moon and the Sun, less that on the earth"""
    la, th = math.radians(lat), math.radians((s[2] + lon) % 360)
    r = 6378270 / math.sqrt(1 + 0.006738 * math.sin(la) ** 2) + alt
    u = (math.cos(la) * math.cos(th), math.cos(la) * math.sin(th), math.sin(la))
    out = []
    for b, gm in ((s[0], 4.9028e12), (s[1], 1.32712e20)):
        d = [x - r * y for x, y in zip(b, u)]
        q, w = math.hypot(*d) ** 3, math.hypot(*b) ** 3
        out.append(1.1575e5 * gm * sum((x / q - y / w) * z for x, y, z in zip(d, b, u)))
    return out


def since(t):
    """days since 1899-12-31 noon and hour of the day, of a UTC datetime"""
    import datetime as dt
    e = dt.datetime(1899, 12, 31, 12, tzinfo=dt.timezone.utc)
    x = (t - e).total_seconds() / 86400
    return x, t.hour + t.minute / 60 + (t.second + t.microsecond / 1e6) / 3600


def judge(ctx, stamps, utc, lats, lons, alts, what, tol=3e-6):
    """stamps: as given to the code; utc: the instants"""
    import numpy as np
    from shipgrav import grav
    lat, lon, alt = np.array(lats, dtype=float), np.array(lons, dtype=float), np.array(alts, dtype=float)
    g0, gm, gs = grav.longman_tide_prediction(lon, lat, stamps, alt, return_components=True)
    only = grav.longman_tide_prediction(lon, lat, stamps, alt=alt)
    ctx.check(len(g0) == len(gm) == len(gs) == len(only) == len(lats), '%s: %d values for %d', what, len(g0), len(lats))
    for i, u in enumerate(utc):
        w = tide(u if isinstance(u, tuple) else bodies(*since(u)), lats[i], lons[i], alts[i])
        for g, x, nm in ((g0[i], w[0], 'total'), (only[i], w[0], 'total alone'), (gm[i], w[1], 'lunar'), (gs[i], w[2], 'solar')):
            ctx.check(abs(g - x) <= tol, '%s: %s tide at %s, %s is %r mGal, expected %r', what, nm, stamps[i], (lats[i], lons[i], alts[i]), g, x)
        ctx.check(abs(gm[i] + gs[i] - g0[i]) < 1e-12, '%s: parts do not add up', what)
    ctx.trace()
    ctx.ev(len(lats))


def run(case, ctx):
    import datetime as dt
    import numpy as np
    import pandas as pd
    from shipgrav import grav
    U = dt.timezone.utc
    k = case[0]
    if k == 'sky':
        # within the accuracy of both: 3 % of the tides there are
        t0 = dt.datetime(case[1], 1, 1, tzinfo=U)
        st = [t0 + dt.timedelta(days=3 * d, minutes=(d * 187) % 1440) for d in range(121)]
        top = [0.0, 0.0]
        for j, (la, lo) in enumerate(PLACES):
            tt = st[j % 4::4]
            n = len(tt)
            _, gm, gs = grav.longman_tide_prediction(np.full(n, float(lo)), np.full(n, float(la)), tt, np.full(n, 0.0), return_components=True)
            for i, t in enumerate(tt):
                w = pull(sky(t), la, lo, 0.0)
                ctx.check(abs(gm[i] - w[0]) < 0.005, 'Moon at %s, %s: %r mGal, by its place in the sky %r', t, (la, lo), gm[i], w[0])
                ctx.check(abs(gs[i] - w[1]) < 0.001, 'Sun at %s, %s: %r mGal, by its place in the sky %r', t, (la, lo), gs[i], w[1])
                ctx.state(('sky', t.isoformat(), la, lo))
            ctx.trace()
            ctx.ev(2 * n)
            ctx.edge(('sky', case[1]), (la, lo))
        ctx.outcome('by the sky')
    elif k == 'days':
        y, q = case[1], case[2]
        t0 = dt.datetime(y, 1, 1, tzinfo=U)
        st = ([t0 + dt.timedelta(days=d, minutes=(d * 61) % 1440, seconds=d % 60) for d in range(366)] if q else
              [t0 + dt.timedelta(hours=3 * d, minutes=d % 60) for d in range(8 * 366)])
        pl = PLACES if q else MORE
        stamps, utc, la, lo, al = [], [], [], [], []
        for j, t in enumerate(st):
            b = bodies(*since(t))
            for m, (a, o) in enumerate(pl):
                stamps.append(t)
                utc.append(b)
                la.append(a)
                lo.append(o)
                al.append((0, 1500, -12.5, -11000)[(j + m) % 4])
            ctx.state(t)
            ctx.edge(('day', y), j)
        judge(ctx, stamps, utc, la, lo, al, 'year %d' % y)
        # a whole turn further
        judge(ctx, stamps[:500], utc[:500], la[:500], [o + 360 if o <= 0 else o - 360 for o in lo[:500]], al[:500], 'year %d, a turn of longitude on' % y)
        ctx.outcome('days')
    elif k in ('hours', 'minutes'):
        if k == 'hours':
            t0 = dt.datetime(2023, 1, 1, tzinfo=U) + dt.timedelta(days=case[1] * 6.25)
            st = [t0 + dt.timedelta(hours=h) for h in range(25)]
        else:
            t0 = dt.datetime(2024, 2, 28, tzinfo=U) + dt.timedelta(hours=case[1])
            st = [t0 + dt.timedelta(minutes=m, seconds=m % 60) for m in range(60)]
        for n, (a, o) in enumerate(PLACES):
            judge(ctx, st, st, [a] * len(st), [o] * len(st), [n * 10] * len(st), '%s %s' % (k, case[1]))
        for t in st:
            ctx.state(t)
            ctx.edge('clock', t)
        ctx.outcome(k)
    elif k == 'day':
        n = case[1]
        st = [dt.datetime(2022, 12, 30, tzinfo=U) + dt.timedelta(seconds=7 * i) for i in range(n)]
        judge(ctx, st, st, [80 - 160.0 * i / n for i in range(n)], [-180 + 0.1 * (i % 3600) for i in range(n)], [i % 900 - 600 for i in range(n)], '%d instants' % n)
        ctx.state(case)
        ctx.edge('day', n)
    elif k == 'tz':
        z = TZS[case[1]]
        if isinstance(z, str):
            try:
                from zoneinfo import ZoneInfo
                tz = ZoneInfo(z)
            except Exception:
                ctx.outcome('zone data missing')
                return
        else:
            tz = dt.timezone(dt.timedelta(hours=z))
        t0 = [dt.datetime(2023, 12, 31, 12, tzinfo=U), dt.datetime(2024, 2, 28, 12, tzinfo=U),
              dt.datetime(2024, 3, 10, 0, tzinfo=U), dt.datetime(2024, 11, 2, 18, tzinfo=U)][case[2]]
        utc = [t0 + dt.timedelta(minutes=30 * i) for i in range(49)]
        loc = [t.astimezone(tz) for t in utc]
        for stamps, nm in ((loc, 'datetimes'), (np.array(loc, dtype=object), 'array'), (pd.DatetimeIndex(utc).tz_convert(tz), 'index'),
                           (pd.Series(pd.DatetimeIndex(utc).tz_convert(tz)), 'series')):
            judge(ctx, stamps, utc, [34.5] * 49, [-120.25] * 49, [0] * 49, 'zone %s as %s' % (z, nm))
        mix = [loc[i] if i % 2 else utc[i] for i in range(49)]
        judge(ctx, mix, utc, [-4.5] * 49, [12.25] * 49, [0] * 49, 'zone %s mixed with UTC' % z)
        for t in utc:
            ctx.state((z, t))
            ctx.edge(('tz', z), t)
        ctx.outcome('zone %s' % z)
    elif k == 'cont':
        n, c = 9, case[1]
        utc = [dt.datetime(2025, 6, 7, 3 * (i % 7), 4 * i, 5 * i, 0 if i % 2 else 500000, tzinfo=U) for i in range(n)]
        la, lo, al = [10.5 * i - 40 for i in range(n)], [40.0 * i - 160 for i in range(n)], [100.0 * i for i in range(n)]
        lab = [list(range(n))[::-1], [i // 2 for i in range(n)], ['r%d' % i for i in range(n)], [i + .5 for i in range(n)]]
        if c < 4:
            df = pd.DataFrame({'la': la, 'lo': lo, 'al': al, 't': utc}, index=lab[c])
            a, o, h, t = df['la'], df['lo'], df['al'], df['t']
        elif c == 4:
            a, o, h, t = list(la), list(lo), list(al), list(utc)
        elif c == 5:
            a, o, h, t = np.array(la), np.array(lo), np.array(al), np.array(utc)
        elif c == 6:
            a, o, h, t = np.array(la), np.array(lo), 250.0, utc
            al = [250.0] * n
        elif c == 7:
            a, o, h, t = np.array(la), np.array(lo), None, utc
            al = [0] * n
        else:
            a, o, h, t = np.array([int(x) for x in la]), np.array([int(x) for x in lo]), 0, [pd.Timestamp(x) for x in utc]
            la, lo, al = [int(x) for x in la], [int(x) for x in lo], [0] * n
        kw = {} if h is None else {'alt': h}
        g, m, s = grav.longman_tide_prediction(o, a, t, return_components=True, **kw)
        g2 = grav.longman_tide_prediction(o, a, t, **kw)
        g, m, s, g2 = [list(np.asarray(x)) for x in (g, m, s, g2)]
        ctx.check(len(g) == n, 'container %d: %d values', c, len(g))
        for i in range(n):
            w = tide(bodies(*since(utc[i])), la[i], lo[i], al[i])
            ctx.check(max(abs(g[i] - w[0]), abs(g2[i] - w[0]), abs(m[i] - w[1]), abs(s[i] - w[2])) < 5e-5,
                      'container %d: tide %d is %r, expected %r', c, i, (g[i], m[i], s[i]), w)
        ctx.state(('cont', c))
        ctx.edge('cont', c)
        ctx.trace()
        ctx.ev(n)
        ctx.outcome('container %d' % c)
    else:
        n = case[1]
        t = [dt.datetime(2025, 6, 7, i, tzinfo=U) for i in range(n[2])]
        for wrap in (np.array, list):
            try:
                grav.longman_tide_prediction(wrap([1.0 * i for i in range(n[0])]), wrap([1.0 * i for i in range(n[1])]), t)
            except Exception:
                pass
            else:
                ctx.check(False, '%d longitudes, %d latitudes and %d times were accepted', *n)
            ctx.trace()
            ctx.ev()
        ctx.state(('len', n))
        ctx.edge('len', n)
        ctx.outcome('refused')
