"""C15: velocities, course and cross/long rotation agree with the track."""
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'polynomial tracks of every pair of orders 0-10 in latitude and longitude x 9 places x 6 rates x lengths 11-13, 25; '
             'each single position of tracks of 11-40 fixes disturbed or missing; 7 containers; tracks of 86400 and 131073 fixes; all headings in steps of 1 degree x 6 speeds '
             '(2 conventions of input), grid of velocities with exact zeros and missing values; rotation of all 24 directions for headings -720..1080 in steps of 5',
    'thorough': 'lengths 11-60, all places of a 5 degree latitude grid, headings in steps of 0.25',
}
A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)
PLACES = [(0, 0), (10.5, -30), (-45, 120), (60, 179), (-75, -179.5), (89, 5), (-89.5, 0.5), (30, -180), (0.001, 90)]
RATES = [0.1, 0.5, 1, 2, 10, 1 / 60]

SPEEDS = [-300.0, -5.144, -1.0, -0.5, -1e-9, -0.0, 0.0, 1e-9, 0.5, 1.0, 5.144, 300.0, float('nan')]


def groups(tier):
    q = tier == 'quick'
    places = PLACES if q else PLACES + [(la, 37.0) for la in range(-85, 90, 5)]
    lens = (11, 12, 13, 25) if q else range(11, 61)
    yield 'polynomials', (['poly', p, a, b] for p in places for a in range(11) for b in range(11)), 6
    yield 'polynomial lengths', (['len', n] for n in lens), 1
    yield 'day', (['day', n] for n in (86400, 131073)), 1
    yield 'locality', (['loc', n, p] for n in (11, 12, 16, 21, 22, 40) for p in range(n)), 8
    yield 'containers', (['cont', k] for k in range(7)), 1
    yield 'course', (['course', h] for h in range(0, 360)), 20
    yield 'velocity grid', (['grid', i] for i in range(len(SPEEDS))), 1
    yield 'rotation', (['rot', h] for h in range(-720, 1081, 5 if q else 1)), 20
    yield 'together', (['all', p, h] for p in PLACES for h in range(0, 360, 15)), 10


def coef(order, k):
    """alternating coefficients, so that every power up to order is present"""
    return [(-1) ** (i * (i + k) // 2) * (0.3 + 0.1 * ((i * 7 + k) % 5)) for i in range(order + 1)]


def poly(c, x):
    v = 0.0
    for a in reversed(c):
        v = v * x + a
    return v


def dpoly(c, x):
    v = 0.0
    for i in range(len(c) - 1, 0, -1):
        v = v * x + i * c[i]
    return v


def rates(lat, dlat, dlon):
    """m per sample along meridian and parallel (lat deg, d* deg per sample)"""
    s = math.sin(math.radians(lat))
    q = 1 - E2 * s * s
    M = A * (1 - E2) / q ** 1.5
    N = A / math.sqrt(q)
    return M * math.radians(dlat), N * math.cos(math.radians(lat)) * math.radians(dlon)


def track(place, a, b, n, span=20.0):
    ca, cb = coef(a, 1), coef(b, 2)
    h = (n - 1) / 2
    lat, lon, want = [], [], []
    for i in range(n):
        x = (i - h) / span
        la, lo = place[0] + 0.1 * poly(ca, x), place[1] + 0.1 * poly(cb, x)
        lat.append(la)
        lon.append(lo)
        want.append(rates(la, 0.1 * dpoly(ca, x) / span, 0.1 * dpoly(cb, x) / span))
    return lat, lon, want


def judge(ctx, vn, ve, want, freq, what, skip=()):
    n = len(want)
    ctx.check(len(vn) == n and len(ve) == n, '%s: %d/%d velocities for %d fixes', what, len(vn), len(ve), n)
    for i, (a, b) in enumerate(zip(vn, ve)):
        if i < 5 or i >= n - 5 or i in skip:
            ctx.check(a != a and b != b, '%s: velocity at fix %d of %d is (%r, %r), expected missing', what, i, n, a, b)
            continue
        for g, w, nm in ((a, want[i][0] * freq, 'north'), (b, want[i][1] * freq, 'east')):
            ctx.check(abs(g - w) <= 3e-7 * freq + 1e-9 * abs(w), '%s: %s velocity at fix %d of %d is %r, expected %r', what, nm, i, n, g, w)
    ctx.trace()
    ctx.ev(n)


def run(case, ctx):
    import numpy as np
    import pandas as pd
    from shipgrav import nav
    k = case[0]
    if k == 'poly':
        for n in (11, 12, 13, 25):
            lat, lon, want = track(case[1], case[2], case[3], n)
            for r in RATES if n != 12 else [None]:
                kw = {} if r is None else {'freq': r}
                vn, ve = nav.latlon_to_EN(np.array(lon), np.array(lat), **kw)
                judge(ctx, vn, ve, want, r or 1, 'track of orders %d, %d at %s, %s Hz' % (case[2], case[3], case[1], r))
                ctx.state((case, n, r))
                ctx.edge((case[1], case[2]), (case[3], n, r))
        ctx.outcome('order %d' % max(case[2:]))
    elif k == 'len':
        n = case[1]
        for p in PLACES:
            lat, lon, want = track(p, 10, 9, n, 20.0 if n < 30 else 30.0)
            vn, ve = nav.latlon_to_EN(np.array(lon), np.array(lat), 2)
            judge(ctx, vn, ve, want, 2, 'track of %d fixes at %s' % (n, p))
            ctx.state((n, p))
            ctx.edge('len', (n, p))
    elif k == 'day':
        n = case[1]
        i = np.arange(n)
        w = 1 / 400.0
        la, lo = 20 + 1e-5 * i + 0.01 * np.sin(i * w), -120 - 3e-5 * i + 0.02 * np.cos(i * w)
        want = [rates(a, x, y) for a, x, y in zip(la.tolist(), (1e-5 + 0.01 * w * np.cos(i * w)).tolist(), (-3e-5 - 0.02 * w * np.sin(i * w)).tolist())]
        vn, ve = nav.latlon_to_EN(lo, la, 2)
        judge(ctx, vn.tolist(), ve.tolist(), want, 2, 'track of %d fixes' % n)
        hd, v = nav.ENvel_to_course_heading(ve, vn)
        cr, lg = nav.rotate_acceleration_EN_to_cl(hd, ve, vn)
        ok = slice(5, n - 5)
        sp = np.hypot(ve, vn)
        ctx.check(len(hd) == len(v) == len(cr) == len(lg) == n and np.abs(v - sp)[ok].max() < 1e-9 and np.abs(lg - sp)[ok].max() < 1e-7 and
                  np.abs(cr)[ok].max() < 1e-7, 'track of %d fixes: its own velocity is not along its course', n)
        ctx.state(case)
        ctx.edge('day', n)
    elif k == 'loc':
        n, p = case[1], case[2]
        lat, lon, want = track((33, 44), 3, 4, n)
        for bad in ('jump', 'nan'):
            for which in ('lat', 'lon', 'both'):
                la, lo = np.array(lat), np.array(lon)
                for arr, nm in ((la, 'lat'), (lo, 'lon')):
                    if which in (nm, 'both'):
                        arr[p] = np.nan if bad == 'nan' else arr[p] + 3
                vn, ve = nav.latlon_to_EN(lo, la)
                what = '%s %s at %d of %d' % (bad, which, p, n)
                for i in range(n):
                    edge = i < 5 or i >= n - 5
                    if edge:
                        ctx.check(vn[i] != vn[i] and ve[i] != ve[i], '%s: velocity %d not missing', what, i)
                    elif abs(i - p) > 5:
                        for g, w in ((vn[i], want[i][0]), (ve[i], want[i][1])):
                            ctx.check(abs(g - w) <= 3e-7, '%s: velocity %d changed to %r from %r', what, i, g, w)
                ctx.trace()
                ctx.ev(n)
                ctx.state((n, p, bad, which))
                ctx.edge(('loc', n), (p, bad, which))
    elif k == 'cont':
        n = 30
        lat, lon, want = track((-12, 170), 5, 6, n)
        idx = [list(range(n)), list(range(n))[::-1], [i // 2 for i in range(n)], ['r%d' % i for i in range(n)],
               [i * 1.0 for i in range(n)]]
        if case[1] < 5:
            df = pd.DataFrame({'lat': lat, 'lon': lon}, index=idx[case[1]])
            la, lo = df['lat'], df['lon']
        else:
            la, lo = (lat, lon) if case[1] == 5 else (tuple(lat), tuple(lon))
        vn, ve = nav.latlon_to_EN(lo, la)
        judge(ctx, list(np.asarray(vn)), list(np.asarray(ve)), want, 1, 'container %d' % case[1])
        ctx.check([float(x) for x in la] == lat and [float(x) for x in lo] == lon, 'container %d: input changed', case[1])
        ctx.state(('cont', case[1]))
        ctx.edge('cont', case[1])
    elif k == 'course':
        h = case[1]
        steps = [0.0] if ctx.tier == 'quick' else [0, .25, .5, .75]
        hs = np.array([h + s for s in steps for _ in range(6)])
        sp = np.array([0.0, 1e-3, 0.5, 5.144, 10.0, 300.0] * len(steps))
        vn = sp * np.array([math.cos(math.radians(x)) for x in hs])
        ve = sp * np.array([math.sin(math.radians(x)) for x in hs])
        hd, v = nav.ENvel_to_course_heading(ve, vn)
        for i in range(len(sp)):
            ctx.check(abs(v[i] - sp[i]) <= 1e-9, 'course %r: speed %r, expected %r', hs[i], v[i], sp[i])
            if sp[i]:
                d = (hd[i] - hs[i] + 180) % 360 - 180
                ctx.check(abs(d) < 1e-7, 'heading %r, expected %r', hd[i], hs[i])
            ctx.state((float(hs[i]), float(sp[i])))
            ctx.edge('course', (float(hs[i]), float(sp[i])))
        a, b = nav.ENvel_to_course_heading(float(ve[3]), float(vn[3]))
        ctx.check(abs(a - hd[3]) < 1e-9 and abs(b - v[3]) < 1e-9, 'single values at %r', h)
        ctx.trace()
        ctx.ev(len(sp))
        ctx.outcome('quadrant %d' % (h // 90))
    elif k == 'grid':
        e = SPEEDS[case[1]]
        for whole in (True, False):
            ns = SPEEDS if whole else [x for x in SPEEDS if x == x]
            ve, vn = np.full(len(ns), e), np.array(ns)
            hd, v = nav.ENvel_to_course_heading(ve, vn)
            for n, h, s in zip(ns, hd, v):
                what = 'velocities (%r, %r)' % (e, n)
                if e != e or n != n:
                    ctx.check(h != h and s != s, '%s: %r, %r, expected missing', what, h, s)
                    continue
                sp = math.hypot(e, n)
                ctx.check(abs(s - sp) <= 1e-12 * sp, '%s: speed %r', what, s)
                if sp:
                    ctx.check(abs(h) <= 360 and abs(s * math.sin(math.radians(h)) - e) <= 1e-9 * sp and
                              abs(s * math.cos(math.radians(h)) - n) <= 1e-9 * sp, '%s: course %r', what, h)
                ctx.state(('grid', e, n))
                ctx.edge(('grid', e), n)
        ctx.trace()
        ctx.ev(2 * len(SPEEDS))
    elif k == 'rot':
        h = float(case[1])
        s, c = math.sin(math.radians(h)), math.cos(math.radians(h))
        dirs = [math.radians(d) for d in range(0, 360, 15)]
        for amp in (1.0, 25000.0):
            aE, aN = np.array([amp * math.sin(d) for d in dirs]), np.array([amp * math.cos(d) for d in dirs])
            ac, al = nav.rotate_acceleration_EN_to_cl(np.full(len(dirs), h), aE, aN)
            for i in range(len(dirs)):
                ctx.check(abs(al[i] - (aE[i] * s + aN[i] * c)) <= 1e-9 * amp, 'heading %r: long %r for (E, N) = (%r, %r)', h, al[i], aE[i], aN[i])
                ctx.check(abs(ac[i] - (aE[i] * c - aN[i] * s)) <= 1e-9 * amp, 'heading %r: cross %r for (E, N) = (%r, %r)', h, ac[i], aE[i], aN[i])
                ctx.check(abs(math.hypot(ac[i], al[i]) - amp) <= 1e-9 * amp, 'heading %r: magnitude changed', h)
                ctx.state((h, amp, i))
                ctx.edge(('rot', h), (amp, i))
            x, y = nav.rotate_acceleration_EN_to_cl(h, float(aE[5]), float(aN[5]))
            ctx.check(abs(x - ac[5]) <= 1e-9 * amp and abs(y - al[5]) <= 1e-9 * amp, 'heading %r: single values', h)
        ctx.trace()
        ctx.ev(2 * len(dirs))
    else:
        # a straight steady run: speed, course and long/cross components of its own velocity
        p, h = case[1], case[2]
        n, sp = 40, 5.0
        M, N = rates(p[0], 1, 1)
        dla, dlo = sp * math.cos(math.radians(h)) / M, sp * math.sin(math.radians(h)) / N
        lat = np.array([p[0] + (i - 20) * dla for i in range(n)])
        lon = np.array([p[1] + (i - 20) * dlo for i in range(n)])
        vn, ve = nav.latlon_to_EN(lon, lat)
        hd, v = nav.ENvel_to_course_heading(ve, vn)
        ac, al = nav.rotate_acceleration_EN_to_cl(hd, ve, vn)
        for i in range(5, n - 5):
            w = rates(lat[i], dla, dlo)
            ctx.check(abs(vn[i] - w[0]) < 3e-7 and abs(ve[i] - w[1]) < 3e-7, 'run at %s course %d: velocities (%r, %r)', p, h, ve[i], vn[i])
            d = (hd[i] - math.degrees(math.atan2(w[1], w[0])) + 180) % 360 - 180
            ctx.check(abs(d) < 1e-4 and abs(v[i] - math.hypot(*w)) < 1e-6, 'run at %s course %d: %r, %r', p, h, hd[i], v[i])
            ctx.check(abs(al[i] - v[i]) < 1e-6 and abs(ac[i]) < 1e-6, 'run at %s course %d: cross %r long %r', p, h, ac[i], al[i])
        ctx.trace()
        ctx.ev(n)
        ctx.state(case)
        ctx.edge('all', case)
