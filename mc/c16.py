"""C16: the Eotvos correction is the full Harlan correction at every sample; numerical derivatives."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every 3-sample window with latitude, longitude and height steps in {-1, 0, +1 unit} before and after (729) at 19 latitudes x '
             '6 rates x 4 ellipsoids x 2 heights; histories of 3-9 samples over 4 moves (every word up to length 6); disturbance of each sample; '
             'rest and steady level motion at 37 latitudes x 24 courses x 4 speeds; derivatives of all quadratics with coefficients '
             'in -3..3 at 8 rates in 8 containers; a day of samples; 16 courses and speeds x 9 latitudes x 4 ellipsoids x 3 rates x 3 motions against '
             'the acceleration in space (differences of positions on the turning ellipsoid, to 0.05 mGal)',
    'thorough': '181 latitudes, histories up to length 10',
}
WE = 0.00007292115
WGS = (6378137.0, 6356752.3142)
ELL = [None, WGS, (6378388.0, 6356911.946), (6371000.0, 6371000.0)]
MOVES = {'E': (0, 1, 0), 'N': (1, 0, 0), 'D': (-1, -1, 2), 'Z': (0, 0, 0)}


def groups(tier):
    q = tier == 'quick'
    lats = range(-90, 91, 10) if q else range(-90, 91)
    yield 'windows', (['win', la, fs, e, h] for la in lats for fs in (1, 0.1, 2, 10, 2.5, 0.3) for e in range(len(ELL)) for h in (0, 1500.0)), 4
    for L in range(2, 7 if q else 11):
        yield 'histories %d' % (L + 1), (['hist', list(p), L] for p in itertools.product('ENDZ', repeat=min(2, L))), 1
    yield 'disturbed', (['dist', n, p] for n in range(3, 13) for p in range(n)), 10
    yield 'steady', (['steady', la, c] for la in range(-90, 91, 5) for c in range(0, 360, 15)), 30
    yield 'motion in space', (['space', la, vn, ve, e] for la in (range(-80, 81, 20) if q else range(-85, 86, 5)) for vn in (0, 6, -5, 40) for ve in (0, 7, -6, 30)
                               for e in range(len(ELL))), 20
    yield 'derivatives', (['diff', a, b] for a in range(-3, 4) for b in range(-3, 4)), 4
    yield 'containers', (['cont', k] for k in range(8)), 1
    yield 'day', (['day', n] for n in (86400, 131073)), 1


def window(p0, p1, p2, fs, ab):
    """vertical: Harlan's acceleration minus the centrifugal term, from three (lat, lon, ht)"""
    a, b = ab or WGS
    f = (a - b) / a
    la, dla, ddla = math.radians(p1[0]), math.radians(p2[0] - p0[0]) * fs / 2, math.radians(p0[0] - 2 * p1[0] + p2[0]) * fs * fs
    dlo = math.radians(p2[1] - p0[1]) * fs / 2
    h, dh, ddh = p1[2], (p2[2] - p0[2]) * fs / 2, (p0[2] - 2 * p1[2] + p2[2]) * fs * fs
    s2, c2 = math.sin(2 * la), math.cos(2 * la)
    sl, cl = math.sin(la), math.cos(la)
    # radius to the ellipsoid below and its rates
    r = a * (1 - f * sl * sl)
    r1 = -a * f * s2 * dla
    r2 = -a * f * (s2 * ddla + 2 * c2 * dla * dla)
    # deviation of the normal
    D = math.atan(f * s2)
    D1 = 2 * f * c2 * dla
    D2 = 2 * f * (c2 * ddla - 2 * s2 * dla * dla)
    sD, cD = math.sin(D), math.cos(D)
    # x (north) and z (down) of the position seen from the centre
    x, z = -r * sD, -r * cD - h
    x1 = -(r1 * sD + r * D1 * cD)
    z2 = -(r2 * cD - 2 * r1 * D1 * sD - r * (D2 * sD + D1 * D1 * cD)) - ddh
    # rotation of the local frame and of the Earth
    wx, wy, wz = (dlo + WE) * cl, -dla, -(dlo + WE) * sl
    ex, ez = WE * cl, -WE * sl
    total = z2 - 2 * wy * x1 + ddla * x + (wx * x + wz * z) * wz - z * (wx * wx + wy * wy + wz * wz)
    earth = (ex * x + ez * z) * ez - z * (ex * ex + ez * ez)
    return (total - earth) * 1e5


def inertial(pts, fs, ab):
    """the same from the motion in space: upward acceleration of a point at rest on the turning ellipsoid less that of the
    vessel, whose place goes through three samples smoothly; derived by differences of positions, without any formula
    for moving frames, in extended precision"""
    import numpy as np
    L = np.longdouble
    a, b = (L(x) for x in ab or WGS)
    e2 = 1 - (b / a) ** 2
    p = np.array(pts, dtype=L)
    la, lo, h = p[:, 0] * (L(4) * np.arctan(L(1)) / 180), p[:, 1] * (L(4) * np.arctan(L(1)) / 180), p[:, 2]
    d = L('0.05') / max(1, L(fs))

    def path(v, s):
        return v[1:-1] + (v[2:] - v[:-2]) * L(fs) / 2 * s + (v[2:] - 2 * v[1:-1] + v[:-2]) * L(fs) ** 2 / 2 * s * s

    def space(la, lo, h, t):
        N = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
        w = lo + L(WE) * t
        return np.array([(N + h) * np.cos(la) * np.cos(w), (N + h) * np.cos(la) * np.sin(w), (N * (1 - e2) + h) * np.sin(la)])
    w5 = (-1, 16, -30, 16, -1)
    moving = sum(w * space(path(la, k * d), path(lo, k * d), path(h, k * d), k * d) for w, k in zip(w5, range(-2, 3))) / (12 * d * d)
    rest = sum(w * space(la[1:-1], lo[1:-1], h[1:-1], k * d) for w, k in zip(w5, range(-2, 3))) / (12 * d * d)
    up = np.array([np.cos(la[1:-1]) * np.cos(lo[1:-1]), np.cos(la[1:-1]) * np.sin(lo[1:-1]), np.sin(la[1:-1])])
    return -((moving - rest) * up).sum(axis=0) * 100000


def model(pts, fs, ab):
    v = [window(pts[i - 1], pts[i], pts[i + 1], fs, ab) for i in range(1, len(pts) - 1)]
    return [v[0]] + v + [v[-1]]


def call(pts, fs, ab, conv=None):
    import numpy as np
    from shipgrav import grav
    cols = [np.array([p[k] for p in pts], dtype=float) for k in range(3)]
    kw = {} if ab is None else {'a': ab[0], 'b': ab[1]}
    return grav.eotvos_full(cols[1], cols[0], cols[2], fs, **kw)


def judge(ctx, got, want, fs, what, skip=()):
    ctx.check(len(got) == len(want), '%s: %d values, expected %d', what, len(got), len(want))
    tol = 2e-6 * max(1, fs * fs)
    for i, (g, w) in enumerate(zip(got, want)):
        if i in skip:
            continue
        ctx.check(abs(g - w) <= tol + 1e-8 * abs(w), '%s: sample %d is %r mGal, expected %r', what, i, g, w)
    ctx.trace()
    ctx.ev(len(want))


def run(case, ctx):
    import numpy as np
    import pandas as pd
    from shipgrav import grav
    k = case[0]
    if k == 'space':
        # Harlan's terms are of first order in the flattening
        _, lat, vn, ve, e = case
        for fs in (1, 0.5, 5):
            for wob, ht in ((0, 0.0), (0, 3000.0), (1, 0.0)):
                n = 24
                pts = []
                for i in range(n):
                    t = i / fs
                    pts.append((lat + math.degrees(vn * t / 6371e3 + wob * 1e-7 * math.sin(t / 5)),
                                179.9 + math.degrees(ve * t / (6371e3 * math.cos(math.radians(lat))) + wob * 1e-7 * math.cos(t / 7)),
                                ht + wob * 0.5 * math.sin(t / 3)))
                got, want = call(pts, fs, ELL[e])[1:-1], inertial(pts, fs, ELL[e]).astype(float)
                for i, (g, w) in enumerate(zip(got, want)):
                    ctx.check(abs(g - w) <= 0.05, 'lat %d, %g m/s north and %g east, %s Hz, ellipsoid %s, wobble %d, height %g: sample %d is %r mGal, '
                              'by the motion in space %r', lat, vn, ve, fs, e, wob, ht, i + 1, g, w)
                ctx.trace()
                ctx.ev(n)
                ctx.state((case, fs, wob, ht))
                ctx.edge(case, (fs, wob, ht))
        ctx.outcome('by the motion in space')
    elif k == 'day':
        n = case[1]
        pts = [(-33 + 4e-5 * i + 2e-6 * math.sin(i * i), 170 + 3e-5 * i, 2 * math.sin(i / 5)) for i in range(n)]
        judge(ctx, call(pts, 1, None).tolist(), model(pts, 1, None), 1, '%d samples' % n)
        ctx.state(case)
        ctx.edge('day', n)
    elif k == 'win':
        _, la, fs, e, h = case
        lo = 179.5 if la % 20 else -60.0
        u, hu = 1e-4 / fs, 0.5 / fs
        steps = list(itertools.product((-1, 0, 1), repeat=2))
        for a, b, c in itertools.product(steps, repeat=3):
            pts = [(la - a[0] * u, lo - b[0] * u, h - c[0] * hu), (la, lo, h), (la + a[1] * u, lo + b[1] * u, h + c[1] * hu)]
            got = call(pts, fs, ELL[e])
            judge(ctx, got, model(pts, fs, ELL[e]), fs, 'window %s at lat %d, %s Hz, ellipsoid %s, height %s' % ((a, b, c), la, fs, ELL[e], h))
            ctx.state((la, fs, e, h, a, b, c))
            ctx.edge((la, fs, e, h, a[0], b[0], c[0]), (a[1], b[1], c[1]))
        ctx.outcome('windows')
    elif k == 'hist':
        pre, L = case[1], case[2]
        for tail in itertools.product('ENDZ', repeat=L - len(pre)):
            w = pre + list(tail)
            p, pts = [35.0, -179.9998, 20.0], [(35.0, -179.9998, 20.0)]
            for i, m in enumerate(w):
                p = [x + d * u for x, d, u in zip(p, MOVES[m], (5e-5, 7e-5, 0.3))]
                pts.append(tuple(p))
                ctx.edge((tuple(w[:i])), m)
                ctx.state(tuple(w[:i + 1]))
            fs = (1, 10, 0.5)[len(w) % 3]
            judge(ctx, call(pts, fs, None), model(pts, fs, None), fs, 'moves %s' % ''.join(w))
        ctx.outcome('%d samples' % (L + 1))
    elif k == 'dist':
        n, p = case[1], case[2]
        base = [(-20 + 6e-5 * i + 1e-7 * i * i, 50 - 4e-5 * i, 0.2 * math.sin(i)) for i in range(n)]
        for c, d in ((0, 1e-4), (1, -2e-4), (2, 3.0), (0, math.nan), (1, math.nan), (2, math.nan)):
            pts = list(base)
            q = list(pts[p])
            q[c] += d
            pts[p] = tuple(q)
            got = call(pts, 1, None)
            ctx.check(len(got) == n, '%d values for %d samples', len(got), n)
            clean = model(base, 1, None)
            want = model(pts, 1, None)
            for i in range(n):
                j = min(max(i, 1), n - 2)
                if abs(j - p) > 1:
                    ctx.check(abs(got[i] - clean[i]) < 1e-4, 'sample %d of %d changed when sample %d did: %r, was %r', i, n, p, got[i], clean[i])
                elif d == d:
                    ctx.check(abs(got[i] - want[i]) < 1e-5 + 1e-8 * abs(want[i]), 'sample %d of %d with sample %d moved: %r, expected %r', i, n, p, got[i], want[i])
            ctx.trace()
            ctx.ev(n)
            ctx.state((n, p, c, repr(d)))
            ctx.edge((n, p), (c, repr(d)))
    elif k == 'steady':
        la, c = case[1], case[2]
        a, f = WGS[0], (WGS[0] - WGS[1]) / WGS[0]
        e2 = f * (2 - f)
        q = 1 - e2 * math.sin(math.radians(la)) ** 2
        N, M = a / math.sqrt(q), a * (1 - e2) / q ** 1.5
        for kn in (0, 2, 10, 20):
            v = kn * 1852 / 3600
            n = 7
            dla = math.degrees(v * math.cos(math.radians(c)) / M)
            if abs(la) == 90 and kn:
                continue
            dlo = 0 if not kn else math.degrees(v * math.sin(math.radians(c)) / (N * math.cos(math.radians(la))))
            pts = [(la + (i - 3) * dla, 10 + (i - 3) * dlo, 0.0) for i in range(n)]
            got = call(pts, 1, None)
            what = '%d kn on course %d at latitude %d' % (kn, c, la)
            judge(ctx, got, model(pts, 1, None), 1, what)
            cls = 7.503 * kn * math.cos(math.radians(la)) * math.sin(math.radians(c)) + 0.004154 * kn * kn
            for g in got:
                if kn == 0:
                    ctx.check(abs(g) < 1e-6, '%s: %r mGal at rest', what, g)
                else:
                    ctx.check(abs(g - cls) < 0.03 + 0.005 * abs(cls), '%s: %r mGal, classical formula %r', what, g, cls)
                if kn and c == 90 and abs(la) < 89:
                    ctx.check(g > 0, '%s: eastward motion gives %r', what, g)
            ctx.state((la, c, kn))
            ctx.edge((la, c), kn)
            if kn and c == 90 and abs(la) < 80:
                west = call([(p[0], -p[1], p[2]) for p in pts], 1, None)
                ctx.check(west[2] < 0 and abs(west[2]) < abs(got[2]), '%s: westward %r, eastward %r', what, west[2], got[2])
        ctx.outcome('steady motion')
    elif k == 'diff':
        a, b = case[1], case[2]
        for c, fs, n in itertools.product(range(-3, 4), (1, 0.1, 2, 10, 0.5, 2.5, 0.3, 1.75), (3, 4, 9)):
            t = [i / fs for i in range(n)]
            y = [a + b * x + c * x * x for x in t]
            for o, want in ((1, [b + 2 * c * x for x in t[1:-1]]), (2, [2.0 * c] * (n - 2))):
                got = grav.center_diff(np.array(y), o, fs)
                ctx.check(len(got) == n - 2, 'derivative %d of %d samples has %d', o, n, len(got))
                s = max(1, max(abs(v) for v in y))
                for g, w in zip(got, want):
                    ctx.check(abs(g - w) <= 1e-13 * s * max(1, fs) ** o * 10, 'derivative %d of %d%+dt%+dt2 at %s Hz is %r, expected %r', o, a, b, c, fs, g, w)
                ctx.trace()
                ctx.ev(n - 2)
            ctx.state((a, b, c, fs, n))
            ctx.edge((a, b, c), (fs, n))
        for bad in (0, 3, -1):
            r = grav.center_diff(np.array([1., 2., 4.]), bad, 1)
            ctx.check(isinstance(r, (int, np.integer)) and r == -999, 'derivative of order %d not refused', bad)
        ctx.outcome('quadratics')
    else:
        n = 12
        pts = [(40 + 5e-5 * i + 2e-6 * (i % 3), -70 + 6e-5 * i, math.sin(i)) for i in range(n)]
        lab = [list(range(n)), list(range(n))[::-1], [i // 2 for i in range(n)], ['r%d' % i for i in range(n)],
               [i * 1.0 + 3 for i in range(n)], [100 - i for i in range(n)]]
        cols = [[p[c] for p in pts] for c in range(3)]
        if case[1] < 6:
            df = pd.DataFrame({'a': cols[0], 'b': cols[1], 'c': cols[2]}, index=lab[case[1]])
            ins = [df['a'], df['b'], df['c']]
        else:
            ins = cols if case[1] == 6 else [tuple(c) for c in cols]
        got = grav.eotvos_full(ins[1], ins[0], ins[2], 1)
        judge(ctx, list(np.asarray(got)), model(pts, 1, None), 1, 'container %d' % case[1])
        for c in range(3):
            ctx.check([float(v) for v in ins[c]] == cols[c], 'container %d: input changed', case[1])
        for o in (1, 2):
            d = grav.center_diff(ins[2], o, 4)
            w = [(cols[2][i + 1] - cols[2][i - 1]) * 2 if o == 1 else (cols[2][i + 1] - 2 * cols[2][i] + cols[2][i - 1]) * 16
                 for i in range(1, n - 1)]
            ctx.check(len(d) == n - 2 and all(abs(x - y) < 1e-12 for x, y in zip(np.asarray(d), w)),
                      'container %d: derivative %d is %s, expected %s', case[1], o, list(d)[:3], w[:3])
        ctx.state(('cont', case[1]))
        ctx.edge('cont', case[1])
        ctx.outcome('container %d' % case[1])
