"""C17: latitude and free-air corrections follow WGS84 everywhere."""
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'latitudes -90..90 in steps of 0.01 degree; heights -11000..9000 m in steps of 10 m x latitudes in steps of 1 degree, air and water (the flag given in 5 ways); '
             '10 containers, single values; 86400 and 131073 values',
    'thorough': 'latitudes in steps of 0.0005 degree, heights in steps of 1 m x 0.25 degree',
}
# WGS84 (NIMA TR8350.2): axes and normal gravity at equator and pole
A, B, GE, GP = 6378137.0, 6356752.3142, 978032.53359, 983218.49378


def groups(tier):
    q = tier == 'quick'
    yield 'latitudes', (['lat', a, 100 if q else 2000] for a in range(-90, 90)), 5
    yield 'heights', (['fa', la, 10 if q else 1] for la in (range(-90, 91) if q else [x / 4 for x in range(-360, 361)])), 5
    yield 'day', (['day', n] for n in (86400, 131073)), 1
    yield 'containers', (['cont', k, n] for k in range(10) for n in (1, 2, 7)), 3


def somigliana(la):
    c, s = math.cos(math.radians(la)) ** 2, math.sin(math.radians(la)) ** 2
    return (A * GE * c + B * GP * s) / math.sqrt(A * A * c + B * B * s)


def freeair(la, h, water):
    g = (0.22242 if water else 0.3087691) - 0.0004398 * (1 - math.cos(math.radians(2 * la))) / 2
    return h * (7.2125e-8 * h - g)


def run(case, ctx):
    import numpy as np
    import pandas as pd
    from shipgrav import grav
    k = case[0]
    if k == 'lat':
        n = case[2]
        la = [case[1] + i / n for i in range(n + 1)]
        g = grav.wgs_grav(np.array(la))
        gm = grav.wgs_grav(-np.array(la))
        ctx.check(len(g) == len(la), '%d values for %d latitudes', len(g), len(la))
        for i, x in enumerate(la):
            ctx.check(abs(g[i] - somigliana(x)) < 1e-4, 'gravity at %r is %r, WGS84 %r', x, g[i], somigliana(x))
            ctx.check(abs(g[i] - gm[i]) < 1e-6, 'gravity at +-%r differs: %r, %r', x, g[i], gm[i])
            if i:
                ctx.check((g[i] > g[i - 1]) == (x > 0), 'gravity does not grow poleward at %r', x)
            ctx.state(x)
            ctx.edge(('lat', x), 'next')
        ctx.trace()
        ctx.ev(len(la))
        ctx.outcome('latitudes')
    elif k == 'day':
        n = case[1]
        la = -90 + np.arange(n) * (180.0 / (n - 1))
        ht = ((np.arange(n) * 7919) % 20001) - 11000
        g = grav.wgs_grav(la).tolist()
        ctx.check(len(g) == n and all(abs(a - somigliana(b)) < 1e-4 for a, b in zip(g, la.tolist())), 'gravity at %d latitudes', n)
        for w in (False, True):
            for h in (ht, ht.astype(float)):
                f = grav.free_air_second_order(la, h, free_water=w).tolist()
                ctx.check(len(f) == n and all(abs(a - freeair(b, c, w)) < 1e-7 for a, b, c in zip(f, la.tolist(), ht.tolist())), 'free air at %d points', n)
        ctx.trace()
        ctx.ev(n)
        ctx.state(case)
        ctx.edge('day', n)
    elif k == 'fa':
        la, st = case[1], case[2]
        hs = list(range(-11000, 9001, st))
        for water in (False, True):
            got = grav.free_air_second_order(np.full(len(hs), float(la)), np.array(hs, dtype=float), free_water=water)
            for h, g, p in zip(hs, got, [None] + list(got[:-1])):
                ctx.check(abs(g - freeair(la, h, water)) < 1e-8, 'free air at %r, %r m%s is %r, expected %r', la, h, ' in water' if water else '',
                          g, freeair(la, h, water))
                if h == 0:
                    ctx.check(g == 0, 'free air at %r, 0 m is %r', la, g)
                ctx.check(p is None or g < p, 'free air does not fall with height at %r, %r m', la, h)
                ctx.state((la, h))
            ctx.edge(('fa', la), water)
            ctx.trace()
            ctx.ev(len(hs))
        d = grav.free_air_second_order(np.full(len(hs), float(la)), np.array(hs, dtype=float))
        ctx.check(abs(d[0] - freeair(la, hs[0], False)) < 1e-8, 'default is not the correction in air')
        ctx.outcome('heights')
    else:
        n = case[2]
        la = [-61.25 + 17.5 * i for i in range(n)]
        ht = [-3000.5 + 777.25 * i for i in range(n)]
        lab = [list(range(n)), list(range(n))[::-1], [i // 2 for i in range(n)], ['r%d' % i for i in range(n)], [i + .5 for i in range(n)]]
        c = case[1]
        if c < 5:
            df = pd.DataFrame({'la': la, 'ht': ht}, index=lab[c])
            x, y = df['la'], df['ht']
        elif c == 5:
            x, y = list(la), list(ht)
        elif c == 6:
            x, y = np.array(la), list(ht)
        elif c == 7:
            x, y = np.array(la), np.array(ht)
        elif c == 8:
            x, y = pd.Series(la), np.array(ht)
        else:       # single values, and one height for all
            for a, h in zip(la, ht):
                for w in (False, True, 0, 1, None, np.bool_(False), np.bool_(True)):
                    v = grav.free_air_second_order(a, h, free_water=w)
                    ctx.check(abs(v - freeair(a, h, w)) < 1e-8, 'single free air at %r, %r', a, h)
                ctx.check(abs(grav.wgs_grav(a) - somigliana(a)) < 1e-4, 'single gravity at %r', a)
            v = grav.free_air_second_order(np.array(la), ht[0])
            ctx.check(all(abs(p - freeair(a, ht[0], False)) < 1e-8 for p, a in zip(v, la)), 'one height for all')
            ctx.trace()
            ctx.ev(n)
            ctx.state((c, n))
            ctx.edge('cont', (c, n))
            return
        g = list(np.asarray(grav.wgs_grav(x)))
        ctx.check(len(g) == n and all(abs(p - somigliana(a)) < 1e-4 for p, a in zip(g, la)), 'container %d: gravity %s', c, g)
        for w in (False, True):
            f = list(np.asarray(grav.free_air_second_order(x, y, free_water=w)))
            ctx.check(len(f) == n and all(abs(p - freeair(a, h, w)) < 1e-8 for p, a, h in zip(f, la, ht)), 'container %d: free air %s', c, f)
        ctx.check([float(v) for v in x] == la and [float(v) for v in y] == ht, 'container %d: input changed', c)
        ctx.trace()
        ctx.ev(n)
        ctx.state((c, n))
        ctx.edge('cont', (c, n))
        ctx.outcome('container %d' % c)
