"""C30: an argument means the same however it is given: by position, by keyword, left out, as whole or decimal number."""
import itertools
from . import calls
from . import navfmt as nf
from . import gravfmt as gf

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every function: every subset (the two slowest: up to two or all but one) of its optional arguments left out (documented defaults) or given, every number of arguments by position, two bases; the effect of every such subset at two sets of other values against the models of C16-C18 and C21-C23; '
             'every combination of up to three arguments as int, int32 (arrays), numpy and Python numbers; every reader x progress bar on, off, default '
             'x one path as text, list, tuple x one or two files x by position or keyword',
    'thorough': 'as quick with every subset for every function and every combination of number types of up to five arguments',
}
A = calls.A
W = calls.wave


def whole(n, a, f=.37, b=0, ph=0.0):
    return [int(round(v)) for v in W(n, a, f, b, ph)]


TH = [('u', 0.01, 0.03), ('Tm', 1350, 1290), ('time', False, True), ('rhom', 3300, 3250), ('rhow', 1000, 1030), ('a', 3.e-5, 2.5e-5), ('k', 1.e-6, 1.5e-6)]
PL = TH[:1] + [('zL0', 100.e3, 80.e3)] + TH[1:]
ZP = TH[:1] + [('zL0', 100.e3, 80.e3)] + TH[1:3] + [('minz', 0, 300), ('maxz', 100e3, 60e3), ('zsp', 1e2, 700.0)] + TH[3:]
X1, X2 = [1000.0, 30000.0, 250000.0], [500.0, 12000.0, 99000.0]


def table():
    """function -> (module, [required (name, values of the bases)], [optional (name, documented default, another value)])"""
    n = 24
    lon, lat = (A(W(n, .01, .2, 30)), A(W(n, .02, .25, -100))), (A(W(n, .02, .3, -12)), A(W(n, .01, .35, 44)))
    N = 1100
    mon = [('faa_in', (A(W(N, 5, .013)), A(W(N, 4, .019)))), ('vcc_in', (A(W(N, 2, .021)),) * 2), ('ve_in', (A(W(N, 1, .034)),) * 2),
           ('al_in', (A(W(N, 3, .017)),) * 2), ('ax_in', (A(W(N, 2, .045)),) * 2), ('level_in', (A(W(N, 1, .057)), A([0.0] * N)))]
    gap = [float(i + (20 if i >= 60 else 0)) for i in range(N)]
    Z = [W(5, 150, .6 + .1 * j, 3000) for j in range(4)]
    Z2 = [W(5, 90, .4 + .2 * j, 1500) for j in range(4)]
    return {
        'latlon_to_EN': ('nav', [('lon', lon), ('lat', lat)], [('freq', 1, 4)]),
        'ENvel_to_course_heading': ('nav', [('ve', (A(W(9, 5)), A(W(9, 3)))), ('vn', (A(W(9, 4, .5)), A(W(9, 6, .2))))], []),
        'rotate_acceleration_EN_to_cl': ('nav', [('heading', (A(W(9, 180)), A(W(9, 90)))), ('accE', (A(W(9, 2)), A(W(9, 3)))), ('accN', (A(W(9, 1, .9)), A(W(9, 2, .8))))], []),
        'gaussian_filter': ('utils', [('x', (A(W(20, 3)), A(W(20, 2, .8)))), ('fl', (6, 7))], []),
        'decode_dgs_status_bits': ('utils', [('stat', (('B', 3), ('B', 5)))], [('key', 'status', 'word')]),
        'center_diff': ('grav', [('y', (A(W(12, 3)), A(W(12, 2, .9)))), ('n', (1, 2)), ('samp', (1, 2.5))], []),
        'longman_tide_prediction': ('grav', [('lon', (A(W(5, 100)), A(W(5, 90)))), ('lat', (A(W(5, 60)), A(W(5, 50)))), ('times', (('T', 0), ('T', 31)))],
                                    [('alt', 0, 900.0), ('return_components', False, True)]),
        'eotvos_full': ('grav', [('lon', lon), ('lat', lat), ('ht', (A(W(n, 2)), A(W(n, 1, .9, 20)))), ('samp', (1, 5.0))],
                        [('a', 6378137.0, 6371000.0), ('b', 6356752.3142, 6350000.0)]),
        'free_air_second_order': ('grav', [('lat', (A(W(7, 80)), A(W(7, 40)))), ('ht', (A(W(7, 50)), A(W(7, 90))))], [('free_water', False, True)]),
        'wgs_grav': ('grav', [('lat', (A(W(7, 80)), A(W(7, 40))))], []),
        'calc_cross_coupling_coefficients': ('grav', mon, [('times', None, A(gap)), ('samplerate', 1, 7)]),
        'up_vecs': ('grav', [('dt', (1.0, .5)), ('g', (A([980000.0 + i for i in range(10)]),) * 2), ('cacc', (A(W(10, 900)), A(W(10, 300)))),
                             ('lacc', (A(W(10, 700, .6)), A(W(10, 200)))), ('on_off', (A([0, 0, 1, 0, 0, 0, 0, 1, 0, 0]), A([0] * 10))), ('cper', (240, 200.0)),
                             ('cdamp', (.7, .9)), ('lper', (239.5, 100)), ('ldamp', (.71, 1.2))], []),
        'grav1d_padded': ('grav', [('xtopo', (A([500.0 * i for i in range(9)]), A([900.0 * i for i in range(9)]))), ('topo', (A(W(9, 200, .7, -3000)), A(W(9, 300, .5, -2500)))),
                                   ('zlev', (100.0, 0)), ('rho', (1.7, 600))], []),
        'grav2d_folding': ('grav', [('X', (A(list(range(5))),) * 2), ('Y', (A(list(range(4))),) * 2), ('Z', (A(Z), A(Z2))), ('dx', (1.0, 2)), ('dy', (1.5, 3))],
                           [('drho', 0.6, 1.7), ('dz', 6000, 1000.0), ('ifold', True, False), ('npower', 5, 2)]),
        'grav2d_layer_variable_density': ('grav', [('rho', (A([W(4, 100, .3 * (j + 1), 3000) for j in range(3)]), A([W(4, 90, .4 * (j + 1), 2900) for j in range(3)]))),
                                                   ('dx', (1.0, 2)), ('dy', (2.0, 3)), ('z1', (3.0, 1)), ('z2', (9.0, 5))], []),
        'therm_halfspace': ('grav', [('x', (A(X1), A(X2))), ('z', (A([100.0, 2.0e3, 3.0e4, 1.2e5]), A([50.0, 9e3])))], TH),
        'therm_plate': ('grav', [('x', (A(X1), A(X2))), ('z', (A([100.0, 2.0e3, 3.0e4, 1.2e5]), A([50.0, 9e3])))], PL),
        'therm_Z_halfspace': ('grav', [('x', (A(X1), A(X2))), ('T', (600, 900.0))], TH),
        'therm_Z_plate': ('grav', [('x', (A(X1), A(X2))), ('T', (A([600.0, 1000.0]), A([500.0])))], ZP),
        'crustal_thickness_2D': ('grav', [('ur', (A(W(1000, 20, .03)), A(W(1000, 10, .08))))],
                                 [('nx', 1000, 40), ('ny', 1, 25), ('dx', 1.3, 2.5), ('dy', 0, 3.1), ('zdown', 10, 4.0), ('rho', 0.4, 0.5),
                                  ('wlarge', 45, 60), ('wsmall', 25, 20.0), ('back', False, True)]),
    }


_T = None


def tab():
    global _T
    if _T is None:
        _T = table()
    return _T


# whole numbers: function -> [(argument, values)] (arrays and numbers), and the other arguments
def wholes():
    n = 24
    lon, lat = whole(n, 3, .2, 30), whole(n, 4, .3, -12)
    N = 1100
    g = [0 if i % 7 else 3 for i in range(12)]
    Z = [whole(5, 150, .6 + .1 * j, 3000) for j in range(4)]
    return {
        'latlon_to_EN': ('nav', dict(lon=lon, lat=lat, freq=2)),
        'ENvel_to_course_heading': ('nav', dict(ve=whole(9, 200), vn=whole(9, 300, .5))),
        'rotate_acceleration_EN_to_cl': ('nav', dict(heading=whole(9, 180), accE=whole(9, 20), accN=whole(9, 10, .9))),
        'gaussian_filter': ('utils', dict(x=whole(20, 300), fl=6)),
        'center_diff': ('grav', dict(y=whole(12, 20000), n=2, samp=3)),
        'longman_tide_prediction': ('grav', dict(lon=whole(5, 100), lat=whole(5, 60), times=('T', 0), alt=whole(5, 900, .4, 1200))),
        'eotvos_full': ('grav', dict(lon=lon, lat=lat, ht=whole(n, 300, .3, 500), samp=2, a=6371000, b=6350000)),
        'free_air_second_order': ('grav', dict(lat=whole(7, 80), ht=whole(7, 900, .4, 1500))),
        'wgs_grav': ('grav', dict(lat=whole(7, 80))),
        'calc_cross_coupling_coefficients': ('grav', dict(faa_in=whole(N, 900, .013), vcc_in=whole(N, 2000, .021), ve_in=whole(N, 800, .034), al_in=whole(N, 3000, .017),
                                                          ax_in=whole(N, 2000, .045), level_in=whole(N, 900, .057), times=[i + (20 if i > 60 else 0) for i in range(N)], samplerate=2)),
        'up_vecs': ('grav', dict(dt=1, g=[980000 + i for i in range(12)], cacc=whole(12, 900), lacc=whole(12, 700, .6), on_off=g, cper=240, cdamp=1, lper=239, ldamp=2)),
        'grav1d_padded': ('grav', dict(xtopo=[500 * i for i in range(9)], topo=whole(9, 200, .7, -3000), zlev=100, rho=600)),
        'grav2d_folding': ('grav', dict(X=list(range(5)), Y=list(range(4)), Z=Z, dx=1, dy=2, drho=1, dz=1000, npower=3)),
        'grav2d_layer_variable_density': ('grav', dict(rho=[whole(4, 100, .3 * (j + 1), 3000) for j in range(3)], dx=1, dy=2, z1=3, z2=9)),
        'therm_halfspace': ('grav', dict(x=[1, 4, 20, 80], z=[100, 2000, 30000], time=True, Tm=1300, rhom=3200, rhow=1030)),
        'therm_plate': ('grav', dict(x=[1, 4, 20, 80], z=[100, 2000, 30000], zL0=80000, time=True, Tm=1300, rhom=3200, rhow=1030)),
        'therm_halfspace ': ('grav', dict(x=[1000, -4000, 20000], z=[100, 2000, 30000], u=1, Tm=1300)),
        'therm_plate ': ('grav', dict(x=[1000, -4000, 20000], z=[100, 2000, 30000], u=1, zL0=25000)),
        'therm_Z_halfspace': ('grav', dict(x=[1, 4, 20, 80], T=600, time=True, Tm=1300)),
        'therm_Z_plate': ('grav', dict(x=[1, 4, 20, 80], T=[600, 1000], zL0=80000, time=True, Tm=1300, maxz=60000, zsp=500)),
        'crustal_thickness_2D': ('grav', dict(ur=whole(12, 200), nx=4, ny=3, dx=8, dy=9, zdown=5, rho=1, wlarge=50, wsmall=20)),
    }


# numbers that count things have to be whole
COUNTS = ('fl', 'n', 'nx', 'ny', 'npower')
# slow functions: in the quick tier options are left out or given up to two at a time, and the ends of the positions
SLOW = ('crustal_thickness_2D', 'therm_Z_plate')


def groups(tier):
    q = tier == 'quick'
    yield 'calls', (['call', f, b, p] for f in sorted(tab(), key=lambda f: f not in SLOW) for b in range(2) for p in range(len(tab()[f][2]) + 1)), 1
    yield 'numbers', (['num', f, k] for f in wholes() for k in range(6 if q else 10)), 1
    yield 'navigation', (['nav', f] for f in nf.FORMATS), 1
    yield 'meters', (['met', k, s] for k, ss in (('bgm', gf.SCALE), ('rgs', ('Atlantis', 'NBP')), ('lap', gf.LAP_SHIPS), ('raw', ('Revelle', 'Thompson', 'Sikuliaq')))
                     for s in ss), 1
    yield 'effects', (['eff', f, r] for f in ('crustal_thickness_2D', 'therm_Z_plate', 'therm_plate', 'therm_halfspace', 'therm_Z_halfspace', 'grav2d_folding',
                                              'eotvos_full', 'longman_tide_prediction', 'free_air_second_order') for r in range(len(tab()[f][2]) + 1)), 1
    yield 'own functions', (['own', s] for s in list(nf.FORMATS) + ['Titanic']), 1
    yield 'feeds', (['feed', t] for t in ('PASHR', 'HEHDT', 'PHGGA')), 1


def value(v):
    import numpy as np
    import pandas as pd
    if isinstance(v, tuple) and v[0] == 'A':
        return np.array(v[1], dtype=float) if not all(isinstance(x, int) for x in v[1]) else np.array(v[1])
    if isinstance(v, tuple) and v[0] == 'T':
        return calls.stamps(5, v[1])
    if isinstance(v, tuple) and v[0] == 'B':
        return pd.DataFrame({'status': [4660 * (i + 1) % 65536 for i in range(v[1])], 'word': [999 * (i + 3) % 65536 for i in range(v[1])]})
    return v


def func(mod, name):
    import importlib
    return getattr(importlib.import_module('shipgrav.' + mod), name.strip())


def image(f, args, kw):
    try:
        return calls.freeze(f(*args, **kw))
    except Exception as e:
        if type(e).__name__ == 'HarnessHang':
            raise
        return ('raised', type(e).__name__ + ': ' + str(e)[:120])


def call(case, ctx):
    _, name, base, r = case
    mod, req, opt = tab()[name]
    f = func(mod, name)
    rq = [(n, v[base]) for n, v in req]
    ref = {}

    def full(given):
        """every argument by keyword, options at the other value where given"""
        if given not in ref:
            kw = {n: value(v) for n, v in rq}
            kw.update({n: value(o if i in given else d) for i, (n, d, o) in enumerate(opt)})
            ref[given] = image(f, (), kw)
        return ref[given]
    k = len(opt)
    names = [n for n, _ in rq] + [n for n, _, _ in opt]
    slow = name in SLOW and ctx.tier == 'quick'
    if not (slow and 2 < r < k - 1):
        for given in itertools.combinations(range(k), r):
            given = frozenset(given)
            want = full(given)
            for pos in range(len(names) + 1):
                if slow and 1 < r < k and pos not in (0, len(rq), len(rq) + min(given), len(names)):
                    continue
                args, kw = [], {}
                for i, n in enumerate(names):
                    j = i - len(rq)
                    v = rq[i][1] if j < 0 else opt[j][2] if j in given else opt[j][1]
                    if i < pos:
                        args.append(value(v))
                    elif j < 0 or j in given:
                        kw[n] = value(v)
                got = image(f, args, kw)
                d = calls.differ(got, want)
                ctx.check(d is None, '%s with %d arguments by position, %s by keyword: %s', name, pos, sorted(kw), d)
                ctx.state((name, base, sorted(given), pos))
                ctx.edge((name, base, sorted(given)), pos)
                ctx.ev(1)
            ctx.trace()
    ctx.outcome(name)
    ctx.check(full(frozenset())[0] != 'raised', '%s with its defaults: %s', name, full(frozenset()))


# a second other value of every option
OTHER = {'alt': -40.0, 'return_components': True, 'a': 6378137.5, 'b': 6378000.0, 'free_water': True, 'drho': 2.67, 'dz': 2500, 'ifold': False, 'npower': 3, 'u': 0.05, 'Tm': 1400.0,
         'time': True, 'rhom': 3200.0, 'rhow': 0, 'k': 8e-7, 'zL0': 120.e3, 'minz': 150.0, 'maxz': 90e3, 'zsp': 450, 'dx': 1.9, 'dy': 2.2, 'zdown': 7, 'rho': 0.35,
         'wlarge': 52.5, 'wsmall': 17, 'back': True}
THERM = {'a': 3.3e-5}


def effects(case, ctx):
    """options given in every combination all take effect: the models of C16-C18 and C21-C23 with those options"""
    import numpy as np
    _, name, r = case
    mod, req, opt = tab()[name]
    f = func(mod, name)
    for given in itertools.combinations(range(len(opt)), r):
        if ctx.tier == 'quick' and name in SLOW and 3 < r < len(opt) - 1:
            continue
        for second in (False, True):
            if second and not r:
                continue
            kw = {}
            for i in given:
                n, d, o = opt[i]
                kw[n] = o if not second else THERM[n] if 'therm' in name and n in THERM else OTHER.get(n, 30)
            q = dict({n: d for n, d, _ in opt}, **kw)
            what = '%s with %s' % (name, kw)
            MODEL[name](ctx, f, kw, q, what)
            ctx.state((name, given, second))
            ctx.edge((name, given), second)
            ctx.ev(1)
    ctx.trace()
    ctx.outcome('effects ' + name)


def close(ctx, got, want, tol, what):
    import numpy as np
    got, want = np.asarray(got), np.asarray(want)
    ctx.check(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    ctx.check(bool(np.isfinite(got).all()) and float(np.abs(got - want).max()) <= tol * max(1e-6, float(np.abs(want).max())), '%s: %s, expected %s',
              what, np.ravel(got)[:5].tolist(), np.ravel(want)[:5].tolist())


def m_therm(ctx, f, kw, q, what):
    import numpy as np
    from . import c22
    x = [0.5, 7.0, 80.0] if q['time'] else [1500.0, -40000.0, 250000.0]
    sec = [v * 1e6 * c22.SEC if q['time'] else abs(v) / q['u'] * c22.SEC for v in x]
    zs = [150.0, 4000.0, 30e3, 85e3, 130e3]
    if 'halfspace' in what and 'Z_' not in what:
        T, W = f(np.array(x), np.array(zs), **kw)
        close(ctx, T, [[c22.half(t, z, q) for t in sec] for z in zs], 1e-9, what)
        close(ctx, W, [c22.half_w(t, q) for t in sec], 1e-9, what)
    elif 'halfspace' in what:
        Z, W = f(np.array(x), 650.0, **kw)
        close(ctx, Z, [2 * (q['k'] * t) ** .5 * c22.erfc_inv((q['Tm'] - 650.0) / q['Tm']) for t in sec], 1e-7, what)
        close(ctx, W, [c22.half_w(t, q) for t in sec], 1e-9, what)
    elif 'Z_' not in what:
        T, W = f(np.array(x), np.array(zs), **kw)
        close(ctx, T, [[c22.plate(t, z, q) for t in sec] for z in zs], 1e-9, what)
        close(ctx, W, [c22.plate_w(t, q) for t in sec], 1e-9, what)
    else:
        import math
        Z = f(np.array(x), np.array([500.0, 1100.0]), **kw)
        za = q['minz'] + q['zsp'] * np.arange(int(math.ceil((q['maxz'] - q['minz']) / q['zsp'])))
        for j, t in enumerate(sec):
            col = q['Tm'] * (za / q['zL0'] + 2 / math.pi * sum(math.exp(-q['k'] * (n * math.pi / q['zL0']) ** 2 * t) * np.sin(n * math.pi * za / q['zL0']) / n
                                                               for n in range(1, 11)))
            col[za > q['zL0']] = q['Tm']
            for i, T in enumerate((500.0, 1100.0)):
                n = int(round((float(Z[i, j]) - q['minz']) / q['zsp']))
                ctx.check(0 <= n < len(za) and abs(za[n] - Z[i, j]) < 1e-6, '%s: depth %r is not on the grid', what, float(Z[i, j]))
                ctx.check(abs(col[n] - T) <= np.abs(col - T).min() + 1e-7, '%s: isotherm %r at %r put at %r m, where it is %r', what, T, x[j], float(Z[i, j]), float(col[n]))


def m_crust(ctx, f, kw, q, what):
    import numpy as np
    from . import c23
    nx, ny = q['nx'], q['ny']
    u = np.array([20 * np.sin(.03 * i) + 9 * np.cos(.21 * i) for i in range(nx * ny)]).reshape(nx, ny)
    t, g = c23.model(u, q)
    got = f(u.ravel().copy(), **kw)
    if q['back']:
        ctx.check(len(got) == 2, '%s: %d results instead of two', what, len(got))
    pairs = [(got[0], t, c23.shift), (got[1], g, c23.shift)] if q['back'] else [(got, t, c23.reverse)]
    for a, w, order in pairs:       # in place, or in the orders listed as findings of C23
        a, _ = c23.flat(a)
        ctx.check(a.size == w.size, '%s: %d values for %d', what, a.size, w.size)
        s = max(1e-6, float(np.abs(w).max()))
        ctx.check(min(float(np.abs(a - w.ravel()).max()), float(np.abs(a - order(w).ravel()).max())) <= 1e-7 * s, '%s: %s, expected %s (in some order)', what,
                  a[:4].tolist(), w.ravel()[:4].tolist())


def m_fold(ctx, f, kw, q, what):
    import numpy as np
    from . import c21
    Z = np.array([[3000 + 300 * np.sin(.9 * i + j * j) for i in range(6)] for j in range(5)])
    close(ctx, f(np.arange(6), np.arange(5), Z.copy(), 1.2, 0.9, **kw), c21.grid_model(Z, 1.2, 0.9, q['drho'], q['dz'], q['ifold'], q['npower']), 1e-8, what)


def m_eotvos(ctx, f, kw, q, what):
    import numpy as np
    from . import c16
    pts = [(45 + 1e-4 * i + 2e-5 * np.sin(i * i), -60 + 2e-4 * i + 1e-5 * np.cos(i * i), 3 + 2 * np.sin(1.3 * i)) for i in range(12)]
    c = np.array(pts).T
    close(ctx, f(c[1], c[0], c[2], 1.0, **kw), c16.model(pts, 1.0, (q['a'], q['b'])), 1e-7, what)


def m_tide(ctx, f, kw, q, what):
    import numpy as np
    from . import c18
    ts = calls.stamps(5, 700)
    la, lo = [80.0 - 37 * i for i in range(5)], [-170.0 + 80 * i for i in range(5)]
    alt = q['alt']
    w = [c18.tide(c18.bodies(*c18.since(t)), a, b, alt) for t, a, b in zip(ts, la, lo)]
    got = f(np.array(lo), np.array(la), ts, **kw)
    if q['return_components']:
        close(ctx, np.array(got), np.array(w).T, 1e-4, what)
    else:
        close(ctx, got, [x[0] for x in w], 1e-4, what)


def m_fa(ctx, f, kw, q, what):
    import numpy as np
    from . import c17
    la, h = [-80.0, -3.0, 44.0], [-50.0, 0.5, 900.0]
    close(ctx, f(np.array(la), np.array(h), **kw), [c17.freeair(a, b, q['free_water']) for a, b in zip(la, h)], 1e-12, what)


MODEL = {'crustal_thickness_2D': m_crust, 'grav2d_folding': m_fold, 'eotvos_full': m_eotvos, 'longman_tide_prediction': m_tide, 'free_air_second_order': m_fa,
         'therm_halfspace': m_therm, 'therm_plate': m_therm, 'therm_Z_halfspace': m_therm, 'therm_Z_plate': m_therm}


def forms(v, name):
    """ways to give a whole number or an array of them; the first is the plain one"""
    import numpy as np
    if isinstance(v, list):
        return [('float64', np.array(v, dtype=float)), ('int64', np.array(v, dtype=np.int64)), ('int32', np.array(v, dtype=np.int32))]
    if isinstance(v, bool) or not isinstance(v, int):
        return [('as it is', value(v))]
    if name in COUNTS:
        return [('int', v), ('numpy int', np.int64(v))]
    return [('float', float(v)), ('int', v), ('numpy float', np.float64(v)), ('numpy int', np.int64(v))]


def numbers(case, ctx):
    import numpy as np
    _, name, part = case
    mod, kw0 = wholes()[name]
    f = func(mod, name)
    names = list(kw0)
    F = {n: forms(kw0[n], n) for n in names}
    ways = {n: len(F[n]) for n in names}

    def go(pick):
        kw = {n: F[n][pick.get(n, 0)][1] for n in names}
        return image(f, (), {n: v.copy() if isinstance(v, np.ndarray) else v for n, v in kw.items()})
    want = go({})
    ctx.check(want[0] != 'raised', '%s: %s', name, want)
    q = ctx.tier == 'quick'
    deep, parts = (3, 6) if q else (5, 10)
    if name.startswith('calc_cross'):
        deep -= 1
    c = 0
    multi = [n for n in names if ways[n] > 1]
    for r in range(min(deep, len(multi)) + 1):
        for p in itertools.combinations(multi, r):
            for w in itertools.product(*[range(1, ways[n]) for n in p]):
                c += 1
                if c % parts == part:
                    one(ctx, name, F, dict(zip(p, w)), go, want)
    for j in (1, 2, 3):
        one(ctx, name, F, {n: min(j, ways[n] - 1) for n in multi}, go, want)
    ctx.trace()
    ctx.outcome('whole numbers: ' + name)


def one(ctx, name, F, pick, go, want):
    d = calls.differ(go(pick), want, 1e-8)
    ctx.check(d is None, '%s with %s: %s', name, ', '.join('%s as %s' % (n, F[n][j][0]) for n, j in pick.items()), d)
    key = tuple(sorted(pick.items()))
    ctx.state((name, key))
    ctx.edge((name, key[:-1]), key[-1:])
    ctx.ev(1)


def readers(ctx, what, read, paths, first, ship, opts):
    """read(paths..., ship...) by position or keyword, with and without the bar, in a list or not"""
    bars = [{}, {'progressbar': True}, {'progressbar': False}]
    order = ['ship', 'pathlist'] if first == 'ship' else ['fp', 'ship']
    for which in (paths[:1], paths):
        want = None
        shapes = [('list', list(which)), ('tuple', tuple(which))] + ([('text', which[0])] if len(which) == 1 else [])
        for (shape, p), bar in itertools.product(shapes, bars):
            for given in itertools.product((False, True), repeat=len(opts)):
                o = {n: v for (n, v), g in zip(opts, given) if g}
                for pos in range(3):
                    vals = {'ship': ship, 'pathlist': p, 'fp': p}
                    args = [vals[n] for n in order[:pos]]
                    kw = {n: vals[n] for n in order[pos:]}
                    kw.update(o, **bar)
                    im = image(read, args, kw)
                    if want is None:
                        want = im
                        ctx.check(im[0] == 'frame', '%s: %s', what, im)
                    d = calls.differ(im, want)
                    ctx.check(d is None, '%s, %d file(s) as %s, bar %s, %s, %d by position: %s', what, len(which), shape, bar.get('progressbar', 'default'),
                              sorted(o), pos, d)
                    ctx.state((what, len(which), shape, tuple(bar.values()), given, pos))
                    ctx.edge((what, len(which)), (shape, tuple(bar.values()), given, pos))
                    ctx.ev(1)
        ctx.trace()


def run(case, ctx):
    import contextlib
    import io
    import shipgrav.io as sgi
    if case[0] == 'call':
        return call(case, ctx)
    if case[0] == 'num':
        return numbers(case, ctx)
    if case[0] == 'eff':
        return effects(case, ctx)
    with contextlib.redirect_stderr(io.StringIO()):
        if case[0] == 'nav':
            f = case[1]
            ps = [ctx.write('a%d.gps' % i, calls.nav_text(f, i)) for i in range(2)]
            ship, tk = nf.FORMATS[f][0], nf.override(f)
            opts = [('decimate', 0), ('sampling', 1), ('ship_function', None)] + ([] if tk else [('talker', None)])

            def read(*a, **k):
                if tk:
                    k['talker'] = tk
                return sgi.read_nav(*a, **k)
            for dec in (0, 3):
                readers(ctx, 'navigation of %s decimated by %d' % (f, dec), lambda *a, **k: read(*a, **dict(k, decimate=dec)) if dec else read(*a, **k), ps, 'ship',
                        ship, opts[not not dec:])
            names = ['ship', 'pathlist', 'sampling', 'talker', 'ship_function', 'decimate', 'progressbar']
            for dec in (0, 2):
                everything(ctx, 'navigation of ' + f, sgi.read_nav, names, [ship, ps, 1, tk, None, dec, False])
        elif case[0] == 'own':
            own(ctx, nf.FORMATS[case[1]][0] if case[1] in nf.FORMATS else case[1])
        elif case[0] == 'met':
            _, k, s = case
            ps = [ctx.write('m%d.txt' % i, calls.rec_text(k, s, i)) for i in range(2)]
            read, opts, rest = {'bgm': (sgi.read_bgm_raw, [('scale', gf.SCALE.get(s)), ('ship_function', None)], [('scale', 4.5), ('ship_function', None)]),
                                'rgs': (sgi.read_bgm_rgs, [], []),
                                'lap': (sgi.read_dgs_laptop, [('ship_function', None)], [('ship_function', None)]),
                                'raw': (sgi.read_dgs_raw, [('scale_ccp', True)], [('scale_ccp', False)])}[k]
            readers(ctx, '%s file of %s' % (k, s), read, ps, 'fp', s, opts)
            if k == 'bgm':
                for sc, bar, which in itertools.product((None, 4.5, 5, 5.1, 1e-3), (None, True, False), (ps[0], ps, tuple(ps))):
                    df = read(which, s, **{n: v for n, v in (('scale', sc), ('progressbar', bar)) if v is not None})
                    w = gf.SCALE[s] if sc is None else sc
                    ctx.check(not nf.is_refusal(df) and bool((abs(df['rgrav'] - w * df['counts']) <= 1e-9 * abs(df['rgrav'])).all()),
                              'scale %s for %s (bar %s): readings are not counts times %s', sc, s, bar, w)
                    ctx.state(('scale', s, sc, bar, len(which)))
            everything(ctx, '%s file of %s' % (k, s), read, ['fp', 'ship'] + [n for n, _ in rest] + ['progressbar'], [ps, s] + [v for _, v in rest] + [False])
        else:
            from . import c10
            t = case[1]
            y, p = ctx.write('f.yaml', c10.YAML), ctx.write('f.txt', calls.other_text(1))
            everything(ctx, 'feed ' + t, sgi.read_other_stuff, ['yaml_file', 'data_file', 'tag'], [y, p, t])
            d = calls.differ(image(sgi.read_other_stuff, [y, p, '$' + t], {}), image(sgi.read_other_stuff, [y, p, t], {}))
            ctx.check(d is None, 'feed $%s: %s', t, d)
    ctx.trace()
    ctx.outcome(case[0])


def own(ctx, ship):
    """a user's reading function with every combination of the other arguments"""
    import numpy as np
    import shipgrav.io as sgi
    ps = [ctx.write('o%d.txt' % i, 'file %d\n' % i) for i in range(2)]

    def nav(lines, talker):
        n = int(lines[0].split()[1])
        return np.array([n + talker_no(talker) + .1 * i for i in range(7)]), np.array([-n - .05 * i for i in range(7)]), calls.stamps(7, 40 * n)

    def talker_no(t):
        seen.add(t)
        return 5.0 if t == 'MINE' else 9.0
    for which, tk, dec, bar, pos in itertools.product((ps[:1], ps), (None, 'MINE'), (None, 0, 1, 2, 5), (None, True, False), (0, 1, 2, 7)):
        if tk is None and ship == 'Titanic':
            continue
        seen = set()
        kw = {n: v for n, v in (('talker', tk), ('decimate', dec), ('progressbar', bar)) if v is not None}
        if pos == 7:
            df = sgi.read_nav(ship, which, 1, tk, nav, dec or 0, bar or False)
        else:
            args = [ship, which][:pos]
            df = sgi.read_nav(*args, ship_function=nav, **dict({'ship': ship, 'pathlist': which} if pos == 0 else {'pathlist': which} if pos == 1 else {}, **kw))
        step = dec or 1
        want = [(n + (5.0 if tk else 9.0) + .1 * i, -n - .05 * i, calls.stamps(7, 40 * n)[i].timestamp()) for n in range(len(which)) for i in range(0, 7, step)]
        what = 'own function for %s with %s, %d by position, %d file(s)' % (ship, kw, pos, len(which))
        ctx.check(not nf.is_refusal(df), '%s: refused', what)
        got = [tuple(r) for r in df[['lon', 'lat', 'time_sec']].values.tolist()]
        ctx.check(len(got) == len(want) and all(abs(a - b) < 1e-6 for g, w in zip(got, sorted(want, key=lambda w: w[2])) for a, b in zip(g, w)),
                  '%s: %s instead of %s', what, got, want)
        ctx.state(('own', ship, tk, dec, bar, pos, len(which)))
        ctx.edge(('own', ship, tk, dec), (bar, pos, len(which)))
        ctx.ev(1)


def everything(ctx, what, f, names, args):
    """all arguments, every number of them by position"""
    want = image(f, (), dict(zip(names, args)))
    ctx.check(want[0] != 'raised', '%s: %s', what, want)
    for n in range(len(args) + 1):
        d = calls.differ(image(f, args[:n], dict(zip(names[n:], args[n:]))), want)
        ctx.check(d is None, '%s, %d arguments by position: %s', what, n, d)
        ctx.state((what, 'all', n))
        ctx.edge((what, 'all'), n)
        ctx.ev(1)
