"""C23: crustal thickness is the band-limited downward continuation of the residual."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'lines of 2-60 points with a unit residual at each point (the map is linear) and 3 mixed residuals x 4 parameter sets; grids of '
             '1-9 x 1-9 points with a unit at each point and a mixed one x 3 parameter sets; amplitudes and means of 1e-7 to 1e4 times;  with and without recovered gravity; points 10-500 m apart continued 0-40 km down; refusal of '
             '10 pairs of limits; lines of 4097 and 131073, grids of 257 x 300 and 512 x 64 points',
    'thorough': 'lines up to 200 points, grids up to 16 x 16',
}
K_REV, K_ROLL = 'C23-order-reversed', 'C23-shifted-by-one'
# dx, dy, zdown, rho, wlarge, wsmall  (km, g/cm3)
PAR = [dict(dx=1.3, dy=0, zdown=10, rho=0.4, wlarge=45, wsmall=25), dict(dx=5.0, dy=3.0, zdown=6.5, rho=0.6, wlarge=60.0, wsmall=20.0),
       dict(dx=2.0, dy=2.0, zdown=8.0, rho=0.5, wlarge=9.0, wsmall=1.0), dict(dx=7.7, dy=4.1, zdown=1.0, rho=1.7, wlarge=30.0, wsmall=29.9)]


def groups(tier):
    q = tier == 'quick'
    yield 'lines', (['line', n, p] for n in range(2, 61 if q else 201) for p in range(4)), 4
    N = 10 if q else 17
    yield 'grids', (['grid', nx, ny, p] for nx in range(1, N) for ny in range(1, N) for p in range(1, 4)), 4
    yield 'fine', (['fine', n, m, d, z] for n, m in ((2, 1), (7, 1), (40, 1), (3000, 1), (1, 9), (6, 5), (300, 40)) for d in (0.01, 0.02, 0.1, 0.5)
                   for z in (0.0, 1.0, 10.0, 40.0)), 2
    yield 'refused', (['bad', a, b] for a in (1, 20, 25.0, 45, 60) for b in (20, 25.0, 45, 60)), 5
    yield 'defaults', (['def', n] for n in (1000,)), 1
    yield 'large', (['large', nx, ny] for nx, ny in ((131073, 1), (4097, 1), (257, 300), (512, 64))), 1


def wave(n, d):
    return [2 * math.pi * min(j, n - j) / (n * d) if d else 0.0 for j in range(n)]


def model(u, q):
    """thickness (km) and recovered gravity (mGal) at each point of u[i][j], i along x"""
    import numpy as np
    u = np.asarray(u, dtype=float)
    nx, ny = u.shape
    kx, ky = np.array(wave(nx, q['dx'])), np.array(wave(ny, q['dy']))
    k = np.sqrt(kx[:, None] ** 2 + ky[None, :] ** 2)        # rad/km
    lo, hi = 2 * math.pi / q['wlarge'], 2 * math.pi / q['wsmall']
    w = np.where(k <= lo, 1.0, np.where(k > hi, 0.0, 0.5 * (1 + np.cos(math.pi * (k - lo) / (hi - lo)))))
    m = u.mean()
    S = np.fft.fft2(u - m)
    # mGal -> m/s2 (1e-5); g/cm3 -> kg/m3; result in km
    t = -np.real(np.fft.ifft2(S * w * np.exp(np.where(w > 0, k * q['zdown'], 0.0)))) * 1e-5 / (2 * math.pi * 6.673e-11 * q['rho'] * 1000) / 1000
    g = np.real(np.fft.ifft2(S * w)) + m
    return t, g


def flat(x):
    import numpy as np
    x = np.asarray(x)
    return np.real(x).ravel(), float(np.abs(np.imag(x)).max()) if np.iscomplexobj(x) else 0.0


def fit(ctx, got, want, roll, kid, what, size):
    """got against want at the input points, or in the order of the listed finding"""
    import numpy as np
    g, im = flat(got)
    ctx.check(g.size == want.size, '%s: %d values, expected %d', what, g.size, want.size)
    s = max(1e-6 * size, float(np.abs(want).max()))
    ctx.check(im <= 1e-7 * s, '%s: imaginary part %g of %g', what, im, s)
    ok = np.isfinite(g).all() and float(np.abs(g - want.ravel()).max()) <= 1e-7 * s
    if not ok:
        alt = roll(want).ravel()
        e = float(np.abs(g - alt).max()) if np.isfinite(g).all() else math.inf
        ctx.check(e <= 1e-7 * s, '%s: off by %g of %g (in listed order %g): %s, expected %s', what,
                  float(np.abs(g - want.ravel()).max()), s, e, g[:4].tolist(), want.ravel()[:4].tolist())
        ctx.known_finding(kid, what)
    ctx.trace()
    ctx.ev(int(want.size))


def reverse(x):
    """x[-n] along each axis"""
    import numpy as np
    for ax in range(x.ndim):
        x = np.roll(np.flip(x, ax), 1, ax)
    return x


def shift(x):
    """x[n+1] along each axis"""
    import numpy as np
    return np.roll(x, (-1,) * x.ndim, tuple(range(x.ndim)))


def one(ctx, u, q, what, defaults=False):
    import numpy as np
    from shipgrav import grav
    u = np.asarray(u, dtype=float)
    nx, ny = u.shape
    kw = dict(q, nx=nx, ny=ny)
    if defaults:
        kw = {}
    v = u.ravel().copy()
    t, g = model(u, q)
    size = float(np.abs(u).max()) or 1.0
    fit(ctx, grav.crustal_thickness_2D(v, **kw), t, reverse, K_REV, what, size)
    r = grav.crustal_thickness_2D(v, back=True, **kw)
    fit(ctx, r[0], t, shift, K_ROLL, what + ' (with gravity)', size)
    fit(ctx, r[1], g, shift, K_ROLL, what + ' recovered', size)
    m, x = float(u.mean()), float(flat(r[1])[0].mean())
    # the mean is neither continued nor transformed
    ctx.check(abs(x - m) <= 1e-10 * float(np.abs(u).max()), '%s: recovered gravity has the mean %r, the residual %r', what, x, m)
    ctx.check(v.tolist() == u.ravel().tolist(), '%s: the residual was changed', what)


def run(case, ctx):
    import numpy as np
    from shipgrav import grav
    k = case[0]
    if k == 'bad':
        a, b = case[1], case[2]
        u = np.sin(np.arange(20.0))
        if a <= b:
            for back in (False, True):
                try:
                    grav.crustal_thickness_2D(u, nx=20, wlarge=a, wsmall=b, back=back)
                except Exception:
                    pass
                else:
                    ctx.check(False, 'limits long %s, short %s were accepted', a, b)
                ctx.trace()
            ctx.outcome('refused')
        else:
            grav.crustal_thickness_2D(u, nx=20, wlarge=a, wsmall=b)
            ctx.trace()
            ctx.outcome('accepted')
        ctx.ev()
        ctx.state(case)
        ctx.edge('bad', case)
        return
    if k == 'def':
        n = case[1]
        u = np.array([[3 * math.sin(i / 9) + 2 * math.cos(i / 31) + ((i * 7919) % 13)] for i in range(n)])
        one(ctx, u, PAR[0], 'default line', defaults=True)
        ctx.state(case)
        ctx.edge('def', n)
        return
    if k == 'fine':
        # points so close together that the shortest wavelengths could not be continued downward at all
        nx, ny, d, z = case[1:]
        i, j = np.mgrid[:nx, :ny]
        q = dict(dx=d, dy=d * 1.5 if ny > 1 else 0, zdown=z, rho=.5, wlarge=45.0, wsmall=25.0)
        for u, nm in ((20 * np.sin(i / 7.0) * np.cos(j / 11.0) + 5.0 * ((i * 31 + j * 17) % 13), 'mixed'), (((i + 2 * j) % 3 == 0) * 4.0, 'comb')):
            one(ctx, u, q, '%d x %d points %g km apart, %g km down, %s' % (nx, ny, d, z, nm))
            ctx.state((nx, ny, d, z, nm))
            ctx.edge((nx, ny, d), (z, nm))
        ctx.outcome('fine')
        return
    if k == 'large':
        nx, ny = case[1:]
        i, j = np.mgrid[:nx, :ny]
        one(ctx, 20 * np.sin(i / 7.0) * np.cos(j / 11.0) + 5.0 * ((i * 31 + j * 17) % 13), PAR[1] if ny > 1 else dict(PAR[1], dy=0), '%d x %d points' % (nx, ny))
        ctx.state(case)
        ctx.edge('large', case)
        return
    nx, ny, p = (case[1], 1, case[2]) if k == 'line' else case[1:]
    q = PAR[p] if ny > 1 else dict(PAR[p], dy=0)
    us_ = []
    for i in range(nx * ny):
        u = np.zeros(nx * ny)
        u[i] = 1.0
        us_.append((u, 'unit at %d' % i))
    x = np.arange(nx * ny)
    us_.append((10 * np.sin(1.1 * x * x) - 3, 'mixed'))
    us_.append((np.cos(2 * math.pi * x / (nx * ny)) * 20 + 5, 'wave'))
    us_.append((0.5 * x - 40.0, 'slope'))
    for e in range(-7, 5):
        # next to nothing and nearly everything even
        us_.append((10 * np.sin(1.1 * x * x) + 10.0 ** e, 'mixed about %g' % 10.0 ** e))
        w = 10 * np.cos(2 * math.pi * (x + 0.3) * 2 / (nx * ny))
        us_.append((w - w.mean() - 10.0 ** e, 'wave about -%g' % 10.0 ** e))
        us_.append(((10 * np.sin(1.1 * x * x) - 3) * 10.0 ** e, 'mixed, %g times' % 10.0 ** e))
    for u, nm in us_:
        one(ctx, u.reshape(nx, ny), q, '%d x %d points, parameters %d, %s' % (nx, ny, p, nm))
        ctx.state((nx, ny, p, nm))
        ctx.edge((nx, ny, p), nm)
    ctx.outcome('line' if ny == 1 else 'grid')
