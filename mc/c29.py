"""C29: profiles and grids through the documented mantle Bouguer workflow to crustal thickness."""
import math
from . import c21, c22, c23

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'profiles of 40, 64 and 101 points x 6 sea floors x 3 sediment covers x 4 places of the ridge axis x cooling by age, by distance and as a plate, '
             'with every harmonic of crustal thickness in turn; grids of 6-12 x 6-12 points (3 shapes) x 4 sea floors x folded or not x 3 age patterns, '
             'with every pair of harmonics up to the fourth',
    'thorough': 'profiles of 40 to 200 points (6 lengths), 3 spacings, 7 places of the axis; grids up to 16 x 20 (7 shapes)',
}
G, TM, A = 6.673e-11, 1350.0, 3e-5
TEMPS = [50.0 * i for i in range(28)]
RHOM = 3300.0
COVER = ('none', 'even', 'wedge')
COOL = ('age', 'distance', 'plate')
CRUST = 6000.0


def groups(tier):
    q = tier == 'quick'
    yield 'profiles', (['line', n, dx, r, s, x0, c] for n in ((40, 64, 101) if q else (40, 57, 64, 101, 128, 200)) for dx in ((1500.0,) if q else (700.0, 1500.0, 4000.0))
                       for r in range(6) for s in range(3) for x0 in ((0, 1, 2, 3) if q else range(7)) for c in range(3)), 6
    yield 'grids', (['grid', ny, nx, r, f, a] for ny, nx in (((6, 9), (12, 8), (9, 9)) if q else ((6, 9), (12, 8), (9, 9), (16, 20), (20, 16), (7, 13), (15, 6)))
                    for r in range(4) for f in (True, False) for a in range(3)), 2


def axis_of(k, n, dx):
    """where the ridge axis is along the profile (m)"""
    L = (n - 1) * dx
    return (-0.4 * L, 0.0, 0.37 * L, L, 0.5 * L, 1.2 * L, 0.81 * L)[k]


def densities():
    """water, sediment, crust and the mantle between isotherms; what changes at each interface"""
    rho = [1000.0, 2100.0, 2900.0] + [RHOM * (1 - A * (T - TM)) for T in TEMPS]
    return rho, [b - a for a, b in zip(rho, rho[1:])]


def depth_of(T, ages, how):
    """depth of an isotherm below the sea floor at each age (Myr)"""
    import numpy as np
    q = c22.DEF
    if how != 'plate':
        e = c22.erfc_inv((q['Tm'] - T) / q['Tm'])
        return [2 * math.sqrt(q['k'] * a * 1e6 * c22.SEC) * e for a in ages]
    zs = np.arange(1000) * 100.0
    out = []
    for a in ages:
        t = a * 1e6 * c22.SEC
        col = q['Tm'] * (zs / q['zL0'] + 2 / math.pi * sum(
            math.exp(-q['k'] * (n * math.pi / q['zL0']) ** 2 * t) * np.sin(n * math.pi * zs / q['zL0']) / n for n in range(1, 11)))
        out.append(float(zs[np.argmin(np.abs(col - T))]))
    return out


def passed(k, q):
    lo, hi = 2 * math.pi / q['wlarge'], 2 * math.pi / q['wsmall']
    return 1.0 if k <= lo else 0.0 if k > hi else 0.5 * (1 + math.cos(math.pi * (k - lo) / (hi - lo)))


def right(ctx, got, want, tol, what):
    """at the input points, or in one of the orders that C23 lists as findings"""
    import numpy as np
    g, _ = c23.flat(got)
    ctx.check(g.size == want.size and np.isfinite(g).all(), '%s: %d values of %d, or not finite', what, g.size, want.size)
    e = [float(np.abs(g - w.ravel()).max()) for w in (want, c23.reverse(want), c23.shift(want))]
    ctx.check(min(e) <= tol, '%s: off by %g of %g: %s, expected %s', what, e[0], float(np.abs(want).max()), g[:4].tolist(), want.ravel()[:4].tolist())


def crust(ctx, rmba, u, h, w, q, what):
    """rmba as calculated, u the part of it that is gravity of the thickness h (km) of which w passes"""
    from shipgrav import grav
    import numpy as np
    nx, ny = h.shape
    kw = dict(q, nx=nx, ny=ny)
    blow = math.exp(2 * math.pi / q['wsmall'] * q['zdown'])      # what the continuation makes of rounding
    tol = 1e-5 + 1e-9 * blow
    right(ctx, grav.crustal_thickness_2D(rmba, **kw), h * w, tol, what)
    t, g = grav.crustal_thickness_2D(rmba, back=True, **kw)
    right(ctx, t, h * w, tol, what + ' (with gravity)')
    right(ctx, g, u * w, 1e-5, what + ', recovered anomaly')
    ctx.trace()
    ctx.ev(2 * h.size)


def line(case, ctx):
    import numpy as np
    from shipgrav import grav
    _, n, dx, r, s, x0, c = case
    how = COOL[c]
    x = [dx * i for i in range(n)]
    dep = c21.relief(n, r) if r != 3 else [v - 5000 for v in c21.relief(n, 3)]
    sed = [[0.0] * n, [250.0] * n, [12.0 * i for i in range(n)]][s]
    ax = axis_of(x0, n, dx)
    ages = [abs(v - ax) / 0.02 / 1e6 for v in x]
    rho, dr = densities()
    what = '%d points, sea floor %d, sediment %s, axis at %g, %s' % (n, r, COVER[s], ax, how)
    # the anomaly of the model
    iso = [depth_of(T, ages, how) for T in TEMPS[:-1]]
    faces = [(dep, dr[0]), ([d - a for d, a in zip(dep, sed)], dr[1]), ([d - a - CRUST for d, a in zip(dep, sed)], dr[2])]
    faces += [([d - a - z - CRUST for d, a, z in zip(dep, sed, zi)], dr[i + 3]) for i, zi in enumerate(iso)]
    parts = [c21.line_model(x, f, 0, d) for f, d in faces]
    base = sum(parts)
    # the workflow
    xo, de, se = np.array(x), np.array(dep), np.array(sed)
    water = grav.grav1d_padded(xo, de, 0, dr[0])
    sediment = grav.grav1d_padded(xo, de - se, 0, dr[1])
    moho = grav.grav1d_padded(xo, de - se - CRUST, 0, dr[2])
    corr = np.zeros((len(TEMPS) - 1, n))
    if how == 'plate':
        Z = grav.therm_Z_plate(np.array(ages), np.array(TEMPS[:-1]), time=True)
    for i in range(len(TEMPS) - 1):
        if how == 'age':
            z, _ = grav.therm_Z_halfspace(np.array(ages), TEMPS[i], time=True, Tm=TM, a=A)
        elif how == 'distance':
            z, _ = grav.therm_Z_halfspace(xo - ax, TEMPS[i], u=0.02, Tm=TM, a=A)
        else:
            z = Z[i, :]
        corr[i, :] = grav.grav1d_padded(xo, de - se - z - CRUST, 0, dr[i + 3])
    tol = 1e-6 + 1e-8 * max(float(np.abs(p).max()) for p in parts)
    q = dict(dx=dx / 1e3, dy=0, zdown=5.0, rho=0.4, wlarge=30.0, wsmall=8.0)
    for m in range(n // 2 + 1):
        k = 2 * math.pi * m / (n * q['dx'])
        ph = (0.0, 0.9, 2.2, 4.0)[m % 4]
        h = np.array([(0.8 if m else 0) * math.cos(2 * math.pi * m * i / n + ph) for i in range(n)])
        if m == 0:
            h = h + 0.3      # an even change of the crust cannot be seen
        u = -2 * math.pi * G * q['rho'] * 1000 * h * 1000 * math.exp(-k * q['zdown']) * 1e5
        if m == 0:
            h = h * 0
        faa = base + u
        rmba = faa - water - sediment - moho - np.sum(corr, axis=0)
        e = float(np.abs(rmba - u).max()) if np.isfinite(rmba).all() else math.inf
        ctx.check(e <= tol, '%s, harmonic %d: residual anomaly off by %g mGal (%s, expected %s)', what, m, e, rmba[:4].tolist(), u[:4].tolist())
        # rounding and series differences of the corrections are no part of the second step
        crust(ctx, rmba - (rmba - u), u.reshape(n, 1), h.reshape(n, 1), passed(k, q) if m else 1.0, q, what + ', harmonic %d' % m)
        ctx.state((case[1:], m))
        ctx.edge(tuple(case[1:]), m)
    ctx.outcome('profile %s' % how)


def grid(case, ctx):
    import numpy as np
    from shipgrav import grav
    _, ny, nx, r, fold, a = case
    dx, dy = 3.0, 4.5
    # depths are positive downwards on grids
    Z = np.array([[[3000 + 400 * math.sin(1.3 * i + 0.7 * j), 4000.0 - 60 * j + 35 * i, 2500 + 900.0 * (i == ny // 2 and j == nx // 3), 3500.0][r]
                   for j in range(nx)] for i in range(ny)])
    age = np.array([[(abs(j * dx - 7) / 20, abs(i * dy - 4) / 15, 0.2 * (i + 1) * (j + 1))[a] for j in range(nx)] for i in range(ny)])
    X, Y = np.arange(nx) * dx, np.arange(ny) * dy
    temps = TEMPS[:-1:3]
    drt = [RHOM * A * 150.0 / 1000] * len(temps)
    what = 'grid %d x %d, sea floor %d, %s, ages %d' % (ny, nx, r, 'folded' if fold else 'not folded', a)
    iso = [np.array(depth_of(T, age.ravel().tolist(), 'age')).reshape(ny, nx) for T in temps]
    parts = [c21.grid_model(Z, dx, dy, 1.9, 0, fold, 5), c21.grid_model(Z, dx, dy, 0.4, CRUST, fold, 5)]
    parts += [c21.grid_model(Z + z, dx, dy, -d, CRUST, fold, 5) for z, d in zip(iso, drt)]
    base = sum(parts)
    water = grav.grav2d_folding(X, Y, Z, dx, dy, drho=1.9, dz=0, ifold=fold)
    moho = grav.grav2d_folding(X, Y, Z, dx, dy, drho=0.4, dz=CRUST, ifold=fold)
    therm = 0
    for T, d in zip(temps, drt):
        z, _ = grav.therm_Z_halfspace(age, T, time=True, Tm=TM, a=A)
        therm = therm + grav.grav2d_folding(X, Y, Z + z, dx, dy, drho=-d, dz=CRUST, ifold=fold)
    tol = 1e-6 + 1e-8 * max(float(np.abs(p).max()) for p in parts)
    q = dict(dx=dx, dy=dy, zdown=6.0, rho=0.4, wlarge=20.0, wsmall=9.5)
    for mx in range(min(5, nx // 2 + 1)):
        for my in range(min(5, ny // 2 + 1)):
            k = math.hypot(2 * math.pi * mx / (nx * dx), 2 * math.pi * my / (ny * dy))
            # a standing wave is a sum of waves of one length
            h = np.array([[0.5 * math.cos(2 * math.pi * mx * j / nx + 0.4 * mx) * math.cos(2 * math.pi * my * i / ny + 1.1 * my) for j in range(nx)] for i in range(ny)])
            u = -2 * math.pi * G * q['rho'] * 1000 * h * 1000 * math.exp(-k * q['zdown']) * 1e5
            if mx == my == 0:
                h = h * 0
            rmba = base + u - water - moho - therm
            e = float(np.abs(rmba - u).max()) if np.isfinite(rmba).all() else math.inf
            ctx.check(e <= tol, '%s, harmonic %d, %d: residual anomaly off by %g mGal', what, mx, my, e)
            crust(ctx, (rmba - (rmba - u)).T.ravel(), u.T, h.T, passed(k, q), q, what + ', harmonic %d, %d' % (mx, my))
            ctx.state((case[1:], mx, my))
            ctx.edge(tuple(case[1:]), (mx, my))
    ctx.outcome('grid folded' if fold else 'grid')


def run(case, ctx):
    return line(case, ctx) if case[0] == 'line' else grid(case, ctx)
