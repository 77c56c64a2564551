"""C22: cooling models agree with their formulas, inverses and each other."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '41 ages (0-200 Myr) x 45 depths (0-150 km, plate bottom and below) x 20 parameter sets, as ages, as distances on both sides of the '
             'axis and at 4 spreading rates; isotherms at 40 temperatures; axes of 1-5 points in every order, of 5000 and 131073 points',
    'thorough': '401 ages x 301 depths, 100 parameter sets, isotherms at 135 temperatures',
}
SEC = 365.25 * 24 * 3600
# parameter sets: Tm, rhom, rhow, a, k, plate thickness
PAR = [dict(), dict(Tm=1350.0), dict(Tm=1200.0), dict(k=2e-6), dict(k=0.8e-6, a=6e-5), dict(a=2.5e-5), dict(rhom=3200), dict(rhow=1030),
       dict(Tm=1450.0, rhom=3350, rhow=1025, a=3.1e-5, k=1.2e-6), dict(zL0=95e3), dict(zL0=125e3, Tm=1300.0), dict(zL0=100e3, k=1.5e-6),
       dict(rhom=2900, a=4e-5), dict(zL0=60e3), dict(Tm=1000.0, k=5e-7), dict(rhow=0), dict(zL0=95.5e3, rhom=3330, rhow=1000, a=3.28e-5, k=8e-7),
       dict(Tm=1333.0), dict(zL0=80e3, rhow=1030), dict(Tm=1350, k=1e-6)]
DEF = dict(Tm=1350.0, rhom=3300.0, rhow=1000.0, a=3e-5, k=1e-6, zL0=100e3)


def pars(tier):
    if tier == 'quick':
        return PAR
    return PAR + [dict(Tm=t, k=k, a=a, zL0=z) for t in (1250., 1350., 1400.) for k in (7e-7, 1e-6, 1.3e-6) for a in (2.8e-5, 3.3e-5)
                  for z in (90e3, 100e3, 106e3, 120e3)][:80]


def groups(tier):
    n = len(pars(tier))
    for m in ('half', 'plate', 'zhalf', 'zplate'):
        yield m, ([m, p, mode] for p in range(n) for mode in ('age', 'dist', 'rate')), 1
    yield 'long', (['long', n] for n in (5000, 131073)), 1
    yield 'shapes', (['shape', nx, nz, o] for nx in range(1, 6) for nz in range(1, 6) for o in range(3)), 5


def ages(tier):
    if tier == 'quick':
        return [0.0, 1e-3, 0.1, 0.5] + [1.0 + 3 * i for i in range(17)] + [60.0 + 7.5 * i for i in range(19)] + [200.0]
    return [0.0] + [0.01 * 1.3 ** i for i in range(39)] + [0.55 * i for i in range(1, 362)]


def depths(tier, L):
    if tier == 'quick':
        return [0.0, 1.0, 100.0] + [2500.0 * i for i in range(1, 40)] + [L, L + 1, L + 5e4]
    return [0.0, 1.0, 100.0] + [500.0 * i for i in range(1, 296)] + [L, L + 1e-3, L + 5e4]


def half(t, z, q):
    """t in seconds"""
    if t == 0:
        return q['Tm']
    return q['Tm'] * math.erf(z / (2 * math.sqrt(q['k'] * t)))


def half_w(t, q):
    return 2 * q['rhom'] * q['a'] * q['Tm'] / (q['rhom'] - q['rhow']) * math.sqrt(q['k'] * t / math.pi)


def plate(t, z, q):
    L = q['zL0']
    if z > L:
        return q['Tm']
    s = sum(math.exp(-q['k'] * (n * math.pi / L) ** 2 * t) * math.sin(n * math.pi * z / L) / n for n in range(1, 11))
    return q['Tm'] * (z / L + 2 / math.pi * s)


def plate_w(t, q):
    L = q['zL0']
    s = sum(math.exp(-q['k'] * (n * math.pi / L) ** 2 * t) / n ** 2 for n in (1, 3, 5))
    return q['rhom'] * q['a'] * q['Tm'] * L / (q['rhom'] - q['rhow']) * (0.5 - 4 / math.pi ** 2 * s)


def erfc_inv(y):
    """by bisection"""
    lo, hi = -6.0, 27.0
    for _ in range(200):
        m = (lo + hi) / 2
        if math.erfc(m) > y:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def axes(tier, mode):
    """[(x argument, keyword arguments, ages in Myr)]"""
    A = ages(tier)
    if mode == 'age':
        return [(A, {'time': True}, A), (A, {'time': True, 'u': 0.5}, A)]
    if mode == 'dist':
        x = [a * 1e6 * 0.01 for a in A]
        return [(x, {}, A), ([-v for v in x], {}, A), ([v if i % 2 else -v for i, v in enumerate(x)], {'time': False}, A)]
    out = []
    for u in (0.005, 0.02, 0.1, 0.033):
        out.append(([a * 1e6 * u for a in A], {'u': u}, A))
    return out


def near(g, w, tol):
    return abs(g - w) <= tol


def run(case, ctx):
    import numpy as np
    from shipgrav import grav
    if case[0] == 'shape':
        return shapes(ctx, case)
    if case[0] == 'long':
        return longer(ctx, case)
    m, p, mode = case
    par = dict(pars(ctx.tier)[p])
    q = dict(DEF, **par)
    if m in ('half', 'zhalf'):
        par.pop('zL0', None)
    Ts = [10.0 + 33 * i for i in range(40)] if ctx.tier == 'quick' else [1.0 + 10 * i for i in range(135)]
    Ts = [T for T in Ts if T < q['Tm']]
    for x, kw, A in axes(ctx.tier, mode):
        arr = np.array(x)
        sec = [a * 1e6 * SEC for a in A]
        what = '%s %s %s' % (m, par, kw)
        if m in ('half', 'plate'):
            zs = depths(ctx.tier, q['zL0'])
            f, ft, fw = (grav.therm_halfspace, half, half_w) if m == 'half' else (grav.therm_plate, plate, plate_w)
            T, W = f(arr, np.array(zs), **kw, **par)
            ctx.check(np.shape(T) == (len(zs), len(x)) and np.shape(W) == (len(x),), '%s: shapes %s, %s', what, np.shape(T), np.shape(W))
            T, W = T.tolist(), W.tolist()
            for j, t in enumerate(sec):
                ctx.check(near(W[j], fw(t, q), 1e-7 + 1e-9 * abs(W[j])), '%s: subsidence at %r Myr is %r, expected %r', what, A[j], W[j], fw(t, q))
                for i, z in enumerate(zs):
                    if t == 0 and z == 0 and m == 'half':
                        continue        # neither surface nor mantle: the corner has no temperature
                    w = ft(t, z, q)
                    ctx.check(near(T[i][j], w, 1e-7), '%s: temperature at %r Myr, %r m is %r, expected %r', what, A[j], z, T[i][j], w)
                    if m == 'plate' and z > q['zL0']:
                        ctx.check(T[i][j] == q['Tm'], '%s: %r below the plate', what, T[i][j])
                ctx.state((m, p, kw.get('u'), x[j]))
            ctx.ev(len(zs) * len(x))
        elif m == 'zhalf':
            for T in Ts:
                Z, W = grav.therm_Z_halfspace(arr, T, **kw, **par)
                e = erfc_inv((q['Tm'] - T) / q['Tm'])
                ctx.check(np.shape(Z) == (len(x),) and np.shape(W) == (len(x),), '%s: shapes', what)
                for j, t in enumerate(sec):
                    w = 2 * math.sqrt(q['k'] * t) * e
                    ctx.check(near(Z[j], w, 1e-4 + 1e-7 * w), '%s: depth of %r at %r Myr is %r, expected %r', what, T, A[j], Z[j], w)
                    if t:
                        b = half(t, float(Z[j]), q)
                        ctx.check(near(b, T, 1e-6 * q['Tm']), '%s: isotherm %r found where it is %r', what, T, b)
                    ctx.check(near(W[j], half_w(t, q), 1e-7 + 1e-9 * abs(W[j])), '%s: subsidence at %r Myr is %r', what, A[j], W[j])
                ctx.state((m, p, kw.get('u'), T))
                ctx.ev(len(x))
        else:
            grids = [dict(), dict(minz=1000.0, maxz=50e3, zsp=500.0)] + ([dict(maxz=130e3, zsp=1000.0)] if ctx.tier != 'quick' else [])
            TT = Ts[::4] + [q['Tm'], 0.0]
            for gr in grids:
                Z = grav.therm_Z_plate(arr, np.array(TT), **kw, **par, **gr)
                ctx.check(np.shape(Z) == (len(TT), len(x)), '%s: shape %s', what, np.shape(Z))
                lo, hi, st = gr.get('minz', 0), gr.get('maxz', 100e3), gr.get('zsp', 100.0)
                zs = [lo + st * i for i in range(int(math.ceil((hi - lo) / st)))]
                za = np.array(zs)
                for j, t in enumerate(sec):
                    col = q['Tm'] * (za / q['zL0'] + 2 / math.pi * sum(
                        math.exp(-q['k'] * (n * math.pi / q['zL0']) ** 2 * t) * np.sin(n * math.pi * za / q['zL0']) / n for n in range(1, 11)))
                    col[za > q['zL0']] = q['Tm']
                    for i, T in enumerate(TT):
                        z = float(Z[i, j])
                        n = int(round((z - lo) / st))
                        ctx.check(0 <= n < len(zs) and abs(zs[n] - z) < 1e-6, '%s: depth %r is not on the grid %s', what, z, gr)
                        d = abs(col[n] - T)
                        ctx.check(d <= np.abs(col - T).min() + 1e-7, '%s: isotherm %r at %r Myr put at %r m, where it is %r', what, T, A[j], z, col[n])
                ctx.state((m, p, kw.get('u'), str(gr)))
                ctx.ev(len(TT) * len(x))
        ctx.trace()
        ctx.edge((m, p), (mode, str(kw)))
        ctx.check(arr.tolist() == x, '%s: the axis was changed', what)
    ctx.outcome('%s by %s' % (m, mode))


def longer(ctx, case):
    """many ages"""
    import numpy as np
    from shipgrav import grav
    n = case[1]
    A = [200.0 * ((i * 7919) % n) / n for i in range(n)]
    zs = [4e3, 70e3, 110e3]
    T1, W1 = grav.therm_halfspace(np.array(A), np.array(zs), time=True)
    T2, W2 = grav.therm_plate(np.array(A), np.array(zs), time=True)
    Z, W3 = grav.therm_Z_halfspace(np.array(A), 600.0, time=True)
    Z4 = grav.therm_Z_plate(np.array(A[:5000]), np.array([600.0]), time=True)[0]
    e = erfc_inv((DEF['Tm'] - 600.0) / DEF['Tm'])
    ctx.check(T1.shape == T2.shape == (3, n) and len(W1) == len(W2) == len(Z) == n, 'shapes')
    for j, a in enumerate(A):
        t = a * 1e6 * SEC
        ctx.check(near(W1[j], half_w(t, DEF), 1e-6) and near(W2[j], plate_w(t, DEF), 1e-6) and near(W3[j], W1[j], 1e-6), 'subsidence %d at %r Myr', j, a)
        ctx.check(near(Z[j], 2 * math.sqrt(DEF['k'] * t) * e, 1e-2), 'isotherm %d at %r Myr: %r', j, a, Z[j])
        if j < 5000 and 5 < a:
            ctx.check(abs(plate(t, float(Z4[j]), DEF) - 600) < 5, 'plate isotherm %d at %r Myr: %r', j, a, Z4[j])
        for i, z in enumerate(zs):
            ctx.check(near(T1[i, j], half(t, z, DEF), 1e-7), 'half-space %d at %r Myr %r m: %r', j, a, z, T1[i, j])
            ctx.check(near(T2[i, j], plate(t, z, DEF), 1e-7), 'plate %d at %r Myr %r m: %r', j, a, z, T2[i, j])
    ctx.trace()
    ctx.ev(n)
    ctx.state(case)


def shapes(ctx, case):
    """axes of a few points in increasing, decreasing and mixed order"""
    import numpy as np
    from shipgrav import grav
    _, nx, nz, o = case
    A = [3.0, 17.5, 64.0, 1.25, 140.0][:nx]
    zs = [5e3, 62e3, 1e3, 120e3, 30e3][:nz]
    if o < 2:
        A, zs = sorted(A, reverse=bool(o)), sorted(zs, reverse=bool(o))
    T1, W1 = grav.therm_halfspace(np.array(A), np.array(zs), time=True)
    T2, W2 = grav.therm_plate(np.array(A), np.array(zs), time=True)
    ctx.check(T1.shape == T2.shape == (nz, nx), 'shapes %s %s', T1.shape, T2.shape)
    for j, a in enumerate(A):
        t = a * 1e6 * SEC
        ctx.check(near(W1[j], half_w(t, DEF), 1e-6) and near(W2[j], plate_w(t, DEF), 1e-6), 'subsidence at %r Myr', a)
        for i, z in enumerate(zs):
            ctx.check(near(T1[i, j], half(t, z, DEF), 1e-7), 'half-space at %r Myr %r m: %r', a, z, T1[i, j])
            ctx.check(near(T2[i, j], plate(t, z, DEF), 1e-7), 'plate at %r Myr %r m: %r', a, z, T2[i, j])
    if nx * nz:
        # young lithosphere is the same in both models
        y = grav.therm_halfspace(np.array([5.0]), np.array([2e3, 9e3]), time=True)[0]
        v = grav.therm_plate(np.array([5.0]), np.array([2e3, 9e3]), time=True)[0]
        ctx.check(np.abs(y - v).max() < 0.01 * 1350, 'young half-space and plate differ: %s %s', y, v)
    ctx.trace()
    ctx.ev(nx * nz)
    ctx.state(case)
    ctx.edge('shape', case)
