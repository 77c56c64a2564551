"""C21: Parker gravity of relief and layers equals the Fourier series it cites."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'lines of 2-40, 97, 128 and 200 points x 6 reliefs and of 2-8 points with every relief over 2 heights (3 heights up to 5 points), padded; grids of '
             '1-9 x 1-9 points folded or not, expansion orders 1-7, with every binary relief up to 9 points and 4 reliefs beyond; layers on grids '
             'of 1-9 x 1-9 points with every single cell dense; 5 interval pairs; grids of 64 x 130, 257 x 40 and 300 x 300 points; 4 reliefs at 4 depths on lines and at 2 on grids, at 3-4 levels, against the attraction of their masses summed directly',
    'thorough': 'lines of 2-120 points, grids up to 20 x 20, binary reliefs up to 12 points',
}
KID = 'C21-layer-wavenumber'


def groups(tier):
    q = tier == 'quick'
    yield 'lines', (['line', n, k] for n in range(2, 41 if q else 121) for k in range(6)), 8
    yield 'all lines', (['bin', n, s] for n in range(2, 9 if q else 11) for s in (2, 3) if s == 2 or n < 6), 1
    yield 'long lines', (['line', n, k] for n in (97, 128, 200) for k in range(6)), 1
    yield 'large grids', (['large', ny, nx] for ny, nx in ((64, 130), (257, 40), (300, 300))), 1
    N = 10 if q else 21
    yield 'grids', (['grid', ny, nx, f] for ny in range(1, N) for nx in range(1, N) for f in (True, False)), 4
    yield 'all grids', (['gbin', ny, nx, f] for ny in range(1, 10) for nx in range(1, 10) if ny * nx <= (9 if q else 12) for f in (True, False)), 1
    yield 'masses of lines', (['mass', n, k, d] for n in ((120, 161) if q else (120, 161, 240, 321)) for k in range(len(SHAPES))
                              for d in ((1000.0, 2500.0, 4000.0, 6000.0) if q else (800.0, 1000.0, 1500.0, 2500.0, 3000.0, 4000.0, 5000.0, 6000.0, 9000.0))), 2
    yield 'masses of grids', (['mass2', ny, nx, k, d] for ny, nx in ((40, 51), (47, 44)) for k in range(len(SHAPES))
                              for d in ((4000, 6000) if q else (3500, 4000, 5000, 6000))), 1
    yield 'layers', (['layer', ny, nx] for ny in range(1, N) for nx in range(1, N)), 4


def freqs(n, d):
    """angular wavenumbers of a periodic grid of n points, spacing d, in transform order"""
    return [2 * math.pi * (j if 2 * j <= n else j - n) / (n * d) for j in range(n)]


_M = {}


def dft(n):
    import numpy as np
    if n not in _M:
        a = [[2 * math.pi * ((i * j) % n) / n for j in range(n)] for i in range(n)]
        _M[n] = np.cos(a) - 1j * np.sin(a)
    return _M[n]


def parker(h, ks, z, rho, order):
    """gravity (m/s2) of relief h (m, towards the observer) about the level z metres below;
    h any number of dimensions, ks wavenumbers (1/m) of each axis"""
    import numpy as np
    k2 = 0
    for ax, k in enumerate(ks):
        sh = [1] * h.ndim
        sh[ax] = -1
        k2 = k2 + np.reshape(np.array(k), sh) ** 2
    k = np.sqrt(k2)

    def tr(x, inv=False):
        for ax in range(x.ndim):
            m = dft(x.shape[ax])
            m = np.conj(m) / x.shape[ax] if inv else m
            x = np.moveaxis(np.tensordot(m, x, axes=(1, ax)), 0, ax)
        return x
    S = 0
    for n in range(1, order + 1):
        S = S + k ** (n - 1) / math.factorial(n) * tr(h.astype(complex) ** n)
    S = S * np.exp(-k * z)
    S[(0,) * h.ndim] = 0            # the mean level is the reference
    return 2 * math.pi * 6.673e-11 * rho * np.real(tr(S, True))


def line_model(x, topo, zlev, rho):
    import numpy as np
    n = len(topo)
    dx = (x[-1] - x[0]) / (n - 1)
    pad = np.array([topo[0]] * (2 * n) + list(topo) + [topo[-1]] * (2 * n), dtype=float)
    base = sum(topo) / n
    return parker(pad - base, [freqs(5 * n, dx)], zlev - base, rho, 5)[2 * n:3 * n] * 1e5


SHAPES = ['hill', 'pit', 'ridge and trench', 'terraces']


def bump(r, w, k):
    """a relief of unit size that is flat away from its middle; r in units of the line"""
    import numpy as np
    g = np.exp(-(r / w) ** 2)
    return [g, -g, np.exp(-((r + w) / w) ** 2) - np.exp(-((r - w) / w) ** 2), np.round(3 * g) / 3][k]


GL = ((-0.906179845938664, 0.236926885056189), (-0.538469310105683, 0.478628670499366), (0.0, 0.568888888888889),
      (0.538469310105683, 0.478628670499366), (0.906179845938664, 0.236926885056189))


def strips(x, h, z, rho):
    """mGal at the points x of rods without end, dx wide, between a level z metres below the observer and h above it"""
    import numpy as np
    dx = x[1] - x[0]
    d = x[None, :] - x[:, None]
    out = 0
    for s, w in GL:
        for half in (0, 1):
            q = z - h[None, :] * (half + (s + 1) / 2) / 2
            out = out + (w / 4 * h[None, :] * (np.arctan((d + dx / 2) / q) - np.arctan((d - dx / 2) / q))).sum(axis=1)
    return 2 * 6.673e-11 * rho * out * 1e5


def columns(x, y, h, z, rho):
    """mGal at the points of the grid, of columns between a level z metres below and h above it"""
    import numpy as np
    dx, dy = x[1] - x[0], y[1] - y[0]
    X, Y = np.meshgrid(x, y)
    X, Y, H = X.ravel(), Y.ravel(), h.ravel()
    r2 = (X[None] - X[:, None]) ** 2 + (Y[None] - Y[:, None]) ** 2
    out = 0
    for s, w in GL:
        q = z - H[None] * (s + 1) / 2
        out = out + (w / 2 * H[None] * q / (r2 + q * q) ** 1.5).sum(axis=1)
    return (6.673e-11 * rho * dx * dy * out * 1e5).reshape(h.shape)


def masses(ctx, case):
    """against the attraction of the masses themselves, summed without any transform"""
    import numpy as np
    from shipgrav import grav
    if case[0] == 'mass':
        _, n, k, depth = case
        for dx, size, w, rho in ((500.0, 300.0, 9000.0, 1700.0), (1000.0, -200.0, 12000.0, 600.0), (250.0, 100.0, 3000.0, 2670.0)):
            x = 7000.0 + dx * np.arange(n)
            h = size * bump(x - x[n // 2], w, k)
            want = strips(x, h, depth, rho)
            for level, zlev in ((-depth, 0.0), (0.0, depth), (1000.0 - depth, 1000.0), (-7000.0, depth - 7000.0)):
                got = grav.grav1d_padded(x, h + level, zlev, rho)
                err = np.abs((got - got[0]) - (want - want[0])).max()
                top = np.abs(want - want[0]).max()
                ctx.check(err <= 0.02 * top, '%s of %g m on a sea floor at %g m, seen from %g m, %d points %g m apart: off by %g mGal of %g',
                          SHAPES[k], size, level, zlev, n, dx, err, top)
                ctx.trace()
                ctx.ev(n)
                ctx.state((case, dx, level))
                ctx.edge((case, dx), level)
    else:
        _, ny, nx, k, depth = case
        x, y = 1000.0 * np.arange(nx), 1300.0 * np.arange(ny)
        X, Y = np.meshgrid(x, y)
        h = 400 * bump(np.hypot(X - x[nx // 2], Y - y[ny // 2]) if k != 2 else X - x[nx // 2], 4500.0, k)
        if k == 2:
            h = h * np.exp(-((Y - y[ny // 2]) / 4500) ** 2)
        want = columns(x, y, h, depth, 600.0)
        for fold in (True, False):
            for level, dz in ((2500.0, depth - 2500), (0.0, depth), (3500.0, depth - 3500)):
                got = grav.grav2d_folding(x, y, level - h, 1.0, 1.3, drho=0.6, dz=dz, ifold=fold)
                err = np.abs((got - got[0, 0]) - (want - want[0, 0])).max()
                top = np.abs(want - want[0, 0]).max()
                ctx.check(err <= (0.1 if k == 2 else 0.03) * top, '%s of 400 m, %d m below, %d x %d points, level %g%s: off by %g mGal of %g', SHAPES[k], depth, ny, nx,
                          level, ', folded' if fold else '', err, top)
                ctx.trace()
                ctx.ev(ny * nx)
                ctx.state((case, fold, level))
                ctx.edge((case, fold), level)
    ctx.outcome('masses')


def grid_model(Z, dx, dy, drho, dz, fold, order):
    import numpy as np
    ny, nx = Z.shape
    m = Z.mean()
    h = m - Z
    if fold:
        h = np.concatenate((h, h[::-1]), axis=0)
        h = np.concatenate((h, h[:, ::-1]), axis=1)
    k = [freqs(h.shape[0], dy * 1e3), freqs(h.shape[1], dx * 1e3)]
    return parker(h, k, m + dz, drho * 1000, order)[:ny, :nx] * 1e5


def layer_model(rho, dx, dy, z1, z2, listed=False):
    """transfer function of a layer; listed: with the wavenumbers of the listed finding"""
    import numpy as np
    ny, nx = rho.shape

    def fr(n, d):
        k = freqs(n, d)
        if listed and n >= 3:
            j = n // 2 + 1
            if j < n:
                k[j] = 2 * math.pi * j / (n * d)
        return np.array(k)
    k = np.sqrt(fr(nx, dx)[None, :] ** 2 + fr(ny, dy)[:, None] ** 2)
    R = dft(ny) @ rho.astype(complex) @ dft(nx).T
    with np.errstate(all='ignore'):
        H = (np.exp(-k * z1) - np.exp(-k * z2)) / k
    H[0, 0] = 0
    R = R * H * 2 * math.pi * 6.673e-11
    return np.real(np.conj(dft(ny)) @ R @ np.conj(dft(nx)).T) / (nx * ny) * 1e3 * 1e5


def same(ctx, got, want, what):
    import numpy as np
    ctx.check(np.shape(got) == np.shape(want), '%s: shape %s, expected %s', what, np.shape(got), np.shape(want))
    got = np.asarray(got)
    ctx.check(not np.iscomplexobj(got), '%s: complex result', what)
    s = max(1e-9, float(np.abs(want).max()))
    e = float(np.abs(got - want).max()) if np.isfinite(got).all() else math.inf
    ctx.check(e <= 1e-8 * s + 1e-9, '%s: off by %g mGal of %g: %s, expected %s', what, e, s, np.ravel(got)[:4].tolist(), np.ravel(want)[:4].tolist())
    ctx.trace()
    ctx.ev(int(np.size(want)))


def relief(n, k):
    return [[-3000.0 + 500 * math.sin(2 * i) for i in range(n)],
            [-2000.0 + 37.5 * i for i in range(n)],
            [-4000.0 + 1200 * (i == n // 2) for i in range(n)],
            [1500.0 + 400 * ((i * 7) % 5) for i in range(n)],
            [-2500.0] * n,
            [-5000.0 + 900 * (i >= n // 3) for i in range(n)]][k]


def one_line(ctx, topo, dx, zlev, rho, what):
    import numpy as np
    from shipgrav import grav
    n = len(topo)
    x = np.array([100.0 + dx * i for i in range(n)])
    t = np.array(topo, dtype=float)
    got = grav.grav1d_padded(x, t, zlev, rho)
    want = line_model(x, topo, zlev, rho)
    same(ctx, got, want, what)
    ctx.check(t.tolist() == list(topo), '%s: relief was changed', what)
    if len(set(topo)) == 1:
        ctx.check(np.abs(got).max() < 1e-6, '%s: flat relief gives %s', what, got)
    rev = grav.grav1d_padded(x, t[::-1], zlev, rho)
    same(ctx, rev[::-1], want, what + ', mirrored')
    for c in (2500.0, -1000.0):
        same(ctx, grav.grav1d_padded(x, t + c, zlev + c, rho), want, '%s, all of it %g m up' % (what, c))


def run(case, ctx):
    import numpy as np
    from shipgrav import grav
    k = case[0]
    if k in ('mass', 'mass2'):
        masses(ctx, case)
    elif k == 'line':
        n, r = case[1], case[2]
        t = relief(n, r)
        for dx, zlev, rho in ((1000.0, 0.0, 1700), (250.0, 500.0, -600.0), (5000.0, 100.0, 2670.0)):
            if zlev - sum(t) / n < 0:
                zlev = max(t) + 1000.0
            one_line(ctx, t, dx, zlev, rho, 'line of %d points, relief %d, spacing %s' % (n, r, dx))
            ctx.state((n, r, dx))
            ctx.edge(('line', n), (r, dx))
        ctx.outcome('line %s' % ('even' if n % 2 == 0 else 'odd'))
    elif k == 'bin':
        n, s = case[1], case[2]
        for w in itertools.product((0, 700.0, -350.0)[:s], repeat=n):
            one_line(ctx, [-3000.0 + v for v in w], 800.0, 0.0, 1700, 'line %s' % (w,))
            ctx.state(w)
            ctx.edge(w[:-1], w[-1])
    elif k == 'large':
        ny, nx = case[1:]
        i, j = np.mgrid[:ny, :nx]
        Z = 3000 + 300 * np.sin(i / 7.0) * np.cos(j / 11.0) + 50 * ((i * 31 + j * 17) % 13) / 13
        for fold in (True, False):
            got = grav.grav2d_folding(np.arange(nx) * 1.0, np.arange(ny) * 1.0, Z, 2.0, 1.5, ifold=fold)
            same(ctx, got, grid_model(Z, 2.0, 1.5, 0.6, 6000, fold, 5), 'grid of %d x %d' % (ny, nx))
            ctx.state((case, fold))
            ctx.edge(case, fold)
        ctx.outcome('large grid')
    elif k in ('grid', 'gbin'):
        ny, nx, fold = case[1:]
        X, Y = np.arange(nx) * 1.0, np.arange(ny) * 1.0
        if k == 'grid':
            Zs = [np.array([[3000 + 400 * math.sin(1.3 * i + 2.1 * j * j) for j in range(nx)] for i in range(ny)]),
                  np.array([[2500.0 + 60 * i + 25 * j for j in range(nx)] for i in range(ny)]),
                  np.full((ny, nx), 2800.0),
                  np.array([[3000.0 + 800 * (i == 0 and j == nx - 1) for j in range(nx)] for i in range(ny)])]
            combos = [(dx, dy, od) for (dx, dy) in ((1.0, 1.0), (0.5, 2.0), (3.0, 1.3)) for od in ((1, 2, 5, 7) if fold else (1, 3, 5))]
        else:
            Zs = [np.array(w).reshape(ny, nx) for w in itertools.product((2500.0, 3100.0), repeat=nx * ny)]
            combos = [(1.0, 0.7, 5)]
        for zi, Z in enumerate(Zs):
            for dx, dy, od in combos:
                kw = {} if od == 5 else {'npower': od}
                dz, drho = (6000, 0.6) if od == 5 else (1000.0, 1.7)
                if od != 5:
                    kw.update(dz=dz, drho=drho)
                if not fold:
                    kw['ifold'] = False
                what = 'grid of %d x %d %s, relief %d, spacing %s, %s, order %d' % (ny, nx, 'folded' if fold else 'as is', zi, dx, dy, od)
                z0 = Z.copy()
                got = grav.grav2d_folding(X, Y, Z, dx, dy, **kw)
                want = grid_model(Z, dx, dy, drho, dz, fold, od)
                same(ctx, got, want, what)
                ctx.check((Z == z0).all(), '%s: relief was changed', what)
                if (Z == Z[0, 0]).all():
                    ctx.check(np.abs(got).max() < 1e-9, '%s: flat relief gives %s', what, got)
                if k == 'gbin' or od == 5:
                    same(ctx, grav.grav2d_folding(X, Y, Z[:, ::-1], dx, dy, **kw)[:, ::-1], want, what + ', mirrored in x')
                    same(ctx, grav.grav2d_folding(X, Y, Z[::-1], dx, dy, **kw)[::-1], want, what + ', mirrored in y')
                ctx.state((k, ny, nx, fold, zi, dx, od))
                ctx.edge((k, ny, nx, fold), (zi, dx, od))
        ctx.outcome('grid %s %s' % ('folded' if fold else 'as is', 'odd' if nx % 2 or ny % 2 else 'even'))
    else:
        ny, nx = case[1], case[2]
        cells = [(i, j) for i in range(ny) for j in range(nx)]
        rhos = []
        for c in cells:
            r = np.full((ny, nx), 2700.0)
            r[c] = 2900.0
            rhos.append((r, 'cell %s' % (c,)))
        rhos.append((np.full((ny, nx), 3300.0), 'uniform'))
        rhos.append((np.array([[2800 + 90 * math.sin(3 * i * i + j) for j in range(nx)] for i in range(ny)]), 'mixed'))
        for r, nm in rhos:
            for dx, dy, z1, z2 in ((1.0, 1.0, 3.0, 9.0), (2.0, 0.7, 0.5, 1.5)):
                what = 'layer of %d x %d, %s, spacing %s, %s' % (ny, nx, nm, dx, dy)
                r0 = r.copy()
                got = grav.grav2d_layer_variable_density(r, dx, dy, z1, z2)
                ctx.check((r == r0).all(), '%s: densities were changed', what)
                if nm == 'uniform':
                    ctx.check(np.abs(got).max() < 1e-6, '%s: gives %s', what, got)
                want = layer_model(r, dx, dy, z1, z2)
                s = max(1e-6, np.abs(want).max())
                if got.shape == want.shape and np.abs(got - want).max() > 1e-8 * s + 1e-9 and max(nx, ny) >= 3:
                    same(ctx, got, layer_model(r, dx, dy, z1, z2, listed=True), what)
                    ctx.known_finding(KID, what)
                    ctx.outcome('layer as listed')
                else:
                    same(ctx, got, want, what)
                    ctx.outcome('layer')
                ctx.state(('layer', ny, nx, nm, dx))
                ctx.edge(('layer', ny, nx), (nm, dx))
