"""C19: platform up-vectors are unit vectors from the causal tilt filter."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every history of up to 4 samples over {4 cross x 2 long accelerations x flag good/bad} for 3 platforms and of up to 7 over '
             '{5 samples} for 8 platforms; impulses at every position of 20; impulse, step and noise over 1500 samples for 6 periods^2 x 3 intervals '
             'x 4 dampings; 6 containers; 86400 and 131073 samples',
    'thorough': 'histories of 5 samples over 16, of 9 over 5',
}
# dt, cper, cdamp, lper, ldamp
PLAT = [(1.0, 240.0, 0.7, 250.0, 0.65), (1.0, 60.0, 0, 300.0, 0.9), (0.5, 18.0, 0.5, 270.0, False), (0.1, 240.0, None, 60.0, 1.0),
        (2.0, 84.4 * 60, 0.7071, 240.0, 0.0), (1.0, 240.0, 0.2, 240.0, 1.5), (10.0, 270.0, 0.91, 100.0, 0.4), (1.0, 4 * 60.0, False, 4.5 * 60, None)]
G = 980600.0
WS = 1 / math.sqrt(6371100 / 9.8)       # Schuler frequency
ALC = [0.0, 25000.0, -60000.0, math.nan]
ALL = [0.0, 40000.0]
SMALL = [(0.0, 0.0, 0), (30000.0, -20000.0, 0), (-250000.0, 900000.0, 0), (math.nan, 50000.0, 0), (70000.0, math.nan, 1)]


def groups(tier):
    q = tier == 'quick'
    big = list(range(16))
    for L in range(1, 5 if q else 6):
        yield 'histories %d' % L, (['hist', p, list(w), L] for p in range(3) for w in itertools.product(big, repeat=min(L, 2))), 8
    for L in range(5, 8 if q else 10):
        yield 'small histories %d' % L, (['small', p, list(w), L] for p in (range(8) if L < 7 else range(0, 8, 4)) for w in itertools.product(range(5), repeat=2)), 1
    yield 'impulses', (['imp', p, i] for p in range(8) for i in range(20)), 10
    pers = (6.0, 18.0, 60.0, 240.0, 270.0, 5064.0)
    yield 'platforms', (['plat', dt, a, b] for dt in (0.1, 1.0, 2.0) for a in pers for b in pers), 4
    yield 'day', (['day', n] for n in (86400, 131073)), 1
    yield 'containers', (['cont', k] for k in range(6)), 1


def poly_mul(a, b):
    out = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def digital(per, dt, damp):
    """bilinear transform of (WS2 - W02 - 2 z W0 s) / (s2 + 2 z W0 s + W02), both frequencies prewarped;
    coefficients in powers of the delay"""
    z = damp if damp else math.sqrt(2) / 2
    w0 = 2 / dt * math.tan(math.pi / per * dt)
    ws = 2 / dt * math.tan(WS * dt / 2)
    c = 2 / dt
    up, dn = [1.0, -1.0], [1.0, 1.0]          # s = c up/dn

    def tr(p):                                # p0 + p1 s + p2 s^2, times dn^2
        out = [0.0] * 3
        for k, q in enumerate(p):
            t = [q * c ** k]
            for _ in range(k):
                t = poly_mul(t, up)
            for _ in range(2 - k):
                t = poly_mul(t, dn)
            out = [x + y for x, y in zip(out, t)]
        return out
    num = tr([ws * ws - w0 * w0, -2 * z * w0, 0.0])
    den = tr([w0 * w0, 2 * z * w0, 1.0])
    return [x / den[0] for x in num], [x / den[0] for x in den]


class Axis:
    def __init__(self, per, dt, damp):
        self.b, self.a = digital(per, dt, damp)
        self.x, self.y = [0.0, 0.0], [0.0, 0.0]

    def step(self, u):
        v = self.b[0] * u + self.b[1] * self.x[0] + self.b[2] * self.x[1] - self.a[1] * self.y[0] - self.a[2] * self.y[1]
        self.x = [u, self.x[0]]
        self.y = [v, self.y[0]]
        return v


def model(plat, hist, g=None):
    dt, cp, cd, lp, ld = plat
    C, L = Axis(cp, dt, cd), Axis(lp, dt, ld)
    out = []
    for i, (c, l, f) in enumerate(hist):
        gg = G if g is None else g[i]
        tc = math.atan(C.step(0.0 if c != c or f > 0 else c / gg))
        tl = math.atan(L.step(0.0 if l != l or f > 0 else l / gg))
        sc, cc, sl, cl = math.sin(tc), math.cos(tc), math.sin(tl), math.cos(tl)
        out.append((-sc * cl, -sl, cc * cl) if i % 2 == 0 else (-sc, -sl * cc, cl * cc))
    return out


def call(plat, hist, g=None):
    import numpy as np
    from shipgrav import grav
    dt, cp, cd, lp, ld = plat
    c, l, f = [np.array([h[k] for h in hist], dtype=float) for k in range(3)]
    return grav.up_vecs(dt, np.full(len(hist), G) if g is None else np.array(g), c, l, f, cp, cd, lp, ld)


def judge(ctx, up, want, what):
    ctx.check(getattr(up, 'shape', None) == (3, len(want)), '%s: result has shape %s', what, getattr(up, 'shape', None))
    cols = up.T.tolist()
    for i, (u, w) in enumerate(zip(cols, want)):
        ctx.check(max(abs(u[0] - w[0]), abs(u[1] - w[1]), abs(u[2] - w[2])) < 1e-9, '%s: up vector %d is %s, expected %s', what, i, u, w)
        ctx.check(abs(u[0] ** 2 + u[1] ** 2 + u[2] ** 2 - 1) < 1e-12, '%s: up vector %d has length %r', what, i, math.hypot(*u))
    ctx.trace()
    ctx.ev(len(want))


def run(case, ctx):
    import numpy as np
    import pandas as pd
    k = case[0]
    if k in ('hist', 'small'):
        p, pre, L = case[1], case[2], case[3]
        al = list(itertools.product(ALC, ALL, (0, 1))) if k == 'hist' else SMALL
        for tail in itertools.product(range(len(al)), repeat=L - len(pre)):
            w = pre + list(tail)
            hist = [al[i] for i in w]
            g = None if k == 'hist' else [G + 300 * i for i in range(L)]
            judge(ctx, call(PLAT[p], hist, g), model(PLAT[p], hist, g), 'platform %s history %s' % (PLAT[p], hist))
            ctx.state((k, p, tuple(w)))
            ctx.edge((k, p, tuple(w[:-1])), w[-1])
        ctx.outcome('%d samples' % L)
    elif k == 'imp':
        p, i = case[1], case[2]
        for ax in (0, 1):
            for amp in (1e4, -4e5):
                hist = [(0.0, 0.0, 0)] * 20
                hist[i] = (amp, 0.0, 0) if ax == 0 else (0.0, amp, 0)
                up = call(PLAT[p], hist)
                judge(ctx, up, model(PLAT[p], hist), 'platform %s impulse %r on axis %d at %d' % (PLAT[p], amp, ax, i))
                for j in range(20):
                    if j < i:
                        ctx.check(up[0, j] == 0 and up[1, j] == 0 and up[2, j] == 1, 'platform tilted at %d before the impulse at %d', j, i)
                    ctx.check(up[1 - ax, j] == 0, 'impulse on axis %d tilts the other', ax)
                for flag in (1, 2, 0.5, -1):
                    h2 = list(hist)
                    h2[i] = (h2[i][0], h2[i][1], flag)
                    judge(ctx, call(PLAT[p], h2), model(PLAT[p], h2), 'impulse at %d with flag %r' % (i, flag))
                ctx.state(('imp', p, i, ax, amp))
                ctx.edge(('imp', p, i), (ax, amp))
    elif k == 'day':
        n = case[1]
        hist = [(3e4 * math.sin(i * i * 0.37 + i), math.nan if i % 997 == 5 else 2e4 * math.cos(i / 3), int(i % 50 == 7)) for i in range(n)]
        judge(ctx, call(PLAT[0], hist), model(PLAT[0], hist), '%d samples' % n)
        ctx.state(case)
        ctx.edge('day', n)
    elif k == 'plat':
        dt, a, b = case[1:]
        if min(a, b) <= 2 * dt:
            return
        n = 1500
        for cd, ld in ((0.7, 0.6), (None, 1.0), (0.3, 0), (False, False)):
            pl = (dt, a, cd, b, ld)
            for nm, f in (('impulse', lambda i: 5e4 * (i == 3)), ('step', lambda i: 2e3 * (i > 700)), ('noise', lambda i: 3e4 * math.sin(i * i * 0.37 + i)),
                          ('rest', lambda i: 0.0)):
                hist = [(f(i), -1.7 * f(i + 1), 1 if nm == 'noise' and i % 50 == 7 else 0) for i in range(n)]
                up = call(pl, hist)
                judge(ctx, up, model(pl, hist), 'platform %s %s' % (pl, nm))
                if nm == 'rest':
                    ctx.check((up[2] == 1).all() and (up[:2] == 0).all(), 'platform at rest is not vertical')
                ctx.state((pl, nm))
                ctx.edge(('plat', pl), nm)
        ctx.outcome('platforms')
    else:
        n, c = 12, case[1]
        from shipgrav import grav
        hist = [(1e4 * math.sin(i), math.nan if i == 4 else 2e4 * math.cos(2 * i), int(i == 7)) for i in range(n)]
        g = [G + 10 * i for i in range(n)]
        lab = [list(range(n)), list(range(n))[::-1], ['r%d' % i for i in range(n)], [i + .5 for i in range(n)]]
        pl = PLAT[0]
        cols = [[h[k] for h in hist] for k in range(3)]
        if c < 4:
            df = pd.DataFrame({'g': g, 'c': cols[0], 'l': cols[1], 'f': cols[2]}, index=lab[c])
            args = [df['g'].copy(), df['c'].copy(), df['l'].copy(), df['f'].copy()]
        elif c == 4:
            args = [np.array(g), np.array(cols[0]), np.array(cols[1]), np.array(cols[2]) > 0]
        else:
            g = [G] * n
            args = [G, np.array(cols[0]), np.array(cols[1]), np.array(cols[2])]
        up = grav.up_vecs(pl[0], *args, *pl[1:])
        judge(ctx, np.asarray(up), model(pl, hist, g), 'container %d' % c)
        ctx.state(('cont', c))
        ctx.edge('cont', c)
        ctx.outcome('container %d' % c)
