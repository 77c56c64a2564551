"""C14: the gaussian smoother is a causal, fixed, unit-gain weighted average."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'lengths 1-60: an impulse at every position of series of L+1, L+2 and 2L+5 samples, constants, missing values at every position, '
             'refusal for every shorter series; every sequence of up to 6 samples over {-1, 0, 2} for lengths 1-5; every window state of '
             'lengths 1-5 followed by every next sample; 11 containers; 131100 samples',
    'thorough': 'lengths 1-200 (impulses) and sequences of up to 9 samples',
}
TOL = 1e-11


def kernel(fl):
    """weights of the current sample and the 2*floor(fl/2) before it"""
    h = fl // 2
    def w(j):           # j samples from the middle
        k = 1 if j == 0 else j - 1
        return math.exp(-0.5 * (k * 6.0 / fl) ** 2)
    ws = [w(abs(i - h)) for i in range(2 * h + 1)]
    s = math.fsum(ws)
    return [x / s for x in ws]


def model(x, fl):
    ws = kernel(fl)
    n = len(ws)
    out = []
    for i in range(len(x)):
        out.append(math.fsum(ws[k] * x[i - k] for k in range(n) if i - k >= 0))
    return out


def groups(tier):
    q = tier == 'quick'
    yield 'impulses', (['imp', fl] for fl in range(1, 61 if q else 201)), 1
    yield 'missing', (['nan', fl] for fl in range(1, 41)), 2
    yield 'refused', (['short', fl] for fl in range(1, 61)), 4
    for L in range(2, 7 if q else 10):
        yield 'sequences %d' % L, (['seq', fl, list(p), L] for fl in range(1, 6) if fl < L
                                   for p in itertools.product((-1, 0, 2), repeat=min(L, 2))), 2
    yield 'containers', (['cont', fl, k] for fl in range(1, 31) for k in range(11)), 11
    yield 'day', (['day', fl] for fl in (10, 60, 241)), 1
    yield 'long', (['long', fl] for fl in (1, 2, 3, 10, 59, 60, 99, 100, 179, 180, 239, 240, 241)), 1


def filt(x, fl):
    from shipgrav.utils import gaussian_filter
    return gaussian_filter(x, fl)


def agree(ctx, got, want, scale, what):
    ctx.check(len(got) == len(want), '%s: %d samples, expected %d', what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if w != w:
            ctx.check(g != g, '%s: sample %d is %r, expected missing', what, i, g)
        else:
            ctx.check(abs(g - w) <= TOL * scale, '%s: sample %d is %r, expected %r', what, i, g, w)
    ctx.trace()
    ctx.ev(len(want))


def run(case, ctx):
    import numpy as np
    import pandas as pd
    k, fl = case[0], case[1]
    if k == 'imp':
        ws = kernel(fl)
        for n in sorted({fl + 1, fl + 2, 2 * fl + 5}):
            for p in range(n):
                x = np.zeros(n)
                x[p] = 1.0
                y = filt(x, fl)
                want = [ws[i - p] if 0 <= i - p < len(ws) else 0.0 for i in range(n)]
                agree(ctx, y, want, 1, 'length %d impulse at %d of %d' % (fl, p, n))
                ctx.state((fl, n, p))
                ctx.edge((fl, n), p)
            for c in (1.0, -250.0, 855000.125):
                agree(ctx, filt(np.full(n, c), fl), model([c] * n, fl), abs(c), 'length %d constant %r' % (fl, c))
                y = filt(np.full(n + 2 * fl, c), fl)
                ctx.check(all(abs(v - c) <= TOL * abs(c) for v in y[2 * (fl // 2):]), 'length %d: constant %r comes out as %r', fl, c, y[-1])
        ctx.outcome('filter of %d weights' % len(ws))
    elif k == 'nan':
        n = 2 * fl + 7
        W = 2 * (fl // 2) + 1
        base = [math.sin(1 + 3 * i) for i in range(n)]
        for p in range(n):
            for bad in (math.nan, math.inf):
                x = list(base)
                x[p] = bad
                y = filt(np.array(x), fl)
                w = model(base, fl)
                ctx.check(len(y) == n, 'length %d: %d samples of %d', fl, len(y), n)
                for i in range(n):
                    if p <= i < p + W:
                        ctx.check(not math.isfinite(y[i]), 'length %d: sample %d unaffected by %r at %d', fl, i, bad, p)
                    else:
                        ctx.check(abs(y[i] - w[i]) <= TOL, 'length %d: sample %d affected by %r at %d', fl, i, bad, p)
                ctx.trace()
                ctx.ev(n)
                ctx.state(('nan', fl, p, repr(bad)))
                ctx.edge(('nan', fl), (p, repr(bad)))
    elif k == 'short':
        for n in range(0, fl + 1):
            for x in (np.ones(n), [1.0] * n):
                try:
                    filt(x, fl)
                except Exception:
                    pass
                else:
                    ctx.check(False, 'length %d accepted a series of %d samples', fl, n)
                ctx.state(('short', fl, n))
                ctx.edge(('short', fl), n)
                ctx.trace()
                ctx.ev()
        ctx.outcome('refused')
    elif k == 'seq':
        pre, L = case[2], case[3]
        W = 2 * (fl // 2) + 1
        for tail in itertools.product((-1, 0, 2), repeat=L - len(pre)):
            x = pre + list(tail)
            arr = np.array(x, dtype=float)
            y = filt(arr, fl)
            ctx.check(arr.tolist() == [float(v) for v in x], 'length %d changed its input %s', fl, x)
            agree(ctx, y, model(x, fl), 1, 'length %d sequence %s' % (fl, x))
            # ring buffer states reached and the samples that move them on
            win = (0,) * W
            for v in x:
                ctx.edge((fl, win), v)
                win = win[1:] + (v,)
                ctx.state((fl, win))
            if L > fl + 1:
                y2 = filt(arr[:-1], fl)
                agree(ctx, y2, list(y[:-1]), 1, 'length %d sequence %s without its last sample' % (fl, x))
    elif k == 'cont':
        n = fl + 9
        x = [((i * 37) % 19) - 7 for i in range(n)]
        xf = [float(v) for v in x]
        kinds = [list(xf), tuple(xf), list(x), np.array(x), np.array(xf, dtype=np.float32), pd.Series(xf),
                 pd.Series(xf, index=range(n)[::-1]), pd.Series(xf, index=['r%d' % i for i in range(n)]),
                 pd.Series(xf, index=[i // 2 for i in range(n)]), pd.Series(xf, index=[i + 100.5 for i in range(n)]),
                 np.array([v for v in xf for _ in (0, 1)])[::2]]
        obj = kinds[case[2]]
        y = filt(obj, fl)
        agree(ctx, list(np.asarray(y)), model(x, fl), 20, 'length %d container %d' % (fl, case[2]))
        ctx.check([float(v) for v in obj] == xf, 'length %d changed its input in container %d', fl, case[2])
        ctx.state(('cont', fl, case[2]))
        ctx.edge(('cont', fl), case[2])
        ctx.outcome('container %d' % case[2])
    elif k == 'day':
        n = 131100
        i = np.arange(n)
        x = 40 * np.sin(i / 9) + 5e5 * ((i * i) % 7 == 3) + 855000
        want = np.convolve(x, kernel(fl))[:n]
        agree(ctx, filt(x, fl).tolist(), want.tolist(), 2e6, 'length %d series of %d samples' % (fl, n))
        ctx.state(('day', fl))
        ctx.edge('day', fl)
    else:
        n = 3 * fl + 700
        x = [40 * math.sin(i / 9) + 5e5 * ((i * i) % 7 == 3) + 855000 for i in range(n)]
        agree(ctx, filt(np.array(x), fl), model(x, fl), 2e6, 'length %d long series' % fl)
        ctx.state(('long', fl))
        ctx.edge('long', fl)
