"""C20: the cross-coupling fit uses all continuous data and recovers true coefficients."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every arrangement of up to 4 stretches out of {1, 500, 999, 1000, 1001, 1500 samples} with gaps of {5.001, 6, 10000} intervals, '
             '3 sampling rates; non-gaps of {1, 4.999, 5} intervals and clocks that stand or step back; stretches in which all or some channels are constant; 31 sets of non-zero coefficients; 5 containers; without times; 86400 and 131073 samples with a gap',
    'thorough': 'arrangements of up to 5 stretches, 211 sets of coefficients',
}
LENS = [1, 500, 999, 1000, 1001, 1500]
MON = ['ve', 'vcc', 'al', 'ax', 'lev']
TAPS = 200


def groups(tier):
    q = tier == 'quick'
    for L in range(1, 5 if q else 6):
        yield 'stretches %d' % L, (['seg', list(w), L] for w in itertools.product(range(len(LENS)), repeat=min(L, 3))), 4
    yield 'gaps', (['gap', list(g), sr] for L in (1, 2, 3) for g in itertools.product((1, 4.999, 5, 5.001, 6, 10000) + (() if L == 3 else (0, -1, -7, -10000)), repeat=L) for sr in (1, 0.5, 10)), 10
    yield 'days', (['day', n, at] for n in (86400, 131073) for at in (40000, n - 1200)), 1
    yield 'coefficients', (['coef', m, s] for m in range(32) for s in range(1 if q else 7)), 2
    yield 'flat', (['flat', m, k, z] for n in (2, 3) for m in itertools.product((0, 1), repeat=n) for k in range(3) for z in (0.0, 5.0)), 2
    yield 'containers', (['cont', k] for k in range(5)), 1


def mon(n, shift=0):
    """five monitors with independent slow variations, and some noise"""
    import numpy as np
    i = np.arange(n) + 977.0 * shift
    per = [(260, 431, 137), (305, 211, 523), (353, 617, 163), (401, 239, 181), (449, 281, 193)]
    out = {}
    for k, (m, ps) in enumerate(zip(MON, per)):
        out[m] = sum((3 + j + k) * np.sin(2 * np.pi * i / p + k + 2 * j) for j, p in enumerate(ps)) + ((i * (k + 7) * 7919) % 101 - 50) * 0.02
    return out


DEFAULT = {'ve': 1.3, 'vcc': -0.7, 'al': 0.45, 'ax': 2.1, 'lev': -1.6}


def anomaly(m, co):
    return -sum(co[k] * m[k] for k in MON)


def tay(y):
    """tenth-order Taylor differentiator, zeros beyond the ends"""
    import numpy as np
    c = [5 / 6, -5 / 21, 5 / 84, -5 / 504, 1 / 1260]
    z = np.concatenate((np.zeros(5), y, np.zeros(5)))
    n = len(y)
    return sum(w * (z[5 + k + 1:5 + k + 1 + n] - z[5 - k - 1:5 - k - 1 + n]) for k, w in enumerate(c))


_fir = None


def lowpass(y):
    """blackman-windowed sinc with cut at 1/200 of the Nyquist frequency, causal"""
    import numpy as np
    global _fir
    if _fir is None:
        k = np.arange(TAPS) - (TAPS - 1) / 2
        fc = 1 / TAPS
        h = fc * np.sinc(fc * k)
        j = 2 * np.pi * np.arange(TAPS) / (TAPS - 1)
        h = h * (0.42 - 0.5 * np.cos(j) + 0.08 * np.cos(2 * j))
        _fir = h / h.sum()
    return np.convolve(y, _fir)[:len(y)]


def stretch(y):
    """what one continuous stretch contributes"""
    return lowpass(tay(tay(y))[10:-10])[TAPS:-TAPS]


def call(m, faa, times=None, sr=None):
    from shipgrav import grav
    kw = {}
    if times is not None:
        kw['times'] = times
    if sr is not None:
        kw['samplerate'] = sr
    return grav.calc_cross_coupling_coefficients(faa, m['vcc'], m['ve'], m['al'], m['ax'], m['lev'], **kw)


def judge(ctx, res, segs, co, what, level=True):
    """segs: [(monitors, anomaly)] of the stretches that take part"""
    import numpy as np
    df, model = res
    for c in MON + ['g']:
        ctx.check(c in df.columns, '%s: column %s missing', what, c)
        want = np.concatenate([stretch(-a if c == 'g' else m[c]) for m, a in segs])
        got = np.asarray(df[c], dtype=float)
        ctx.check(len(got) == len(want), '%s: %d samples take part, expected %d', what, len(got), len(want))
        e = np.abs(got - want).max()
        ctx.check(e <= 1e-10, '%s: %s differs by %g from the double-differenced and filtered stretches', what, c, e)
    for c in MON:
        p = float(model.params[c])
        ctx.check(abs(p - co[c]) <= 1e-6, '%s: coefficient of %s is %r, true %r', what, c, p, co[c])
    ctx.trace()
    ctx.ev(len(df))


def build(lens, gaps, sr):
    """times, monitors, anomaly and the stretches [(start, end)]"""
    import numpy as np
    n = sum(lens)
    m = mon(n)
    t, cuts, x, i = np.empty(n), [], 1.7e9, 0
    for L, g in zip(lens, list(gaps) + [1]):
        t[i:i + L] = x + sr * np.arange(L)
        cuts.append((i, i + L))
        x = t[i + L - 1] + g * sr
        i += L
    return t, m, cuts


def run(case, ctx):
    import numpy as np
    import pandas as pd
    k = case[0]
    if k == 'seg':
        pre, L = case[1], case[2]
        for tail in itertools.product(range(len(LENS)), repeat=L - len(pre)):
            w = pre + list(tail)
            lens = [LENS[i] for i in w]
            kept = [x for x in lens if x >= 1000]
            if not kept:
                ctx.outcome('nothing long enough')
                continue
            gaps = [(5.001, 6, 10000)[(i + sum(w)) % 3] for i in range(L - 1)]
            sr = (1, 0.5, 10)[sum(w) % 3]
            t, m, cuts = build(lens, gaps, sr)
            a = anomaly(m, DEFAULT)
            segs = [({c: m[c][i:j] for c in MON}, a[i:j]) for i, j in cuts if j - i >= 1000]
            t = t - t[0] if sr == 0.5 else t
            judge(ctx, call(m, a, t, sr), segs, DEFAULT, 'stretches of %s samples, gaps of %s intervals of %s' % (lens, gaps, sr))
            ctx.state(tuple(w))
            ctx.edge(tuple(w[:-1]), w[-1])
            ctx.outcome('%d of %d stretches used' % (len(segs), L))
    elif k == 'day':
        n, at = case[1:]
        t, m, cuts = build([at, n - at], [6], 1)
        a = anomaly(m, DEFAULT)
        segs = [({c: m[c][i:j] for c in MON}, a[i:j]) for i, j in cuts]
        judge(ctx, call(m, a, t - t[0], 1), segs, DEFAULT, '%d samples, cut at %d' % (n, at))
        ctx.state(case)
        ctx.edge('day', (n, at))
    elif k == 'gap':
        gaps, sr = case[1], case[2]
        lens = [1100, 1010, 1005, 1200][:len(gaps) + 1]
        t, m, _ = build(lens, gaps, sr)
        t = t - t[0]
        a = anomaly(m, DEFAULT)
        # exact decision on the times as given
        cuts, s = [], 0
        for i in range(1, len(t)):
            if t[i] - t[i - 1] > 5 * sr:
                cuts.append((s, i))
                s = i
        cuts.append((s, len(t)))
        segs = [({c: m[c][i:j] for c in MON}, a[i:j]) for i, j in cuts if j - i >= 1000]
        judge(ctx, call(m, a, t, sr), segs, DEFAULT, 'gaps of %s intervals of %s s' % (gaps, sr))
        if sr == 1:
            judge(ctx, call(m, a, t), segs, DEFAULT, 'gaps of %s intervals, default rate' % gaps)
        ctx.state(('gap', tuple(gaps), sr))
        ctx.edge(('gap', tuple(gaps[:-1])), (gaps[-1], sr))
        ctx.outcome('%d cuts' % (len(cuts) - 1))
    elif k == 'flat':
        # stretches in which nothing (k 0), nothing but one monitor (1) or one monitor only (2) changes take part as well
        mask, how, z = case[1:]
        lens = [1400, 1010, 1200][:len(mask)]
        t, m, cuts = build(lens, [6, 60][:len(mask) - 1], 1)
        for (i, j), b in zip(cuts, mask):
            if b:
                for c in MON if how == 0 else MON[1:] if how == 1 else MON[:1]:
                    m[c][i:j] = z
        a = anomaly(m, DEFAULT)
        if all(mask):
            ctx.outcome('nothing to fit')
            return
        segs = [({c: m[c][i:j] for c in MON}, a[i:j]) for i, j in cuts]
        judge(ctx, call(m, a, t - t[0], 1), segs, DEFAULT, 'stretches %s flat (%d, %g)' % (mask, how, z))
        ctx.state(('flat', tuple(mask), how, z))
        ctx.edge('flat', (tuple(mask), how, z))
        ctx.outcome('%d flat' % sum(mask))
    elif k == 'coef':
        mask, s = case[1], case[2]
        co = {c: ((-1) ** (i + s) * (0.3 + 0.4 * ((i + s) % 5)) if mask >> i & 1 else 0.0) for i, c in enumerate(MON)}
        n = 2000
        m = mon(n, s)
        for times in (None, 5.0 + np.arange(n)):
            judge(ctx, call(m, anomaly(m, co), times), [(m, anomaly(m, co))], co, 'coefficients %s' % co)
        z = dict(m, lev=np.zeros(n))
        co0 = dict(co, lev=0.0)
        judge(ctx, call(z, anomaly(z, co0)), [(z, anomaly(z, co0))], co0, 'coefficients %s, no levelling' % co0)
        ctx.state(('coef', mask, s))
        ctx.edge('coef', (mask, s))
        ctx.outcome('%d coefficients' % bin(mask).count('1'))
    else:
        lens, c = [1200, 1500, 800, 1001], case[1]
        t, m, cuts = build(lens, [6, 100, 8], 1)
        a = anomaly(m, DEFAULT)
        segs = [({x: m[x][i:j] for x in MON}, a[i:j]) for i, j in cuts if j - i >= 1000]
        n = len(t)
        lab = [list(range(n)), list(range(n))[::-1], [i + .5 for i in range(n)], ['r%d' % i for i in range(n)]]
        if c < 4:
            df = pd.DataFrame(dict(m, faa=a, t=t), index=lab[c])
            res = call({x: df[x] for x in MON}, df['faa'], df['t'], 1)
            ctx.check(df['faa'].tolist() == a.tolist() and df['al'].tolist() == m['al'].tolist(), 'container %d: input changed', c)
        else:
            res = call({x: m[x].tolist() for x in MON}, a.tolist(), t.tolist(), 1)
        judge(ctx, res, segs, DEFAULT, 'container %d' % c)
        ctx.state(('cont', c))
        ctx.edge('cont', c)
        ctx.outcome('container %d' % c)
