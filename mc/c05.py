"""C05: tracks across the 180 degree meridian come back continuous and true."""
import itertools
from . import navfmt as nf
from . import c03
from .cal import us

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '9 starting longitudes x every sequence of up to 4 moves (5 from the 4 starts next to the meridian) out of {+0.4, -0.4, +2.5, -2.5, +30 degrees, dropout} '
             '(x both spellings of exactly 180), one file; up to 3 moves over every split in two files and up to 4 with decimation 2; '
             'tracks of 400 fixes crossing 1-4 times with dropout patterns',
    'thorough': 'up to 6 moves (7 from the three starts next to the meridian)',
}
STARTS = [1796, -1796, 1800, 1798, -1801 + 1, 2, -2, 1000, -600]       # tenths of a degree
STEPS = {'p': 4, 'm': -4, 'P': 25, 'M': -25, 'G': 300}
KINDS = 'pmPMNG'
NEAR = [1796, -1796, 1798]


def groups(tier):
    q = tier == 'quick'
    top = 5 if q else 6
    for L in range(0, 3):
        yield 'moves %d' % L, ([s, ''.join(w), 0, 0, 1] for s in STARTS for w in itertools.product(KINDS, repeat=L)), 40
    for L in range(3, top + 1):
        yield 'moves %d' % L, ([s, ''.join(w), L, 0, 1] for s in (STARTS if L < 5 or not q else NEAR + [-1800])
                                    for w in itertools.product(KINDS, repeat=3)), 2 if q else 1
    if not q:
        yield 'moves 7', ([s, ''.join(w), 7, 0, 1] for s in NEAR for w in itertools.product(KINDS, repeat=4)), 1
    yield 'files', ([s, ''.join(w), 0, c, 1] for s in NEAR + [-1800] for L in range(1, 4 if q else 6)
                    for w in itertools.product(KINDS, repeat=L) for c in range(1, L + 1)), 60
    yield 'decimated', ([s, ''.join(w), 0, 0, k] for s in (NEAR[:2] if q else NEAR) for L in (3, 4) for k in (2, 3)
                        for w in itertools.product(KINDS, repeat=L)), 60
    yield 'formats', (['fmt', f, s, ''.join(w)] for f in nf.FORMATS for s in STARTS for L in (2, 3)
                      for w in itertools.product(KINDS, repeat=L)), 60
    yield 'long', (['long', f, turns, drop, side] for f in ('Atlantis', 'NBP', 'user') for turns in range(5)
                   for drop in range(6) for side in (1, -1)), 2


def enc(u, at180):
    """unwrapped longitude in tenths of a degree -> record fields"""
    w = (u + 1800) % 3600 - 1800
    if abs(w) == 1800:
        return (180, '00.0000', at180)
    a = abs(w)
    return (a // 10, '%07.4f' % (a % 10 * 6), 'E' if w >= 0 else 'W')


def build(start, word):
    """[u or None for a dropout]"""
    u, out = start, [start]
    for k in word:
        if k == 'N':
            out.append(None)
        else:
            u += STEPS[k]
            out.append(u)
    return out


def near(a, b, tol=1e-7):
    return abs(a - b) <= tol


def judge(ctx, got, us_, what, at180):
    """got: returned longitudes; us_: unwrapped recorded (tenths) or None"""
    rec = [None if u is None else nf.deg(enc(u, at180), 'W') for u in us_]
    pres = [i for i, u in enumerate(us_) if u is not None]
    crosses = any(abs(rec[a] - rec[b]) > 180 for a, b in zip(pres, pres[1:]))
    inside = all(0 < u % 3600 < 3600 and 0 < (u if us_[pres[0]] > 0 else u + 3600) < 3600 for u in
                 [us_[i] for i in pres]) if pres else False
    moved = 0
    for i, (g, u) in enumerate(zip(got, us_)):
        if u is None:
            ctx.check(g != g, '%s: dropout at row %d came back as %r', what, i, g)
            continue
        ctx.check(g == g, '%s: position at row %d lost', what, i)
        d = (g - rec[i] + 180) % 360 - 180
        if near(d, 0):
            if not crosses:
                ctx.check(near(g, rec[i]), '%s: row %d moved by a whole turn (%r recorded as %r) though the track does not '
                          'cross 180', what, i, g, rec[i])
            continue
        ok = False
        if 0 < i < len(us_) - 1 and us_[i - 1] is not None and us_[i + 1] is not None:
            a, b = u - us_[i - 1], us_[i + 1] - u
            if abs(a) > 10 and abs(b) > 10 and a * b < 0:
                ok = near(g, (got[i - 1] + got[i + 1]) / 2)
        ctx.check(ok, '%s: row %d returned %r, recorded %r', what, i, g, rec[i])
        moved += 1
    if crosses and inside:
        for a, b in zip(pres, pres[1:]):
            ctx.check(abs(got[a] - got[b]) <= 180, '%s: rows %d, %d jump from %r to %r', what, a, b, got[a], got[b])
    ctx.ev(len(got))
    ctx.outcome('%s, %d excursions averaged' % ('crossing' if crosses else 'not crossing', moved))


def one(ctx, var, us_, split, dec, what):
    t0 = us(2023, 1, 13, 23, 59, 58)
    spell = 'EW' if any(u is not None and u % 3600 == 1800 for u in us_) else 'E'
    for at180 in spell:
        recs = [(t0 + i * 10**6, (70, '%07.4f' % (10 + i % 49), 'S'), None if u is None else enc(u, at180))
                for i, u in enumerate(us_)]
        if split:
            paths = [c03.write(ctx, var, 'a', recs[:split]), c03.write(ctx, var, 'b', recs[split:])]
        else:
            paths = c03.write(ctx, var, 'a', recs)
        kw = {'decimate': dec} if dec > 1 else {}
        df = c03.read(var, paths, **kw)
        ctx.check(not nf.is_refusal(df), '%s: refused', what)
        sel = list(range(len(us_)))[::dec] if not split else list(range(len(us_)))
        got = nf.rows(df, ctx)
        ctx.check([g[0] for g in got] == [c03.rec_time(var, recs[i][0]) for i in sel], '%s: instants differ', what)
        judge(ctx, [g[2] for g in got], [us_[i] for i in sel], what, at180)
        ctx.trace()


def run(case, ctx):
    if case[0] == 'fmt':
        _, f, s, w = case
        us_ = build(s, w)
        one(ctx, f, us_, 0, 1, '%s start %.1f moves %s' % (f, s / 10, w))
        ctx.state((f, s, w))
        ctx.edge((f, s, w[:-1]), w[-1])
        return
    if case[0] == 'long':
        _, f, turns, drop, side = case
        us_, u, v = [], side * 1790, side
        for i in range(400):
            us_.append(None if drop and (i % 17 == 0 or drop > 3 and i % 40 < 3 * drop) and i else u)
            if turns and i and i % (400 // turns) == 0:
                v = -v
            u += v
        one(ctx, f, us_, 0, 1, 'long track %s' % case)
        one(ctx, f, us_, 150, 1, 'long track %s in two files' % case)
        one(ctx, f, us_, 0, 3, 'long track %s decimated' % case)
        for x in us_:
            ctx.state((case, x))
        ctx.edge(('long', turns), (f, drop, side))
        return
    s, pre, L, split, dec = case
    for tail in itertools.product(KINDS, repeat=max(0, L - len(pre))):
        w = pre + ''.join(tail)
        us_ = build(s, w)
        one(ctx, 'user', us_, split, dec, 'start %.1f moves %s%s' % (s / 10, w, ' split %d' % split if split else ''))
        ctx.state((s, w, split, dec))
        ctx.edge((s, w[:-1]), w[-1:])
