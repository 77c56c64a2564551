"""C01: every navigation fix carries the UTC instant its record encodes."""
import itertools
from . import navfmt as nf
from .cal import us, DAY, trunc, days_from_civil

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'per format: every day of 2016-2025 (one fix a day), every minute of the day x seconds {0,59}, every second '
             'of an hour, all decimal strings of 0-3 digits and boundary ones of 4-6, midnight grid of 7 dates x 11 fix '
             'times x 23 logger lags x fix spellings, record sequences up to length 4 over the line kinds (fixes, repeats, jumps, dated lines without a fix), Revelle sequences up to 7 lines of dated lines and fixes with or without one, 3 process time zones',
    'thorough': 'as quick with every day of 2000-2060, every second of the day, all 0-4 digit decimal strings and all '
                '5-6 digit ones at the extremes, 14 dates in the midnight grid, sequences up to length 5, Revelle dated and undated lines up to 10',
}
POS = (41, '31.403226', 'N'), (70, '40.311159', 'W')
SUP = {'Atlantis': [0, 1, 2, 3, 4, 5, 6], 'NBP': [0, 1, 2, 3, 4, 5, 6], 'Thompson': [0, 1, 2, 3, 4],
       'Revelle': [0, 1, 2, 3, 4, 5, 6], 'Ride': [0, 1, 2, 3, 6], 'RideGP': [1, 2, 3, 4, 5, 6],
       'Langseth': [1, 2, 3, 4, 5, 6], 'Sikuliaq': [1, 2, 3, 4, 5, 6]}
DATES = [(2023, 6, 16), (2023, 12, 31), (2024, 2, 28), (2024, 2, 29), (2023, 2, 28), (2024, 12, 31), (2022, 3, 31)]
DATES2 = DATES + [(2020, 12, 31), (2021, 1, 1), (2024, 9, 30), (2019, 3, 10), (2019, 11, 3), (2025, 7, 31), (2030, 1, 9)]
H = 3600 * 10**6
TODS = [0, 10**4, 999999, 10**6, 60 * 10**6, H, 6 * H, 12 * H, 18 * H, 23 * H + 59 * 60 * 10**6 + 58 * 10**6, DAY - 10**4]
LAGS = [0] + [s * x for x in (400000, 10**6, 1537000, 5 * 10**6, 60 * 10**6, 900 * 10**6, H, 5 * H, 10 * H + 1800 * 10**6, 11 * H + 2700 * 10**6, 12 * H - 5 * 10**6)
              for s in (1, -1)]
KINDS = ['F', 'G', 'D', 'J', 'O', 'B', 'E', 'P']


def groups(tier):
    q = tier == 'quick'
    fm = list(nf.FORMATS)
    yrs = range(2016, 2026) if q else range(2000, 2061)
    yield 'calendar', (['cal', f, y, nf.TZS[y % 3]] for f in fm for y in yrs), 2
    yield 'clock', (['clk', f, d, k] for f in fm for d in ((DATES[0], DATES[3]) if q else DATES2[:4])
                    for k in (range(5) if q else range(4, 28))), 1
    yield 'fractions', (['frac', f, n, lo] for f in fm for n in SUP[f] for lo in frac_blocks(n, q)), 2
    yield 'midnight', (['mid', f, d, tz, dg] for f in fm for d in (DATES if q else DATES2)
                       for tz in (nf.TZS if not q else [nf.TZS[1]]) for dg in (0, 2)), 2
    n = 4 if q else 5
    yield 'sequences', (['seq', f, p, n, nf.TZS[len(p) % 3]] for f in fm for p in
                        [''.join(x) for x in itertools.product(KINDS, repeat=2)]), 2
    yield 'undated', (['undated', 'Revelle', ''.join(p), 7 if q else 10, nf.TZS[i % 3]] for i, p in enumerate(itertools.product('ZSWO', repeat=3))), 2
    yield 'two-files', (['two', f, a, b] for f in fm for a in DATES for b in DATES), 8


def frac_blocks(n, q):
    if n <= 3:
        return [0]
    if n == 4:
        return [0] if q else range(0, 10000, 2000)
    return [0]


def frac_values(n, lo, tier):
    if n == 0:
        return ['']
    if n <= 3:
        return ['%0*d' % (n, v) for v in range(10**n)]
    if n == 4 and tier != 'quick':
        return ['%04d' % v for v in range(lo, lo + 2000)]
    top = 10**n
    v = sorted(set([0, 1, 2, 9, 10, 11, 99, 100, 249, 251, 489, 493, 999, 1001] +
                   [top - x for x in (1, 2, 9, 10, 11, 99, 100, 101, 999)] +
                   [top // 2 + x for x in (-1, 0, 1)] + [top // 10 * k for k in range(10)] +
                   [123456 % top, 654321 % top, 500001 % top]))
    if tier != 'quick':
        v = sorted(set(v + list(range(0, top, max(1, top // 997)))))
    return ['%0*d' % (n, x) for x in v if 0 <= x < top]


def compare(ctx, fmt, df, expect, what):
    ctx.check(not nf.is_refusal(df), '%s: refused', what)
    got = [r[0] for r in nf.rows(df, ctx)]
    ctx.check(len(got) == len(expect), '%s: %d instants, expected %d', what, len(got), len(expect))
    for g, e in zip(got, expect):
        ctx.check(g == e, '%s: stamped %d us, record encodes %d us (off by %s s)', what, g, e, (g - e) / 1e6)
    ctx.ev(len(expect))
    ctx.trace()


def run(case, ctx):
    kind, fmt = case[0], case[1]
    dg = nf.FORMATS[fmt][2]
    if kind == 'cal':
        y, tz = case[2], case[3]
        nf.set_tz(tz)
        lines, exp = [], []
        d0, d1 = days_from_civil(y, 1, 1), days_from_civil(y + 1, 1, 1)
        for i, d in enumerate(range(d0, d1)):
            t = d * DAY + (i * 7919 % 86400) * 10**6 + (i * 37 % 100) * 10**4
            lines += nf.fix_lines(fmt, t, *POS)
            exp.append(nf.recorded(fmt, t))
            ctx.state((fmt, 'day', d))
            ctx.edge((fmt, 'day', d - 1), d)
        p = ctx.write('n.gps', '\n'.join(lines) + '\n')
        compare(ctx, fmt, nf.read(fmt, p), exp, '%s calendar %d (TZ=%s)' % (fmt, y, tz))
    elif kind == 'clk':
        d, k = case[2], case[3]
        t0 = us(*d)
        if k == 0:
            secs = [m * 60 for m in range(0, 1440)]
        elif k == 1:
            secs = [m * 60 + 59 for m in range(0, 1440)]
        elif k == 2:
            secs = range(0, 3600)
        elif k == 3:
            secs = range(86400 - 3600, 86400)
        else:
            secs = range((k - 4) * 3600, (k - 3) * 3600)
        nf.set_tz(nf.TZS[k % 3])
        ts = [t0 + s * 10**6 for s in secs]
        lines = []
        for t in ts:
            lines += nf.fix_lines(fmt, t, *POS)
            ctx.state((fmt, 'tod', (t - t0) // 10**6))
            ctx.edge((fmt, 'tod'), (t - t0) // 10**6)
        p = ctx.write('n.gps', '\n'.join(lines) + '\n')
        compare(ctx, fmt, nf.read(fmt, p), [nf.recorded(fmt, t) for t in ts], '%s clock block %d' % (fmt, k))
    elif kind == 'frac':
        n, lo = case[2], case[3]
        lines, exp = [], []
        t0 = us(2023, 6, 16, 22, 0, 0)
        for i, f in enumerate(frac_values(n, lo, ctx.tier)):
            t = t0 + i * 10**6 + (int(f.ljust(6, '0')) if f else 0)
            lines += nf.fix_lines(fmt, t, *POS, digits=n)
            exp.append(nf.recorded(fmt, t, n))
            ctx.state((fmt, 'frac', f))
            ctx.edge((fmt, 'frac', n), f)
        p = ctx.write('n.gps', '\n'.join(lines) + '\n')
        compare(ctx, fmt, nf.read(fmt, p), exp, '%s decimals %d' % (fmt, n))
    elif kind == 'mid':
        d, tz, dg = case[2], case[3], case[4]
        nf.set_tz(tz)
        if fmt not in nf.GPS_CLOCK:
            # instant is the logger's: the clock inside the sentence must not matter
            for tod in TODS:
                for ck in ('000000.00', '235959.99', '120000'):
                    t = us(*d) + tod
                    dg1 = max(dg, 1)
                    p = ctx.write('n.gps', '\n'.join(nf.fix_lines(fmt, t, *POS, digits=dg1, clock=ck)) + '\n')
                    compare(ctx, fmt, nf.read(fmt, p), [nf.recorded(fmt, t, dg1)],
                            '%s %s clock %s' % (fmt, d, ck))
                    ctx.state((fmt, d, tod, ck))
                    ctx.edge((fmt, d, tod), ck)
            return
        for tod in TODS:
            t = us(*d) + tod
            for lag in LAGS:
                log = t + lag
                p = ctx.write('n.gps', '\n'.join(nf.fix_lines(fmt, t, *POS, digits=dg, log=log)) + '\n')
                compare(ctx, fmt, nf.read(fmt, p), [nf.recorded(fmt, t, dg)],
                        '%s fix at %s+%.2fs, logger %+.3f s later' % (fmt, d, tod / 1e6, lag / 1e6))
                ctx.state((fmt, d, tod, lag))
                ctx.edge((fmt, d, tod), lag)
                ctx.outcome('fix day vs logger day %+d' % (t // DAY - log // DAY))
    elif kind == 'seq':
        pre, depth, tz = case[2], case[3], case[4]
        nf.set_tz(tz)
        for L in range(0 if pre == KINDS[0] * 2 else depth - 2, depth - 1):
            for tail in itertools.product(KINDS, repeat=L):
                sequence(ctx, fmt, (pre if L or True else '') + ''.join(tail))
        if pre == 'FF':
            for k in KINDS:
                sequence(ctx, fmt, k)
    elif kind == 'undated':
        pre, depth, tz = case[2], case[3], case[4]
        nf.set_tz(tz)
        for L in range(depth - 3):
            for tail in itertools.product('ZSWO', repeat=L):
                undated(ctx, pre + ''.join(tail))
    elif kind == 'two':
        a, b = us(*case[2]) + 5 * H, us(*case[3]) + 5 * H + 2 * 10**6
        exp = sorted({nf.recorded(fmt, a), nf.recorded(fmt, b)})
        p1 = ctx.write('a.gps', '\n'.join(nf.fix_lines(fmt, a, *POS)) + '\n')
        p2 = ctx.write('b.gps', '\n'.join(nf.fix_lines(fmt, b, *POS)) + '\n')
        compare(ctx, fmt, nf.read(fmt, [p1, p2]), exp, '%s two files' % fmt)
        ctx.state((fmt, case[2], case[3]))
        ctx.edge((fmt, case[2]), case[3])


def undated(ctx, word):
    """Revelle: Z a dated line, S a fix, each 0.75 s after the line before; W some other line; O a fix far into the next
    day.  A fix without a dated line of its own may be refused, left out or dated rightly, never otherwise."""
    fmt = 'Revelle'
    t = us(2023, 12, 31, 23, 59, 57)
    lines, must, may, dated = [], [], [], False
    st = ('u', t)
    for k in word:
        t += 750000
        if k == 'Z':
            lines += nf.fix_lines(fmt, t, *POS)[:1]
            dated = True
        elif k == 'W':
            lines += nf.other_lines(fmt, t)[:1]
        else:
            if k == 'O':
                t += 5 * H
            lines += nf.fix_lines(fmt, t, *POS)[1:]
            (must if dated else may).append(nf.recorded(fmt, t))
            dated = False
        ctx.edge(st, k)
        st = ('u', t, dated, tuple(must), tuple(may))
        ctx.state(st)
    p = ctx.write('u.gps', '\n'.join(lines) + '\n')
    try:
        df = nf.read(fmt, p)
    except Exception as e:
        ctx.check(may, 'Revelle %s: every fix is dated, but %s: %s', word, type(e).__name__, e)
        ctx.outcome('undated fix: not read')
        ctx.trace()
        return
    if nf.is_refusal(df):
        ctx.check(may or not must, 'Revelle %s: refused', word)
        ctx.outcome('undated fix or none: refused')
        ctx.trace()
        return
    got = [r[0] for r in nf.rows(df, ctx)]
    ctx.check(set(must) <= set(got) <= set(must + may), 'Revelle lines %s: stamps %s, dated fixes %s, undated %s', word, got, must, may)
    ctx.ev(len(got))
    ctx.trace()
    ctx.outcome('undated: %d of %d' % (len(got), len(must) + len(may)))


def sequence(ctx, fmt, word):
    """F fix 1 s later; G fix 0.25 s later across a second boundary; D dropout fix; J garbage;
    O other talkers; B fix a minute back (out of order); E fix with no decimals;
    P a dated line without a fix, then nothing for a day and a half"""
    t = us(2023, 12, 31, 23, 59, 58) + 750000
    lines, exp = [], []
    st = (fmt, t)
    for i, k in enumerate(word):
        if k in 'FGDBE':
            t += {'F': 10**6, 'G': 250000, 'D': 10**6, 'B': -60 * 10**6, 'E': 2 * 10**6}[k]
            dg = None
            if k == 'E':
                dg = 0 if 0 in SUP[fmt] else 1
            la, lo = (None, None) if k == 'D' else POS
            lines += nf.fix_lines(fmt, t, la, lo, digits=dg)
            exp.append(nf.recorded(fmt, t, dg))
        elif k == 'P':
            lines += nf.dated_line(fmt, t)
            t += 3 * DAY // 2
        elif k == 'J':
            lines += ['# some remark 2001/01/01 11:11:11 $XXXXX,1,2', '']
        else:
            lines += nf.other_lines(fmt, t + 77 * 10**6)
        ctx.edge(st, k)
        st = (fmt, t, tuple(sorted(set(exp))))
        ctx.state(st)
    p = ctx.write('s.gps', '\n'.join(lines) + '\n')
    df = nf.read(fmt, p)
    if not exp:
        ctx.check(nf.is_refusal(df), '%s %r: no fix but not refused', fmt, word)
        ctx.outcome('refused')
        ctx.trace()
        return
    compare(ctx, fmt, df, sorted(set(exp)), '%s sequence %s' % (fmt, word))
    ctx.outcome('%d fixes' % len(set(exp)))
