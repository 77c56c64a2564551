"""C06: readers dispatch by vessel; overrides win; unsupported vessels are refused with -999."""
import itertools
from . import gravfmt as gf
from . import navfmt as nf
from .cal import us, T

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '18 vessel names x (navigation: 4 talkers x own function or not x every sequence of up to 4 files over 4 talker '
             'contents; BGM serial: 9 scales x own function or not x 1-3 files; RGS, DGS laptop with or without own function, '
             'DGS serial: 1-3 files)',
    'thorough': 'navigation file sequences up to length 5 without own function, 1-6 files elsewhere, 40 vessel names',
}
NAV = {'Atlantis': 'GPGGA', 'Thompson': 'INGGA', 'NBP': 'GPGGA', 'Ride': 'INGGA', 'Revelle': 'GPGGA',
       'Langseth': 'INGGA', 'Sikuliaq': 'GPGGA'}
BGM = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}
RGS = ['Atlantis', 'NBP']
LAP = ['Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth']
NAMES = ['Atlantis', 'Thompson', 'NBP', 'Ride', 'Revelle', 'Langseth', 'Sikuliaq', 'DGStest',
         'Kilo Moana', 'Endeavor', '', 'atlantis', 'ATLANTIS', 'Roger Revelle', 'Atlanti', 'Atlantis ', 'calibration_factor', 'BGM-scale']
MORE = ['Ri', 'RideX', 'thompson', 'TN', 'NBP2', 'nbp', 'Palmer', 'Sally Ride', 'langseth', 'MGL', 'SKQ', 'sikuliaq', 'Healy',
        'Hugh Sharp', 'Pelagia', 'GPGGA', 'INGGA', 'dgstest', 'DGS', 'DGStest2', 'None', '0']
SCALES = [None, 1.0, 5.1, 0, 0.0, -2.5, 1, 4.994070552, 1e6]
TALK = [None, 'GPGGA', 'INGGA', 'XXGGA']
KINDS = 'GIBN'      # the file has GPGGA only, INGGA only, both, neither


def groups(tier):
    q = tier == 'quick'
    names = NAMES if q else NAMES + MORE
    for L in range(1, 5):
        yield 'nav %d files' % L, (['nav', s, tk, ''.join(w), fn] for s in names for tk in TALK
                                   for w in itertools.product(KINDS, repeat=L)
                                   for fn in (0, 1)
                                   if s in NAV or L < 3), 60
    if not q:
        yield 'nav 5 files', (['nav', s, tk, ''.join(w), 0] for s in NAV for tk in TALK
                              for w in itertools.product(KINDS, repeat=5)), 60
    n = range(1, 4 if q else 7)
    yield 'bgm', (['bgm', s, sc, fn, k] for s in names for sc in SCALES for fn in (0, 1) for k in n), 40
    yield 'rgs', (['rgs', s, None, 0, k] for s in names for k in n), 10
    yield 'laptop', (['lap', s, None, fn, k] for s in names for fn in (0, 1) for k in n), 10
    yield 'serial', (['raw', s, None, 0, k] for s in names for k in n), 10


T0 = us(2023, 5, 6, 23, 59, 57)


def navfile(ctx, ship, j, kind):
    """a nav file; -> path, text lines, {talker: [(us, lat, lon)]}"""
    fixes = {'GPGGA': [], 'INGGA': []}
    lines = []
    base = ship if ship in NAV else 'Atlantis'
    for i in range(3):
        for o, tk in enumerate(('INGGA', 'GPGGA')):
            if kind == 'N' or kind == 'G' and tk != 'GPGGA' or kind == 'I' and tk != 'INGGA':
                continue
            t = T0 + (10 * j + 2 * i + o) * 10**6
            lat, lon = (20 + j, '%07.4f' % (10 + i + 20 * o), 'NS'[o]), (100 + j, '%07.4f' % (5 + i + 20 * o), 'EW'[o])
            fmt = 'RideGP' if base == 'Ride' and tk == 'GPGGA' else base
            lines += nf.fix_lines(fmt, t, lat, lon, talker=tk)
            fixes[tk].append((nf.recorded(fmt, t), *nf.position(lat, lon)))
        lines += nf.other_lines(base, T0 + (10 * j + 2 * i) * 10**6)
    p = ctx.write('n%d' % ((7 * j + 5) % 10), '\n'.join(lines) + '\n')
    return p, [x + '\n' for x in lines], fixes


def nav(ctx, ship, tk, word, fn):
    import numpy as np
    import datetime as dt
    import shipgrav.io as sgi
    files = [navfile(ctx, ship, j, k) for j, k in enumerate(word)]
    what = 'read_nav(%r, talker=%r, files %s%s)' % (ship, tk, word, ', own function' if fn else '')
    calls = []

    def own(lines, talker):
        calls.append((list(lines), talker))
        j = len(calls)
        st = np.array([dt.datetime(2001, 2, 3, 4, 5, 10 * j + i, tzinfo=dt.timezone.utc) for i in range(3)])
        return np.array([j + .25, j + .5, j + .75]), np.array([-j, -j - .5, -j - .25]), st

    kw = {'ship_function': own} if fn else {}
    if tk is not None:
        kw['talker'] = tk
    known = ship in NAV
    use = tk if tk is not None else NAV.get(ship)
    paths = [f[0] for f in files]
    if len(paths) == 1 and tk is None:
        paths = paths[0]
    df = sgi.read_nav(ship, paths, progressbar=False, **kw)
    ctx.trace()
    ctx.ev()
    ctx.state(('nav', ship, tk, word, fn))
    ctx.edge(('nav', ship, tk, word[:-1]), (word[-1], fn))
    if fn and use is None or not fn and not known:
        ctx.check(nf.is_refusal(df), '%s: not refused', what)
        ctx.check(not calls, '%s: refused, but own function was called', what)
        ctx.outcome('nav refused: vessel or talker not known')
        return
    if fn:
        ctx.check(not nf.is_refusal(df), '%s: refused', what)
        ctx.check([c[0] for c in calls] == [f[1] for f in files], '%s: own function not called with the lines of each file '
                  'in order (%d calls)', what, len(calls))
        ctx.check(all(c[1] == use for c in calls), '%s: own function got talkers %s', what, [c[1] for c in calls])
        want = sorted((us(2001, 2, 3, 4, 5, 10 * j + i), -j - (0, .5, .25)[i], j + (.25, .5, .75)[i])
                      for j in range(1, len(word) + 1) for i in range(3))
        ctx.outcome('nav by own function')
    else:
        if any(not f[2].get(use) for f in files):
            ctx.check(nf.is_refusal(df), '%s: not refused though a file has no %s', what, use)
            ctx.outcome('nav refused: talker absent')
            return
        if ship == 'Sikuliaq' and use != 'GPGGA':
            if nf.is_refusal(df):           # only GPGGA is documented for her
                ctx.outcome('nav refused: Sikuliaq talker')
                return
        ctx.check(not nf.is_refusal(df), '%s: refused', what)
        want = [x for f in files for x in f[2][use]]
        ctx.outcome('nav read with %s' % use)
    got = nf.rows(df, ctx)
    ctx.check(len(got) == len(want), '%s: %d fixes, expected %d', what, len(got), len(want))
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0] and nf.same(g[1], w[1]) and nf.same(g[2], w[2]), '%s: got %s, expected %s', what, g, w)


def run(case, ctx):
    import pandas as pd
    import shipgrav.io as sgi
    if case[0] == 'nav':
        return nav(ctx, *case[1:])
    kind, ship, scale, fn, n = case
    calls = []

    def own(path):
        calls.append(path)
        j = len(calls)
        return pd.DataFrame({'counts': [100 * j, 100 * j + 7], 'rgrav': [j * 1.5, j * 2.5],
                             'date_time': pd.to_datetime(['2003-01-02 03:04:%02d' % (10 + j), '2003-01-02 03:04:%02d' % (30 + j)],
                                                         utc=True)})

    paths, want = [], []
    for j in range(n):
        recs = [(T0 + (100 * j + i) * 10**6, 10 * j + i) for i in range(3)]
        if kind == 'bgm':
            fmt = ship if ship in BGM else 'Thompson'
            paths.append(ctx.write('b%d' % ((7 * j + 5) % 10), ''.join(gf.bgm_line(fmt, t, 25000 + 13 * i) + '\n' for t, i in recs)))
            sc = scale if scale is not None else BGM.get(ship)
            if sc is not None:
                want += [({'counts': 25000 + 13 * i, 'rgrav': sc * (25000 + 13 * i)}, t) for t, i in recs]
        elif kind == 'rgs':
            paths.append(ctx.write('r%d' % ((7 * j + 5) % 10), ''.join(gf.rgs_line(t, '%.2f' % (855000 + i), '%.6f' % (10 + i), '%.6f' % (-20 - i)) + '\n'
                                                      for t, i in recs)))
            want += [({'grav': 855000 + i, 'lat': 10 + i, 'lon': -20 - i}, t) for t, i in recs]
        elif kind == 'lap':
            fmt = ship if ship in LAP else 'Ride'
            paths.append(ctx.write('l%d' % ((7 * j + 5) % 10), ''.join(x + '\n' for x in gf.lap_header(fmt) + [gf.lap_line(fmt, t, i) for t, i in recs])))
            want += [gf.lap_expect(fmt, t, i) for t, i in recs]
        else:
            paths.append(ctx.write('s%d' % ((7 * j + 5) % 10), ''.join(x + '\n' for x in gf.raw_header(ship) + [gf.raw_line(ship, t, i) for t, i in recs])))
            want += [gf.raw_expect(ship, t, i) for t, i in recs]
    kw = {'ship_function': own} if fn else {}
    if scale is not None:
        kw['scale'] = scale
    arg = paths[0] if n == 1 else paths
    what = '%s read of %r (%s%s, %d files)' % (kind, ship, 'scale %r' % scale if scale is not None else '', ' own function' if fn else '', n)
    f = {'bgm': sgi.read_bgm_raw, 'rgs': sgi.read_bgm_rgs, 'lap': sgi.read_dgs_laptop, 'raw': sgi.read_dgs_raw}[kind]
    df = f(arg, ship, progressbar=False, **kw)
    ctx.trace()
    ctx.ev()
    ctx.state((kind, ship, scale, fn, n))
    ctx.edge((kind, ship, scale, fn), n)
    ok = {'bgm': (ship in BGM or scale is not None) if fn else ship in BGM, 'rgs': ship in RGS,
          'lap': fn or ship in LAP, 'raw': True}[kind]
    if not ok:
        ctx.check(nf.is_refusal(df), '%s: not refused', what)
        ctx.check(not calls, '%s: refused, but own function was called', what)
        ctx.outcome('%s refused' % kind)
        return
    if fn:
        ctx.check(not nf.is_refusal(df), '%s: refused', what)
        ctx.check(calls == paths, '%s: own function called with %s', what, calls)
        sc = scale if scale is not None else BGM.get(ship)
        want = []
        for j in range(1, n + 1):
            for m in range(2):
                c = 100 * j + 7 * m
                want.append(({'counts': c, 'rgrav': sc * c if kind == 'bgm' else j * (1.5 + m)},
                             us(2003, 1, 2, 3, 4, 10 + 20 * m + j)))
    gf.compare(ctx, df, want, what)
    ctx.outcome('%s read%s' % (kind, ' by own function' if fn else ''))
