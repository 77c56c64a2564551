"""C28: input that cannot be right is refused; input at the stated minimum is served."""
import itertools
import os
from . import gravfmt as gf
from . import navfmt as nf
from .cal import us

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'lengths: velocities every pair up to 24 x 4 containers, Eotvos every triple up to 7, tides every triple up to 6 and heights up to 8, course, rotation '
             'and free air every pair/triple in 2-8, tilt every quadruple over {2, 3, 5, 8}, smoothing every pair up to 40 x 44, cross-coupling each monitor short by 1-600, '
             'grids up to 9 x 9 against sizes one off, relief folding every coordinate size 4-9; 41 derivative orders; all band limits 5-60 km; '
             '26 things that are no status word; each of 1-4 files missing or a directory x 5 readers x vessels; 24 tags; refused and served calls in every order up to length 4',
    'thorough': 'velocities up to 60, Eotvos up to 12, tides up to 9, smoothing up to 120; orders of calls up to length 6',
}
CONT = 4


def groups(tier):
    q = tier == 'quick'
    m = 25 if q else 61
    yield 'velocities', (['vel', a, k] for a in range(m) for k in range(CONT)), 4
    yield 'no series', (['scalar'] for _ in range(1)), 1
    m = 8 if q else 13
    yield 'eotvos', (['eot', a, b] for a in range(m) for b in range(m)), 8
    m = 7 if q else 10
    yield 'tides', (['tide', a, b] for a in range(1, m) for b in range(1, m)), 6
    yield 'pairs', (['pair', a] for a in range(2, 9)), 1
    yield 'tilt', (['tilt', a, b] for a in (2, 3, 5, 8) for b in (2, 3, 5, 8)), 2
    yield 'smoothing', (['smooth', a] for a in range(41 if q else 121)), 3
    yield 'orders', (['order', a] for a in range(3, 12)), 3
    yield 'bands', (['band', a] for a in range(5, 61, 5)), 2
    yield 'grids', (['grid', a, b] for a in range(1, 10) for b in range(1, 10)), 4
    yield 'folding', (['fold', a, b] for a in range(4, 10) for b in range(4, 10)), 3
    yield 'monitors', (['mon', w, d] for w in range(5) for d in (-600, -300, -2, -1)), 2
    yield 'too short', (['short', n] for n in (0, 1, 500, 998, 999, 1000, 1001)), 1
    yield 'status', (['status'] for _ in range(1)), 1
    yield 'files', (['file', r, s, how] for r, s in READERS for how in ('missing', 'dir')), 2
    yield 'tags', (['tag', i] for i in range(len(TAGS))), 4
    for L in range(1, 5 if q else 7):
        yield 'orders of calls %d' % L, (['word', list(w)] for w in itertools.product(range(5), repeat=L)), 30


READERS = ([('nav', f) for f in nf.FORMATS] + [('bgm', s) for s in gf.SCALE] + [('rgs', s) for s in ('Atlantis', 'NBP')] +
           [('lap', s) for s in gf.LAP_SHIPS] + [('raw', s) for s in ('Atlantis', 'Thompson', 'Sikuliaq', 'Ride')])
TAGS = ['PASHX', 'pashr', 'PASH', 'ASHR', 'PASHRR', '$PASHX', '$pashr', '$PASH', '$$PASHR', '', '$', ' PASHR', 'PASHR ', 'PASHR,', '.ASHR', 'PASH.', 'PA.HR', 'HEHDT', '$HEHDT',
        'PHGGA', '$PHGGA', 'format', 'fields', '*']


def refused(f, *a, **kw):
    """None if the call was refused, else what it returned"""
    try:
        r = f(*a, **kw)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception:
        return None
    return None if r is None or nf.is_refusal(r) else (r,)


def must(ctx, served, what, f, *a, **kw):
    """-> the result (served) or None (refused)"""
    r = refused(f, *a, **kw)
    ctx.trace()
    ctx.ev()
    ctx.state(what)
    ctx.edge(f.__name__, what)
    if served:
        ctx.outcome('served: ' + f.__name__)
        if r is None:
            f(*a, **kw)         # shows the exception
        ctx.check(r is not None, '%s: refused', what)
        return r[0]
    ctx.outcome('refused: ' + f.__name__)
    ctx.check(r is None, '%s: not refused, returned %s', what, repr(r)[:200])


def seq(k, n, lo):
    import numpy as np
    import pandas as pd
    v = [lo + 1e-4 * i + 1e-6 * (i % 3) for i in range(n)]
    return v if k == 0 else np.array(v) if k == 1 else pd.Series(v, dtype=float) if k == 2 else tuple(v)


def stamps(n):
    import datetime as dt
    t = dt.datetime(2024, 2, 28, 23, 59, 57, tzinfo=dt.timezone.utc)
    return [t + dt.timedelta(seconds=i) for i in range(n)]


def sizes(ctx, r, n, what):
    import numpy as np
    for x in r if isinstance(r, tuple) else (r,):
        ctx.check(np.shape(x)[-1:] == (n,), '%s: result of shape %s', what, np.shape(x))


def run(case, ctx):
    import numpy as np
    import pandas as pd
    from shipgrav import grav, nav, utils
    import shipgrav.io as sgi
    k = case[0]
    if k == 'vel':
        a, c = case[1:]
        for b in range(25 if ctx.tier == 'quick' else 61):
            what = 'latlon_to_EN of %d longitudes and %d latitudes (container %d)' % (a, b, c)
            r = must(ctx, a == b and a > 10, what, nav.latlon_to_EN, seq(c, a, 170), seq(c, b, -40))
            if r:
                sizes(ctx, r, a, what)
    elif k == 'scalar':
        for x in (3, 3.5, None, np.float64(2)):
            for y in (x, seq(1, 12, 5)):
                for a, b in ((x, y), (y, x)):
                    must(ctx, False, 'latlon_to_EN(%r, %r)' % (a, b), nav.latlon_to_EN, a, b)
    elif k == 'eot':
        a, b = case[1:]
        for c in range(8 if ctx.tier == 'quick' else 13):
            what = 'eotvos_full of %d longitudes, %d latitudes, %d heights' % (a, b, c)
            r = must(ctx, a == b == c and a > 2, what, grav.eotvos_full, seq(1, a, 170), seq(1, b, -40), seq(1, c, 0), 1)
            if r is not None:
                sizes(ctx, r, a, what)
    elif k == 'tide':
        a, b = case[1:]
        for c in range(1, 7 if ctx.tier == 'quick' else 10):
            for comp in (False, True):
                what = 'tide of %d longitudes, %d latitudes, %d times%s' % (a, b, c, ', components' * comp)
                r = must(ctx, a == b == c, what, grav.longman_tide_prediction, seq(1, a, 170), seq(1, b, -40), stamps(c), return_components=comp)
                if r is not None:
                    sizes(ctx, r, a, what)
        if a == b:
            for h in range(2, 9):
                what = 'tide of %d places and %d heights' % (a, h)
                if a > 1:           # one place at several heights is a matter of taste
                    must(ctx, h == a, what, grav.longman_tide_prediction, seq(1, a, 170), seq(1, a, -40), stamps(a), alt=seq(1, h, 0))
    elif k == 'pair':
        a = case[1]
        for b in range(2, 9):
            for name, f in (('course', nav.ENvel_to_course_heading), ('free air', grav.free_air_second_order)):
                what = '%s of %d and %d' % (name, a, b)
                r = must(ctx, a == b, what, f, seq(1, a, 3), seq(1, b, 4))
                if r is not None:
                    sizes(ctx, r, a, what)
            for c in range(2, 9):
                what = 'rotation of %d, %d, %d' % (a, b, c)
                r = must(ctx, a == b == c, what, nav.rotate_acceleration_EN_to_cl, seq(1, a, 3), seq(1, b, 4), seq(1, c, 5))
                if r is not None:
                    sizes(ctx, r, a, what)
    elif k == 'tilt':
        a, b = case[1:]
        for c, d in itertools.product((2, 3, 5, 8), repeat=2):
            what = 'up_vecs of %d, %d, %d, %d' % (a, b, c, d)
            r = must(ctx, a == b == c == d, what, grav.up_vecs, 1, seq(1, a, 980000), seq(1, b, 3), seq(1, c, 5), np.zeros(d), 240, .7, 240, .7)
            if r is not None:
                sizes(ctx, r, a, what)
    elif k == 'smooth':
        n = case[1]
        for fl in range(1, 45 if ctx.tier == 'quick' else 125):
            for c in (0, 1, 2):
                what = 'smoothing of %d samples over %d (container %d)' % (n, fl, c)
                r = must(ctx, n > fl, what, utils.gaussian_filter, seq(c, n, 1), fl)
                if r is not None:
                    sizes(ctx, r, n, what)
    elif k == 'order':
        y = seq(1, case[1], 7)
        for o in list(range(-6, 12)) + [100, 0.5, 1.5, 2.5, -1.0, '1', '2', None, (1,), [2]] + [x / 8 for x in range(9, 16) if x != 12] + [1e9, float('nan'), float('inf')]:
            must(ctx, o in (1, 2) and not isinstance(o, str), 'derivative of order %r' % (o,), grav.center_diff, y, o, 1)
    elif k == 'band':
        a = case[1]
        u = np.sin(np.arange(64) / 5)
        for b in list(range(5, 61, 5)) + [a, a + 1e-6, a - 1e-6, a + 0.5]:
            for back in (False, True):
                must(ctx, a > b, 'crust between %r and %r km' % (a, b), grav.crustal_thickness_2D, u, nx=64, wlarge=a, wsmall=b, back=back)
    elif k == 'grid':
        a, b = case[1:]
        u = np.arange(a * b) % 7.0
        for nx, ny in itertools.product(range(max(1, a - 2), a + 3), range(max(1, b - 2), b + 3)):
            must(ctx, nx * ny == a * b, 'crust on a grid of %d x %d given %d values' % (nx, ny, a * b), grav.crustal_thickness_2D, u, nx=nx, ny=ny, dy=1.0 if ny > 1 else 0)
    elif k == 'fold':
        a, b = case[1:]
        for c, d in itertools.product(range(4, 10), repeat=2):
            what = 'gravity of relief of %d rows, %d columns at %d abscissas, %d ordinates' % (c, d, a, b)
            r = must(ctx, (b, a) == (c, d), what, grav.grav2d_folding, np.arange(a) * 1.0, np.arange(b) * 1.0, np.ones((c, d)) - np.eye(c, d), 1.0, 1.0)
            if r is not None:
                ctx.check(np.shape(r) == (c, d), '%s: result of shape %s', what, np.shape(r))
    elif k in ('mon', 'short'):
        n = 1500 if k == 'mon' else case[1]
        ln = [n] * 5
        if k == 'mon':
            ln[case[1]] += case[2]
        i = np.arange(2200)
        cols = [np.sin(i / (30.0 + 7 * j)) * (3 + j) + ((i * (j + 5) * 7919) % 101) * 0.02 for j in range(5)]
        for t in (None, np.arange(n) + 1.7e9):
            kw = {} if t is None else {'times': t}
            must(ctx, k == 'short' and n >= 1000, 'cross-coupling of an anomaly of %d samples and monitors of %s' % (n, ln), grav.calc_cross_coupling_coefficients,
                 -sum(c[:n] for c in cols), *[c[:m] for c, m in zip(cols, ln)], **kw)
    elif k == 'status':
        good = pd.DataFrame({'status': [5, 6], 'x': [1, 2]})
        for x in ('5', b'5', 5.0, -3.5, None, [], [5], (5,), {'status': 5}, {5}, 1j, np.array([5, 6]), np.array([]), pd.Series([5, 6]), pd.Series([], dtype=int),
                  object(), float('nan'), range(3), slice(3), '0000000000000101', '', (), pd.Index([5]), int, np.float64(5), good['status']):
            must(ctx, False, 'status word %r' % (x if not hasattr(x, '__dict__') else type(x),), utils.decode_dgs_status_bits, x)
        for key in ('Status', 'x ', '', 'status ', 0, None):
            must(ctx, False, 'status words in column %r' % (key,), utils.decode_dgs_status_bits, good.copy(), key)
        must(ctx, True, 'status words', utils.decode_dgs_status_bits, good.copy())
        must(ctx, True, 'status words in x', utils.decode_dgs_status_bits, good.copy(), 'x')
        must(ctx, True, 'status word 5', utils.decode_dgs_status_bits, 5)
    elif k == 'file':
        _, r, s, how = case
        for n in range(1, 5):
            paths = [good_file(ctx, r, s, j) for j in range(n)]
            must(ctx, True, '%s of %s, %d files' % (r, s, n), read, r, s, paths)
            for at in range(n):
                bad = list(paths)
                bad[at] = ctx.path('nothing') if how == 'missing' else ctx.tmp
                what = '%s of %s, file %d of %d %s' % (r, s, at, n, how)
                must(ctx, False, what, read, r, s, bad)
                ctx.check(not os.path.exists(ctx.path('nothing')), '%s: the file was made', what)
            if n == 1:
                must(ctx, False, '%s of %s, a path that is %s' % (r, s, how), read, r, s, ctx.path('nothing') if how == 'missing' else ctx.tmp)
    elif k == 'tag':
        from .c10 import YAML
        y = ctx.write('y.yaml', YAML)
        log = ctx.write('log', '2023-06-16T00:00:02Z $PASHR,1.5,180,T,-0.2,0.3,0.1,0*3C\nPASHX $PASHRR,1\n$HEHDX,3\n')
        must(ctx, False, 'feed %r' % TAGS[case[1]], sgi.read_other_stuff, y, log, TAGS[case[1]])
        for t in ('PASHR', '$PASHR'):
            ctx.check(len(must(ctx, True, 'feed ' + t, sgi.read_other_stuff, y, log, t)[0]) == 1, 'feed %s: not one record', t)
            for a, b in ((ctx.path('none'), log), (y, ctx.path('none')), (y, ctx.write('empty', ''))):
                must(ctx, False, 'feed %s of %s, %s' % (t, os.path.basename(a), os.path.basename(b)), sgi.read_other_stuff, a, b, t)
        must(ctx, False, 'conversion of a missing .ini', utils.clean_ini_to_toml, ctx.path('none.ini'))
        ctx.check(not os.path.exists(ctx.path('none.toml')), 'conversion of a missing .ini left a result')
    else:
        word(ctx, case[1])


def good_file(ctx, r, s, j):
    t0 = us(2024, 2, 29, 23, 59, 58) + j * 10 * 10**6
    ts = [t0 + i * 10**6 for i in range(3)]
    if r == 'nav':
        lines = [x for i, t in enumerate(ts) for x in nf.fix_lines(s, t, (10, '%07.4f' % (5 + i), 'N'), (120, '%07.4f' % (9 + i), 'W'))]
    elif r == 'bgm':
        lines = [gf.bgm_line(s, t, 25000 + i) for i, t in enumerate(ts)]
    elif r == 'rgs':
        lines = [gf.rgs_line(t, '980000.125', '10.5', '-20.25') for t in ts]
    elif r == 'lap':
        lines = gf.lap_header(s) + [gf.lap_line(s, t, i) for i, t in enumerate(ts)]
    else:
        lines = gf.raw_header(s) + [gf.raw_line(s, t, i) for i, t in enumerate(ts)]
    return ctx.write('%s%d' % (r, j), '\n'.join(lines) + '\n')


def read(r, s, paths):
    import shipgrav.io as sgi
    if r == 'nav':
        return nf.read(s, paths)
    f = {'bgm': sgi.read_bgm_raw, 'rgs': sgi.read_bgm_rgs, 'lap': sgi.read_dgs_laptop, 'raw': sgi.read_dgs_raw}[r]
    return f(paths, s, progressbar=False)


_alone = {}


def word(ctx, w):
    """served calls between refused ones answer as they do alone"""
    import numpy as np
    from shipgrav import grav, nav, utils
    t = stamps(12)
    ok = [lambda n: nav.latlon_to_EN(seq(1, n, 170), seq(1, n, -40)), lambda n: utils.gaussian_filter(seq(1, n, 1), 11),
          lambda n: grav.eotvos_full(seq(1, n, 170), seq(1, 12, -40), seq(1, n, 0), 1), lambda n: grav.longman_tide_prediction(seq(1, 12, 170), seq(1, n, -40), t),
          lambda n: grav.crustal_thickness_2D(seq(1, n, 1), nx=12)]
    if not _alone:
        for i, f in enumerate(ok):
            _alone[i] = [np.array(x) for x in (lambda r: r if isinstance(r, tuple) else (r,))(f(12))]
    for j, i in enumerate(w):
        what = 'calls %s, call %d' % (w, j)
        ctx.check(refused(ok[i], 10) is None, '%s: not refused', what)
        for m in range(len(ok)):
            r = ok[m](12)
            for a, b in zip(r if isinstance(r, tuple) else (r,), _alone[m]):
                ctx.check(np.array_equal(np.asarray(a), b, equal_nan=True), '%s: a served call answers differently after it', what)
        ctx.trace()
        ctx.ev()
        ctx.state(tuple(w[:j + 1]))
        ctx.edge(tuple(w[:j]), i)
    ctx.outcome('%d calls' % len(w))
