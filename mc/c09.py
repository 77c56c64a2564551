"""C09: DGS serial reads map every channel, scale cross-coupling monitors, find the time."""
import itertools
from . import gravfmt as gf
from . import navfmt as nf
from .cal import us, DAY, days_from_civil
from .c03 import splits

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '5 vessel formats (general x3 names, Thompson, Sikuliaq) x meter clock synchronised or not x logger prefix or not: '
             'every day of 2019-2025, every minute of a day, record sequences up to length 4 over 4 kinds x every split into files '
             '(files with synchronised and unsynchronised clocks mixed in a list) x scaling on/off/default, 1-132000 rows; every channel x ordered pairs of 22 number texts with 5 of them; 8 string names and 18 texts in each field that is not read; lists of 5-130 files of all orders of sizes; lists of up to 4 files with ones without records anywhere',
    'thorough': 'every day of 2000-2050, every second of a day, sequences up to length 6 over 3 kinds',
}
# (ship, synced, bare)
MODES = [('Ride', True, False), ('Ride', False, False), ('Atlantis', True, True), ('Revelle', False, False),
         ('NBP', True, False), ('Nowhere', False, False), ('Ride', False, True), ('Thompson', False, False),
         ('Sikuliaq', False, False)]
KINDS = 'FBRM'
HEADS = ['$AT1M_', '$AT1M_3.64_0', '$AT1M_v 2.1 beta', '$AT1M_#1', '$AT1M_x-y/z', '$AT1M_' + 'x' * 200, '$AT1M_T12:00:00Z', '$AT1M_2023-01-01']
IDLE = ['abc', '-', "it's", '*5A', '//', '$', '%', '1e999', 'nan', 'NA', '', ' ', '1;2', '1 2', '\u00e9', '.', '1.2.3', 'x' * 300]


def groups(tier):
    q = tier == 'quick'
    M = range(len(MODES))
    yield 'calendar', (['cal', m, y, nf.TZS[y % 3]] for m in M for y in (range(2019, 2026) if q else range(2000, 2051))), 1
    yield 'clock', (['clk', m, k] for m in M for k in (range(2) if q else range(2, 26))), 1
    for L in range(1, (4 if q else 6) + 1):
        yield 'records %d' % L, (['seq', m, ''.join(w), nf.TZS[L % 3]] for m in M
                                 for w in itertools.product(KINDS if L < 4 else 'FBR', repeat=L)), 8
    yield 'values', (['val', m, n] for m in M for n in (gf.RAW_NAMES[1:18] if MODES[m][0] != 'Sikuliaq' else gf.RAW_SKQ.values())), 1
    yield 'idle fields', (['idle', m, f] for m in M for f in range(19)), 2
    yield 'mixed clocks', (['mix', a, b, c] for a in range(4) for b in range(4) for c in range(4)), 4
    yield 'sizes', (['size', m, n] for m in M for n in (1, 2, 99, 100, 101, 6000)), 1
    yield 'many files', (['many', m, n, p] for m in M for n in (gf.MANY if q else gf.MANY + [260, 600]) for p in gf.PATTERNS), 4
    yield 'empty files', (['none', m] for m in M), 1
    yield 'big', (['big', m] for m in M), 1


def read(ship, paths, **kw):
    import shipgrav.io as sgi
    return sgi.read_dgs_raw(paths, ship, progressbar=False, **kw)


def lag(i):
    return [0, 1600000, -700000, 3 * 10**6][i % 4]


def write(ctx, mode, name, recs, final=True):
    ship, synced, bare = mode
    lines = gf.raw_header(ship) + [gf.raw_line(ship, t, i, synced, log=t + (lag(i) if synced else 0), bare=bare) for t, i in recs]
    return ctx.write(name, '\n'.join(lines) + ('\n' if final else ''))


def expect(mode, r, scale=True):
    ship, synced, bare = mode
    return gf.raw_expect(ship, r[0], r[1], synced, log=r[0] + (lag(r[1]) if synced else 0), scale=scale)


def has_time(mode):
    return None if mode[2] and not mode[1] else 'date_time'


def check(ctx, mode, paths, recs, what, tz=None):
    for kw, sc in (({}, True), ({'scale_ccp': True}, True), ({'scale_ccp': False}, False)):
        gf.compare(ctx, read(mode[0], paths, **kw), [expect(mode, r, sc) for r in recs], '%s %s %s' % (mode, what, kw),
                   time=has_time(mode))


def run(case, ctx):
    kind = case[0]
    if kind == 'mix':
        return mix(ctx, case[1:])
    mode = MODES[case[1]]
    if kind == 'cal':
        nf.set_tz(case[3])
        recs = [(d * DAY + (i * 7919 % 86400) * 10**6 + 857719, i)
                for i, d in enumerate(range(days_from_civil(case[2], 1, 1), days_from_civil(case[2] + 1, 1, 1)))]
        check(ctx, mode, write(ctx, mode, 'x', recs), recs, 'calendar %d' % case[2])
        for t, i in recs:
            ctx.state((mode, t))
        ctx.edge(mode, case[2])
    elif kind == 'clk':
        t0, k = us(2024, 2, 29), case[2]
        secs = range(0, 86400, 60) if k == 0 else range(82800, 86400) if k == 1 else range((k - 2) * 3600, (k - 1) * 3600)
        recs = [(t0 + x * 10**6 + (j * 37 % 1000) * 1000 + (j % 10) * 100, j) for j, x in enumerate(secs)]
        check(ctx, mode, write(ctx, mode, 'x', recs), recs, 'clock %d' % k)
        for t, i in recs:
            ctx.state((mode, t))
        ctx.edge(mode, ('clk', k))
    elif kind == 'val':
        t0, name = us(2022, 7, 1, 12, 0, 0), case[2]
        for a, b in gf.text_pairs():
            for sc in (True, False):
                lines, want = gf.raw_header(mode[0])[:], []
                for i, x in enumerate([a] if b is None else [a, b]):
                    t = t0 + i * 10**6
                    lines.append(gf.raw_line(mode[0], t, i, mode[1], bare=mode[2], over={name: x}))
                    want.append(gf.raw_expect(mode[0], t, i, mode[1], scale=sc, over={name: x}))
                p = ctx.write('v', '\n'.join(lines) + '\n')
                gf.compare(ctx, read(mode[0], p, **({} if sc else {'scale_ccp': False})), want,
                           '%s %s = %r, %r scaling %s' % (mode, name, a, b, sc), time=has_time(mode))
                ctx.state((mode, name, a, b))
                ctx.edge((mode, name, a), b)
    elif kind == 'idle':
        # the name of the string, and fields that are not read, have no influence
        f, t0 = case[2], us(2022, 7, 1, 12, 0, 0) + 634000
        if f and (mode[0] != 'Sikuliaq' or f == 18 or gf.RAW_NAMES[f] in gf.RAW_SKQ.values()):
            ctx.outcome('read')
            return
        for pat in ('X', 'GX', 'XG', 'GXGX'):
            for a in HEADS if f == 0 else IDLE:
                if '#' in a and mode[0] == 'Sikuliaq':
                    continue
                lines, recs = gf.raw_header(mode[0])[:], []
                for i, k in enumerate(pat):
                    r = (t0 + i * 10**6, i)
                    ln = gf.raw_line(mode[0], r[0], i, mode[1], log=r[0] + (lag(i) if mode[1] else 0), bare=mode[2])
                    if k == 'X':
                        at = ln.index('$')
                        fl = ln[at:].split(',')
                        fl[f] = a
                        ln = ln[:at] + ','.join(fl)
                    lines.append(ln)
                    recs.append(r)
                p = ctx.write('i', '\n'.join(lines) + '\n')
                gf.compare(ctx, read(mode[0], p), [expect(mode, r) for r in recs], '%s %s: field %d = %r' % (mode, pat, f, a[:20]), time=has_time(mode))
                ctx.state((mode, f, a, pat))
                ctx.edge((mode, f), (a, pat))
        ctx.outcome('idle')
    elif kind == 'size':
        t0 = us(2023, 12, 31, 23, 0, 0)
        recs = [(t0 + j * 10**6 + 634000, j) for j in range(case[2])]
        check(ctx, mode, write(ctx, mode, 'x', recs), recs, '%d rows' % case[2])
        ctx.state((mode, 'size', case[2]))
    elif kind == 'many':
        n, sizes, t0 = case[2], gf.many(*case[2:]), us(2023, 12, 31, 23, 58, 0) + 634000
        recs, paths, i = [(t0 + k * 10**6, k) for k in range(sum(sizes))], [], 0
        for j, m in enumerate(sizes):
            paths.append(write(ctx, mode, 'q%d' % ((41 * j + 17) % n), recs[i:i + m]))
            i += m
        gf.compare(ctx, read(mode[0], paths), [expect(mode, r) for r in recs], '%s %d files, %s' % (str(mode), n, case[3]), time=has_time(mode))
        ctx.state((mode, n, case[3]))
        ctx.edge((mode, n), case[3])
    elif kind == 'none':
        recs = [[(us(2023, 12, 31, 23, 59, 58) + (3 * j + i) * 10**6, 3 * j + i) for i in range(2)] for j in range(4)]
        paths = [write(ctx, mode, 'n%d' % j, r) for j, r in enumerate(recs)]
        blanks = [ctx.write('e', ''.join(x + '\n' for x in gf.raw_header(mode[0]))), ctx.write('l', '\n')]
        for sc in (True, False):
            gf.with_empties(ctx, lambda p: read(mode[0], p, **({} if sc else {'scale_ccp': False})), lambda j: paths[j], blanks,
                            lambda j: [expect(mode, r, sc) for r in recs[j]], '%s scaling %s' % (mode, sc), time=has_time(mode))
    elif kind == 'big':
        block = [(us(2023, 12, 31, 23, 50, 0) + j * 10**6 + 634000, j) for j in range(1000)]
        h = '\n'.join(gf.raw_header(mode[0]) + [''])
        t = '\n'.join(gf.raw_line(mode[0], r[0], r[1], mode[1], log=r[0] + (lag(r[1]) if mode[1] else 0), bare=mode[2]) for r in block) + '\n'
        p = ctx.write('big', (h if len(h) > 1 else '') + t * 132)
        gf.compare(ctx, read(mode[0], p), [expect(mode, r) for r in block] * 132, '%s 132000 rows' % (mode,), time=has_time(mode))
        ctx.state((mode, 'big'))
    elif kind == 'seq':
        word = case[2]
        nf.set_tz(case[3])
        t, recs, st = us(2023, 12, 31, 23, 59, 58) + 634000, [], mode
        for i, k in enumerate(word):
            t += {'F': 10**6, 'B': -DAY, 'R': 0, 'M': 60370000}[k]
            recs.append(recs[-1] if k == 'R' and recs else (t, i))
            ctx.edge(st, k)
            st = (mode, t, recs[-1][1])
            ctx.state(st)
        for sp in splits(len(recs)):
            paths, i = [], 0
            for j, n in enumerate(sp):
                paths.append(write(ctx, mode, 'f%d' % ((7 * j + 5) % 10), recs[i:i + n], final=(j + len(word)) % 2 == 0))
                i += n
            for sc in ((True, False) if len(word) < 4 else (True,)):
                kw = {} if sc else {'scale_ccp': False}
                gf.compare(ctx, read(mode[0], paths, **kw), [expect(mode, r, sc) for r in recs],
                           '%s %s split %s scaling %s' % (mode, word, sp, sc), time=has_time(mode))
            ctx.outcome('%d rows in %d files' % (len(recs), len(sp)))
            if len(sp) == 1:
                check(ctx, mode, paths[0], recs, '%s bare path' % word)


def mix(ctx, kinds):
    """a list of three files, each synchronised or not, with or without the logger's stamp"""
    t = us(2023, 6, 30, 23, 59, 59) + 250000
    paths, want, n = [], [], 0
    for j, k in enumerate(kinds):
        mode = ('Ride', k % 2 == 0, k == 2)     # 0 synced, 1 unsynced, 2 synced bare, 3 unsynced again
        recs = [(t + (n + x) * 10**6, n + x) for x in range(2)]
        n += 2
        paths.append(write(ctx, mode, 'm%d' % j, recs))
        want += [expect(mode, r) for r in recs]
    gf.compare(ctx, read('Ride', paths), want, 'files with clocks %s' % kinds)
    ctx.state(('mix',) + tuple(kinds))
    ctx.edge('mix', tuple(kinds))
    ctx.outcome('mixed clocks')
