"""C07: BGM3 reads keep every record, its UTC time, and scale its counts."""
import itertools
from . import gravfmt as gf
from . import navfmt as nf
from .cal import us, DAY, days_from_civil, trunc

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'serial (4 vessels) and RGS (2 vessels): every day of 2019-2025, every minute of a day, decimals of seconds '
             '(all three-digit, boundary longer), every counts value 0-999 and boundary ones to 2^31, record sequences up to '
             'length 3 over 6 kinds (4 over 4 kinds) x every split into files x listed/own scale x 3 process time zones, files of 99-101, 12000 and 132000 rows; lists of 5-130 files of all orders of sizes; lists of up to 4 files with empty ones anywhere',
    'thorough': 'every day of 2000-2050, every second of a day, every counts value 0-65535, sequences up to length 5 over 4 kinds',
}
SHIPS = ['Atlantis', 'Thompson', 'Revelle', 'Langseth', 'rgs:Atlantis', 'rgs:NBP']
KINDS = 'FSBRZQ'       # next second; same instant again; a day back; repeat of the record; zero counts; half second, big counts


def groups(tier):
    q = tier == 'quick'
    yield 'calendar', (['cal', s, y, nf.TZS[y % 3]] for s in SHIPS for y in (range(2019, 2026) if q else range(2000, 2051))), 1
    yield 'clock', (['clk', s, k] for s in SHIPS for k in (range(2) if q else range(2, 26))), 1
    yield 'decimals', (['frac', s] for s in SHIPS), 1
    yield 'counts', (['cnt', s, lo, min(hi, 10**6) if s == 'Langseth' else hi] for s in SHIPS for lo, hi in
                     ([(0, 1000), (99990, 100010), (65500, 65600), (999900, 1000100), (9999950, 10000050), (2**31 - 50, 2**31 + 50)] if q else
                      [(a, a + 8192) for a in range(0, 65536, 8192)] + [(99990, 100010), (999900, 1000100), (9999950, 10000050), (2**31 - 50, 2**31 + 50)])
                     if s != 'Langseth' or lo < 10**6), 1       # Langseth's columns are of fixed width: six digits
    yield 'values', (['val', s] for s in SHIPS if s.startswith('rgs')), 1
    for L in range(1, (4 if q else 5) + 1):
        yield 'sequences %d' % L, (['seq', s, ''.join(w), nf.TZS[L % 3]] for s in SHIPS
                                   for w in itertools.product(KINDS if L < 4 else 'FBRQ', repeat=L)), 20
    yield 'sizes', (['size', s, n] for s in SHIPS for n in ([1, 2, 98, 99, 100, 101, 102, 199, 200, 201, 12000])), 1
    yield 'many files', (['many', s, n, p] for s in SHIPS for n in (gf.MANY if q else gf.MANY + [260, 600]) for p in gf.PATTERNS), 4
    yield 'empty files', (['none', s] for s in SHIPS), 1
    yield 'big', (['big', s] for s in SHIPS), 1


def val(ship, i, counts):
    if ship.startswith('rgs'):
        return {'grav': '%.3f' % (980329.272 - 0.125 * counts), 'lat': '%.6f' % (-41.523386 + 0.0001 * (counts % 9000)),
                'lon': '%.6f' % (170.671852 - 0.0002 * (counts % 9000))}
    return {'counts': counts}


def line(ship, t, i, counts):
    v = val(ship, i, counts)
    if ship.startswith('rgs'):
        return gf.rgs_line(t, v['grav'], v['lat'], v['lon'])
    return gf.bgm_line(ship, t, counts, '%02d' % (i % 100))


def expect(ship, t, i, counts, scale=None):
    e = {k: float(x) for k, x in val(ship, i, counts).items()}
    if ship.startswith('rgs'):
        return e, trunc(t, 3)
    e['rgrav'] = counts * (gf.SCALE[ship] if scale is None else scale)
    return e, trunc(t, gf.BGM_DIGITS[ship])


def read(ship, paths, **kw):
    import shipgrav.io as sgi
    if ship.startswith('rgs'):
        return sgi.read_bgm_rgs(paths, ship[4:], progressbar=False)
    return sgi.read_bgm_raw(paths, ship, progressbar=False, **kw)


def write(ctx, ship, name, recs, final=True, blank=False):
    # RGS files come with \r\n and an empty line after each record
    eol = '\r\n\n' if ship.startswith('rgs') and blank else '\n'
    return ctx.write(name, eol.join(line(ship, *r) for r in recs) + (eol if final else ''))


def whole(ctx, ship, recs, what, blank=False, **kw):
    p = write(ctx, ship, 'x.dat', recs, blank=blank)
    gf.compare(ctx, read(ship, p, **kw), [expect(ship, *r) for r in recs], what)
    for r in recs:
        ctx.state((ship, r[0], r[2]))
    ctx.edge((ship, what), len(recs))


def run(case, ctx):
    kind, s = case[0], case[1]
    if kind == 'cal':
        nf.set_tz(case[3])
        recs = [(d * DAY + (i * 7919 % 86400) * 10**6 + (i * 37 % 1000) * 1000, i, 20000 + i)
                for i, d in enumerate(range(days_from_civil(case[2], 1, 1), days_from_civil(case[2] + 1, 1, 1)))]
        whole(ctx, s, recs, '%s calendar %d' % (s, case[2]))
    elif kind == 'clk':
        t0 = us(2024, 2, 29)
        k = case[2]
        secs = range(0, 86400, 60) if k == 0 else range(82800, 86400) if k == 1 else range((k - 2) * 3600, (k - 1) * 3600)
        whole(ctx, s, [(t0 + x * 10**6 + 123000, i, 25000 - i) for i, x in enumerate(secs)], '%s clock %d' % (s, k), blank=True)
    elif kind == 'frac':
        dg = 3 if s.startswith('rgs') else gf.BGM_DIGITS[s]
        t0 = us(2021, 12, 31, 23, 50)
        fr = set(x * 1000 for x in range(1000))
        u = 10**(6 - dg)
        for b in (0, 99 * u, 500000, 250000, 999999 // u * u, 329611 // u * u, 1000, 10 * u, 100000):
            for d in (-2 * u, -u, 0, u, 2 * u):
                if 0 <= b + d < 10**6:
                    fr.add(b + d)
        whole(ctx, s, [(t0 + i * 10**6 + f, i, 24000 + i) for i, f in enumerate(sorted(fr))], '%s decimals' % s)
    elif kind == 'cnt':
        t0 = us(2022, 7, 1, 12, 0, 0)
        whole(ctx, s, [(t0 + i * 10**6 + 492000, i, c) for i, c in enumerate(range(case[2], case[3]))],
              '%s counts %d-%d' % (s, case[2], case[3]))
    elif kind == 'val':
        # every text of a value in each of the three columns, in both rows of a pair, and alone
        t0 = us(2022, 7, 1, 12, 0, 0)
        nom = ['980329.272', '-41.523386', '170.671852']
        for col in range(3):
            for a in gf.TEXTS:
                for b in gf.TEXTS + [None]:
                    rows = []
                    for i, x in enumerate([a] if b is None else [a, b]):
                        v = list(nom)
                        v[col] = x
                        rows.append((t0 + i * 10**6, v))
                    p = ctx.write('v', '\n'.join(gf.rgs_line(t, *v) for t, v in rows) + '\n')
                    gf.compare(ctx, read(s, p), [(dict(zip(('grav', 'lat', 'lon'), map(float, v))), t) for t, v in rows],
                               '%s column %d = %r, %r' % (s, col, a, b))
                    ctx.state((s, col, a, b))
                    ctx.edge((s, col, a), b)
    elif kind == 'size':
        t0 = us(2023, 12, 31, 20, 0, 0)
        recs = [(t0 + i * 10**6 + 449000, i, 24000 + (i * 37) % 5000) for i in range(case[2])]
        whole(ctx, s, recs, '%s file of %d rows' % (s, case[2]))
        if case[2] > 1:
            paths = [write(ctx, s, 'a', recs[:case[2] // 2]), write(ctx, s, 'b', recs[case[2] // 2:])]
            gf.compare(ctx, read(s, paths), [expect(s, *r) for r in recs], '%s two files of %d rows' % (s, case[2]))
    elif kind == 'many':
        n, sizes, t0 = case[2], gf.many(*case[2:]), us(2023, 12, 31, 23, 58, 0) + 449000
        recs, paths, i = [(t0 + k * 10**6, k, 24000 + 7 * k) for k in range(sum(sizes))], [], 0
        for j, m in enumerate(sizes):
            paths.append(write(ctx, s, 'q%d' % ((41 * j + 17) % n), recs[i:i + m]))
            i += m
        gf.compare(ctx, read(s, paths), [expect(s, *r) for r in recs], '%s %d files, %s' % (s, n, case[3]))
        ctx.state((s, n, case[3]))
        ctx.edge((s, n), case[3])
    elif kind == 'none':
        recs = [[(us(2023, 12, 31, 23, 59, 58) + (3 * j + i) * 10**6, 3 * j + i, 24000 + 10 * j + i) for i in range(2)] for j in range(4)]
        paths = [write(ctx, s, 'n%d' % j, r) for j, r in enumerate(recs)]
        gf.with_empties(ctx, lambda p: read(s, p), lambda j: paths[j], [ctx.write('e', ''), ctx.write('l', '\n\n')],
                        lambda j: [expect(s, *r) for r in recs[j]], s)
    elif kind == 'big':
        block = [(us(2023, 12, 31, 23, 30, 0) + i * 10**6 + 449000, i, 24000 + i) for i in range(1000)]
        with open(write(ctx, s, 'x', block)) as f:
            p = ctx.write('big', f.read() * 132)
        gf.compare(ctx, read(s, p), [expect(s, *r) for r in block] * 132, '%s file of 132000 rows' % s)
        ctx.state((s, 'big'))
    elif kind == 'seq':
        word, tz = case[2], case[3]
        nf.set_tz(tz)
        t, recs, st = us(2023, 12, 31, 23, 59, 58) + 449000, [], (s,)
        for i, k in enumerate(word):
            c = 24963 + 100 * i
            if k == 'F':
                t += 10**6
            elif k == 'B':
                t -= DAY
            elif k == 'Z':
                t, c = t + 10**6, 0
            elif k == 'Q':
                t, c = t + 500000, 999999 - i
            if k == 'R' and recs:
                recs.append(recs[-1])
            else:
                recs.append((t, i, c))
            ctx.edge(st, k)
            st = (s, t, recs[-1][2])
            ctx.state(st)
        from .c03 import splits
        for sp in splits(len(recs)):
            paths, i = [], 0
            for j, n in enumerate(sp):
                paths.append(write(ctx, s, 'f%d' % ((7 * j + 5) % 10), recs[i:i + n], final=(j + len(word)) % 2 == 0, blank=j % 2 == 1))
                i += n
            for sc in ((None,) if s.startswith('rgs') else (None, 2.5, 0, -1)):
                if sc is not None and sc != 2.5 and len(word) > 2:
                    continue
                kw = {} if sc is None else {'scale': sc}
                want = [expect(s, *r, scale=sc) if sc is not None else expect(s, *r) for r in recs]
                gf.compare(ctx, read(s, paths, **kw), want, '%s %s split %s scale %s' % (s, word, sp, sc))
                ctx.outcome('%d rows in %d files' % (len(recs), len(sp)))
            if len(sp) == 1:
                gf.compare(ctx, read(s, paths[0]), [expect(s, *r) for r in recs], '%s %s bare path' % (s, word))
