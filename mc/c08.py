"""C08: DGS laptop reads map every field and time; only malformed Langseth lines are dropped."""
import itertools
from . import gravfmt as gf
from . import navfmt as nf
from .cal import us, DAY, days_from_civil
from .c03 import splits

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '8 vessels: every day of 2019-2025, every minute of a day, all hundredths of a second, record sequences up to length 4 '
             'over 4 kinds (length 4: 3 kinds) x every split into files x 3 process time zones, files of 1-132000 rows; Langseth: every sequence of up to 4 '
             'lines over 9 line kinds (prefix, none, indented, 25/27 fields, bare prefix, empty, garbled), garbling of each '
             'of the 26 fields with 11 texts (also with bytes that are no text) alone and between good lines, lines of 0-60 fields between good lines; '
             'every channel x ordered pairs of 22 number texts with 5 of them; 18 texts in each field that is not read; an empty line at each place of the Sikuliaq header; lists of 5-130 files of all orders of sizes; lists of up to 4 files with ones without records anywhere',
    'thorough': 'every day of 2000-2050, every second of a day, sequences up to length 6 (records) and 5 (Langseth lines)',
}
IDLE = ['#', '# 1', 'abc', '-', "it's", '*5A', '//', '$', '%', '1e999', 'nan', 'NA', '', ' ', '1;2', '1 2', '\u00e9', 'x' * 300]
KINDS = 'FBRM'         # next second, a day back, record repeated, a minute and 0.37 s on
LKINDS = 'GHWSLPENU'
GARBLE = ['abc', '', '***', '1.2.3', '12a', '-', '12\udcff.5', '4\udc802', '\udcc37', '5\udcff', '1\x002']    # \udcxx: the byte xx


def groups(tier):
    q = tier == 'quick'
    S = gf.LAP_SHIPS
    yield 'calendar', (['cal', s, y, nf.TZS[y % 3]] for s in S for y in (range(2019, 2026) if q else range(2000, 2051))), 1
    yield 'clock', (['clk', s, k] for s in S for k in (range(2) if q else range(2, 26))), 1
    for L in range(1, (4 if q else 6) + 1):
        yield 'records %d' % L, (['seq', s, ''.join(w), nf.TZS[L % 3]] for s in S
                                 for w in itertools.product(KINDS if L < 4 else 'FBR', repeat=L)), 8
    for L in range(1, (4 if q else 5) + 1):
        yield 'langseth lines %d' % L, (['lan', ''.join(w)] for w in
                                        itertools.product(LKINDS, repeat=L)), 40
    yield 'values', (['val', s, n] for s in S for n in (gf.LAP_THOMPSON if s == 'Thompson' else list(gf.LAP)[:10])), 1
    yield 'idle fields', (['idle', s, f] for s in S for f in range(26)), 2
    yield 'header', (['head', k] for k in range(20)), 2
    yield 'field counts', (['cnt', n, p] for n in range(0, 61) for p in range(3)), 10
    yield 'garbled', (['garb', f, g] for f in range(26) for g in range(len(GARBLE))), 2
    yield 'sizes', (['size', s, n] for s in S for n in (1, 2, 99, 100, 101, 500, 10000)), 1
    yield 'many files', (['many', s, n, p] for s in S for n in (gf.MANY if q else gf.MANY + [260, 600]) for p in gf.PATTERNS), 4
    yield 'empty files', (['none', s] for s in S), 1
    yield 'big', (['big', s] for s in S), 1


def read(s, paths):
    import shipgrav.io as sgi
    return sgi.read_dgs_laptop(paths, s, progressbar=False)


def write(ctx, s, name, recs, final=True):
    lines = gf.lap_header(s) + [gf.lap_line(s, t, i, log=t + 11 * 10**6) for t, i in recs]
    return ctx.write(name, '\n'.join(lines) + ('\n' if final else ''))


def whole(ctx, s, recs, what):
    p = write(ctx, s, 'x.dat', recs)
    gf.compare(ctx, read(s, p), [gf.lap_expect(s, *r) for r in recs], what)
    for t, i in recs:
        ctx.state((s, t, i))
    ctx.edge((s, what), len(recs))


def run(case, ctx):
    kind, s = case[0], case[1]
    if kind == 'cal':
        nf.set_tz(case[3])
        whole(ctx, s, [(d * DAY + (i * 7919 % 86400) * 10**6 + (i * 37 % 100) * 10000, i)
                       for i, d in enumerate(range(days_from_civil(case[2], 1, 1), days_from_civil(case[2] + 1, 1, 1)))],
              '%s calendar %d' % (s, case[2]))
    elif kind == 'clk':
        t0, k = us(2024, 2, 29), case[2]
        secs = range(0, 86400, 60) if k == 0 else range(82800, 86400) if k == 1 else range((k - 2) * 3600, (k - 1) * 3600)
        whole(ctx, s, [(t0 + x * 10**6 + (j * 7 % 100) * 10000, j) for j, x in enumerate(secs)], '%s clock %d' % (s, k))
    elif kind == 'size':
        t0 = us(2023, 12, 31, 23, 0, 0)
        recs = [(t0 + j * 10**6 + 910000, j) for j in range(case[2])]
        whole(ctx, s, recs, '%s file of %d rows' % (s, case[2]))
        if case[2] > 1:
            h = case[2] // 2
            gf.compare(ctx, read(s, [write(ctx, s, 'a', recs[:h]), write(ctx, s, 'b', recs[h:])]),
                       [gf.lap_expect(s, *r) for r in recs], '%s two files of %d rows' % (s, case[2]))
    elif kind == 'many':
        n, sizes, t0 = case[2], gf.many(*case[2:]), us(2023, 12, 31, 23, 58, 0) + 910000
        recs, paths, i = [(t0 + k * 10**6, k) for k in range(sum(sizes))], [], 0
        for j, m in enumerate(sizes):
            paths.append(write(ctx, s, 'q%d' % ((41 * j + 17) % n), recs[i:i + m]))
            i += m
        gf.compare(ctx, read(s, paths), [gf.lap_expect(s, *r) for r in recs], '%s %d files, %s' % (s, n, case[3]))
        ctx.state((s, n, case[3]))
        ctx.edge((s, n), case[3])
    elif kind == 'none':
        recs = [[(us(2023, 12, 31, 23, 59, 58) + (3 * j + i) * 10**6, 3 * j + i) for i in range(2)] for j in range(4)]
        paths = [write(ctx, s, 'n%d' % j, r) for j, r in enumerate(recs)]
        if s == 'Langseth':
            blanks = ['', '\n \n', 'dgsdata\n', gf.lap_prefix(s, recs[0][0][0]) + '1,2,3\n']
        else:
            blanks = [''.join(x + '\n' for x in gf.lap_header(s)), '\n' if not gf.lap_header(s) else '']
        gf.with_empties(ctx, lambda p: read(s, p), lambda j: paths[j], [ctx.write('e%d' % k, x) for k, x in enumerate(blanks)],
                        lambda j: [gf.lap_expect(s, *r) for r in recs[j]], s, must=s == 'Langseth')
    elif kind == 'big':
        block = [(us(2023, 12, 31, 23, 50, 0) + i * 10**6 + 910000, i) for i in range(1000)]
        p = ctx.write('big', '\n'.join(gf.lap_header(s) + [gf.lap_line(s, t, i) for t, i in block] * 132) + '\n')
        gf.compare(ctx, read(s, p), [gf.lap_expect(s, *r) for r in block] * 132, '%s file of 132000 rows' % s)
        ctx.state((s, 'big'))
    elif kind == 'seq':
        word, tz = case[2], case[3]
        nf.set_tz(tz)
        t, recs, st = us(2023, 12, 31, 23, 59, 58) + 910000, [], (s,)
        for i, k in enumerate(word):
            t += {'F': 10**6, 'B': -DAY, 'R': 0, 'M': 60370000}[k]
            recs.append(recs[-1] if k == 'R' and recs else (t, i))
            ctx.edge(st, k)
            st = (s, t, recs[-1][1])
            ctx.state(st)
        for sp in splits(len(recs)):
            paths, i = [], 0
            for j, n in enumerate(sp):
                paths.append(write(ctx, s, 'f%d' % ((7 * j + 5) % 10), recs[i:i + n], final=(j + len(word)) % 2 == 0))
                i += n
            want = [gf.lap_expect(s, *r) for r in recs]
            gf.compare(ctx, read(s, paths), want, '%s %s split %s' % (s, word, sp))
            ctx.outcome('%d rows in %d files' % (len(recs), len(sp)))
            if len(sp) == 1:
                gf.compare(ctx, read(s, paths[0]), want, '%s %s bare path' % (s, word))
    elif kind == 'val':
        t0, name = us(2022, 7, 1, 12, 0, 0), case[2]
        for a, b in gf.text_pairs():
            lines, want = gf.lap_header(s)[:], []
            for i, x in enumerate([a] if b is None else [a, b]):
                t = t0 + i * 10**6
                fl = gf.lap_fields(t if s != 'Thompson' else t + 12 * 10**6, i)
                fl[gf.LAP[name]] = x
                e = gf.lap_expect(s, t, i)
                e[0][name] = float(x)
                lines.append(gf.lap_prefix(s, t) + ','.join(fl))
                want.append(e)
            p = ctx.write('v', '\n'.join(lines) + '\n')
            gf.compare(ctx, read(s, p), want, '%s %s = %r, %r' % (s, name, a, b))
            ctx.state((s, name, a, b))
            ctx.edge((s, name, a), b)
    elif kind == 'idle':
        # what stands in fields that are not read has no influence
        f, t0 = case[2], us(2022, 7, 1, 12, 0, 0)
        if f in [gf.LAP[n] for n in (gf.LAP_THOMPSON if s == 'Thompson' else gf.LAP)]:
            ctx.outcome('read')
            return
        for pat in ('X', 'GX', 'XG', 'GXGX'):
            for a in IDLE:
                lines, want = gf.lap_header(s)[:], []
                for i, k in enumerate(pat):
                    t = t0 + i * 10**6
                    fl = gf.lap_fields(t if s != 'Thompson' else t + 12 * 10**6, i)
                    if k == 'X':
                        fl[f] = a
                    lines.append(gf.lap_prefix(s, t) + ','.join(fl))
                    want.append(gf.lap_expect(s, t, i))
                p = ctx.write('i', '\n'.join(lines) + '\n')
                gf.compare(ctx, read(s, p), want, '%s %s: unread field %d = %r' % (s, pat, f, a[:9]))
                ctx.state((s, f, a, pat))
                ctx.edge((s, f), (a, pat))
        ctx.outcome('idle')
    elif kind == 'head':
        t0, h = us(2022, 7, 1, 12, 0, 0), list(gf.SKQ_HEADER)
        for alt in ('', ' ', '#', 'a,b', 'x' * 300):
            if case[1] < 19:
                h[case[1]] = alt
            else:
                h = [alt] * 19
            recs = [(t0 + i * 10**6, i) for i in range(3)]
            p = ctx.write('h', '\n'.join(h + [gf.lap_line('Sikuliaq', t, i) for t, i in recs]) + '\n')
            gf.compare(ctx, read('Sikuliaq', p), [gf.lap_expect('Sikuliaq', *r) for r in recs], 'header line %d = %r' % (case[1], alt[:9]))
            ctx.state(('head', case[1], alt))
            ctx.edge(('head', case[1]), alt)
    elif kind == 'lan':
        langseth(ctx, case[1])
    elif kind == 'cnt':
        # a line of another number of fields between good ones
        n, pat = case[1], ('BG', 'GBG', 'GBBG')[case[2]]
        t0 = us(2025, 9, 11, 23, 59, 57) + 910000
        for prefix in (True, False):
            lines, want = [], []
            for i, k in enumerate(pat):
                t = t0 + i * 10**6
                fl = gf.lap_fields(t, i)
                if k == 'B':
                    fl = (fl * 3)[:n]
                if k == 'G' or n == 26:
                    want.append(gf.lap_expect('Langseth', t, i))
                lines.append((gf.lap_prefix('Langseth', t) if prefix else '') + ','.join(fl))
            p = ctx.write('g', '\n'.join(lines) + '\n')
            gf.compare(ctx, read('Langseth', p), want, 'Langseth line of %d fields in %s' % (n, pat))
            ctx.state(('cnt', n, pat, prefix))
            ctx.edge(('cnt', n), (pat, prefix))
    elif kind == 'garb':
        f, g = case[1], GARBLE[case[2]]
        t0 = us(2025, 9, 11, 23, 59, 58) + 910000
        for pat in ('N', 'GN', 'NG', 'GNH', 'NN'):
            for prefix in (True, False):
                lines, want = [], []
                for i, k in enumerate(pat):
                    t = t0 + i * 10**6
                    v, tt = gf.lap_expect('Langseth', t, i)
                    fl = gf.lap_fields(t, i)
                    if k == 'N':
                        fl[f] = g
                        name = [n for n, x in gf.LAP.items() if x == f]
                        if name:
                            v[name[0]] = float('nan')
                            if name[0] in ('year', 'month', 'day', 'hour', 'minute', 'second'):
                                tt = None
                    lines.append((gf.lap_prefix('Langseth', t) if prefix and k != 'H' else '') + ','.join(fl))
                    want.append((v, tt))
                p = ctx.write('g', ('\n'.join(lines) + '\n').encode('utf-8', 'surrogateescape'))
                gf.compare(ctx, read('Langseth', p), want, 'Langseth field %d = %r in %s' % (f, g, pat))
                ctx.state(('garb', f, g, pat, prefix))
                ctx.edge(('garb', f), (g, pat, prefix))


def langseth(ctx, word):
    """G good; H good without prefix; W good, indented; S 25 fields; L 27 fields; P bare prefix; E empty line;
    N garbled gravity; U good with undecodable bytes in an unused field"""
    t = us(2025, 12, 31, 23, 59, 58) + 910000
    out, want, st = [], [], 'lan'
    for i, k in enumerate(word):
        t += 10**6
        good = gf.lap_line('Langseth', t, i)
        pre, body = gf.lap_prefix('Langseth', t), ','.join(gf.lap_fields(t, i))
        e = gf.lap_expect('Langseth', t, i)
        if k == 'G':
            ln = good
        elif k == 'H':
            ln = body
        elif k == 'W':
            ln = '   ' + good
        elif k == 'S':
            ln = pre + body.rsplit(',', 1)[0]
        elif k == 'L':
            ln = (pre if i % 2 else '') + body + ',77'
        elif k == 'P':
            ln = pre.rstrip()
        elif k == 'E':
            ln = ''
        elif k == 'N':
            fl = gf.lap_fields(t, i)
            fl[gf.LAP['rgrav']] = '12x5.1'
            ln = pre + ','.join(fl)
            e[0]['rgrav'] = float('nan')
        elif k == 'U':
            fl = gf.lap_fields(t, i)
            fl[0] = '\udcff\udcfe9'
            ln = pre + ','.join(fl)
        if k in 'GHWNU':
            want.append(e)
        out.append(ln)
        ctx.edge(st, k)
        st = ('lan', len(want), k)
        ctx.state((word[:i + 1],))
    data = ('\n'.join(out) + ('\n' if len(word) % 2 else '')).encode('utf-8', 'surrogateescape')
    p = ctx.write('l', data)
    gf.compare(ctx, read('Langseth', p), want, 'Langseth lines %s' % word)
    ctx.outcome('%d of %d lines are records' % (len(want), len(word)))
    if len(word) <= 3:
        # together with another file, before and after
        t2 = us(2026, 1, 2, 3, 4, 5)
        q = write(ctx, 'Langseth', 'm', [(t2, 50), (t2 + 10**6, 51)])
        w2 = [gf.lap_expect('Langseth', t2, 50), gf.lap_expect('Langseth', t2 + 10**6, 51)]
        gf.compare(ctx, read('Langseth', [p, q]), want + w2, 'Langseth lines %s then a good file' % word)
        gf.compare(ctx, read('Langseth', [q, p]), w2 + want, 'good file then Langseth lines %s' % word)
