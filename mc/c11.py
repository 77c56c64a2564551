"""C11: a file cut off in its last record never corrupts the records before it."""
import itertools
from . import navfmt as nf
from . import gravfmt as gf
from . import c07, c09, c10
from .cal import us

LEVEL = 'fault_enumeration'
RULE = ('Every reader and format; files of n complete records plus one more, cut after every byte of the last record (crash '
        'point), alone or first/last in a list with a complete file. A case is one cut file read by the real code; it is '
        'non-trivial if the cut leaves at least one byte of the last record and not all of it.')
BOUNDS = {'quick': 'n = 1, 2, 3 complete records, every cut byte, alone; n = 2 with a complete file before / after; n = 3 with an empty field in one or two of the complete records',
          'thorough': 'n = 1..8 and 120 complete records, every cut byte; with a complete file before / after for every n; n = 2..4 with every pattern of empty fields'}
T0 = us(2023, 6, 16, 23, 59, 58)


def targets():
    for f in nf.FORMATS:
        yield 'nav', f
    for s in c07.SHIPS:
        yield 'bgm', s
    for s in gf.LAP_SHIPS:
        yield 'lap', s
    for m in range(len(c09.MODES)):
        yield 'raw', m
    for t in c10.COLS:
        yield 'feed', t


def groups(tier):
    q = tier == 'quick'
    ns = (1, 2, 3) if q else (1, 2, 3, 4, 5, 6, 7, 8)
    for n in ns:
        yield '%d complete' % n, ([k, s, n, part, 0] for k, s in targets() for part in range(4)), 1
    for n in ((2,) if q else ns):
        yield '%d complete, in a list' % n, ([k, s, n, part, w] for k, s in targets() if k != 'feed' for part in range(4)
                                              for w in (1, 2)), 1
    for n in (3,) if q else (2, 3, 4):
        yield '%d complete, some with an empty field' % n, ([k, s, n, part, 0, list(g)] for k, s in targets() if gappable(k, s) for part in range(4)
                                                            for h in range(1, n + 1) for g in itertools.combinations(range(n), h)
                                                            if not q or h < 3), 1
    if not q:
        yield 'long', ([k, s, 120, part, 0] for k, s in targets() for part in range(4)), 1


def gappable(kind, s):
    """records of this format may have a field without a value"""
    return kind in ('nav', 'lap') or kind == 'raw' and c09.MODES[s][0] != 'Sikuliaq' or kind == 'feed' and s == 'PASHR'


def records(kind, s, a, b, gaps=()):
    """[(text with newline, expected row)] for records a..b-1; those in gaps have a field without a value"""
    out = []
    for i in range(a, b):
        t = T0 + i * 10**6
        if i in gaps:
            if kind == 'nav':
                out.append(('\n'.join(nf.fix_lines(s, t, None, None)) + '\n', (nf.recorded(s, t), float('nan'), float('nan'))))
            elif kind == 'lap':
                x, n = (14, 'lat') if i % 2 else (10, 've')
                lt = t + 910000
                f = gf.lap_fields(lt + 12 * 10**6 * (s == 'Thompson'), i)
                e = gf.lap_expect(s, lt, i)
                f[x], e[0][n] = '', float('nan')
                out.append((gf.lap_prefix(s, lt) + ','.join(f) + '\n', e))
            elif kind == 'raw':
                m = c09.MODES[s]
                r, over = t + 634000, {'latitude' if i % 2 else 'Temp': ''}
                lg = r + (c09.lag(i) if m[1] else 0)
                out.append((gf.raw_line(m[0], r, i, m[1], log=lg, bare=m[2], over=over) + '\n',
                            gf.raw_expect(m[0], r, i, m[1], log=lg, over=over)))
            else:
                r = c10.record('e', i % 60)
                out.append((r[0] + '\n', (r[2], r[3])))
        elif kind == 'nav':
            # positions that stay put within a degree, negative and not round
            la, lo = (41, '%09.6f' % (31.403226 + i % 20), 'S'), (70, '%09.6f' % (40.311159 - i % 30), 'W')
            out.append(('\n'.join(nf.fix_lines(s, t, la, lo)) + '\n', (nf.recorded(s, t),) + nf.position(la, lo)))
        elif kind == 'bgm':
            out.append((c07.line(s, t + 449000, i, 24963 + i) + '\n', c07.expect(s, t + 449000, i, 24963 + i)))
        elif kind == 'lap':
            out.append((gf.lap_line(s, t + 910000, i) + '\n', gf.lap_expect(s, t + 910000, i)))
        elif kind == 'raw':
            m = c09.MODES[s]
            r = (t + 634000, i)
            out.append((gf.raw_line(m[0], r[0], i, m[1], log=r[0] + (c09.lag(i) if m[1] else 0), bare=m[2]) + '\n', c09.expect(m, r)))
        elif kind == 'feed':
            r = c10.record({'PASHR': 'A', 'HEHDT': 'B', 'PHGGA': 'C'}[s], i % 60)
            out.append((r[0] + '\n', (r[2], r[3])))
    return out


def header(kind, s):
    lines = gf.lap_header(s) if kind == 'lap' else gf.raw_header(c09.MODES[s][0]) if kind == 'raw' else []
    return ''.join(x + '\n' for x in lines)


def read(ctx, kind, s, paths):
    import shipgrav.io as sgi
    if kind == 'nav':
        return nf.read(s, paths)
    if kind == 'bgm':
        return c07.read(s, paths)
    if kind == 'lap':
        return sgi.read_dgs_laptop(paths, s, progressbar=False)
    if kind == 'raw':
        return sgi.read_dgs_raw(paths, c09.MODES[s][0], progressbar=False)
    return sgi.read_other_stuff(ctx.write('d.yaml', c10.YAML), paths[0], s)


def kept(ctx, kind, s, df, want, extra_at, what, torn):
    """want: rows of the complete records in order; a torn extra row may sit at position extra_at"""
    if kind == 'nav':
        got = {r[0]: r for r in nf.rows(df, ctx)}
        for w in want:
            ctx.check(w[0] in got, '%s: the complete record at %d us is lost', what, w[0])
            g = got[w[0]]
            ctx.check(nf.same(g[1], w[1]) and nf.same(g[2], w[2]), '%s: complete record at %d us changed to %s from %s', what,
                      w[0], g[1:], w[1:])
        ctx.check(len(got) <= len(want) + torn, '%s: %d rows, expected at most %d', what, len(got), len(want) + torn)
        return
    if kind == 'feed':
        df = df[0]
    n = len(df)
    ctx.check(n in (len(want), len(want) + torn), '%s: %d rows for %d complete records', what, n, len(want))
    if n > len(want):
        df = df.drop(index=df.index[extra_at])
    df = df.reset_index(drop=True)
    if kind == 'feed':
        for j, c in enumerate(c10.COLS[s]):
            for i, g in enumerate(df[c].tolist()):
                ctx.check(c10.same(g, c10.value(want[i][1][j])), '%s: row %d field %s is %r', what, i, c, g)
        for i, g in enumerate(df['mystery'].tolist()):
            ctx.check(c10.same(g, c10.value(want[i][0].strip())), '%s: row %d prefix is %r', what, i, g)
        return
    time = 'date_time'
    if kind == 'raw':
        time = c09.has_time(c09.MODES[s])
    gf.compare(ctx, df, want, what, time=time, types=False)


def run(case, ctx):
    kind, s, n, part, where = case[:5]
    gaps = tuple(case[5]) if len(case) > 5 else ()
    recs = records(kind, s, 0, n + 1, gaps)
    last = recs[-1][0]
    other = records(kind, s, n + 10, n + 12)
    head = header(kind, s)
    full = head + ''.join(r[0] for r in recs[:-1])
    size = len(last)
    lo, hi = size * part // 4, size * (part + 1) // 4
    for cut in range(lo, hi if part < 3 else size + 1):
        p = ctx.write('torn', (full + last[:cut]).encode())
        paths, want, at = [p], [r[1] for r in recs[:-1]], n
        whole = cut >= size - 1          # nothing but the final newline is gone
        if where:
            o = ctx.write('other', head + ''.join(r[0] for r in other))
            if where == 1:
                paths, want = [p, o], want + [r[1] for r in other]
            else:
                paths, want, at = [o, p], [r[1] for r in other] + want, n + 2
        what = '%s %s: %d complete records, cut %d bytes into the next of %d (%s)%s' % (
            kind, s, n, cut, size, ['alone', 'before', 'after'][where], ', %s with an empty field' % list(gaps) if gaps else '')
        ctx.ev(1, 1 if 0 < cut < size else 0)
        if 0 < cut < size:
            ctx.state((kind, s, n, cut, where, gaps))
        try:
            df = read(ctx, kind, s, paths)
        except Exception as e:
            if type(e).__name__ == 'HarnessHang':
                raise
            ctx.check(not whole and cut, '%s: fails (%s: %s) though every record is complete', what, type(e).__name__, e)
            ctx.outcome('%s: failed loudly' % kind)
            continue
        if nf.is_refusal(df):
            ctx.check(not whole and cut, '%s: refused though every record is complete', what)
            ctx.outcome('%s: refused' % kind)
            continue
        if whole:
            want = want[:at] + [recs[-1][1]] + want[at:]
            kept(ctx, kind, s, df, want, None, what, 0)
            ctx.outcome('%s: complete' % kind)
        else:
            kept(ctx, kind, s, df, want, at, what, 1 if cut else 0)
            ctx.outcome('%s: complete records kept' % kind)
        ctx.trace()
