"""C03: nav tables are time-ordered, duplicate-free and lose nothing."""
import datetime as dt
import itertools
from . import navfmt as nf
from .cal import us

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'per format and for a user-supplied parsing function: every sequence of up to 4 records over 3 instants plus a '
             'dropout of one of them, x every split into consecutive files, x decimation 0-3, both path spellings; long '
             'files (2500 records, 8 decimations) and 60-file lists in 4 orders; fixes 1 microsecond to 1 s apart; 90000 records',
    'thorough': 'sequences up to length 6 over 4 instants (5 with the dropout symbol), decimation 0-5',
}
T0 = us(2023, 6, 16, 23, 59, 59)
OFF = [0, 500000, 10**6, 10**6 + 10000]
VAR = list(nf.FORMATS) + ['user']
CLOSE = [1, 2, 3, 5, 10, 20, 50, 100, 500, 1000, 2000, 4000, 5000, 6000, 9000, 10000, 10001, 20000, 49000, 50000, 99999, 100000, 10**6 - 1, 10**6]


def groups(tier):
    q = tier == 'quick'
    n, e = (4, 3) if q else (6, 4)
    for L in range(1, n + 1):
        if q or L < 6:
            yield 'length %d' % L, (['seq', v, list(p), q] for v in VAR for p in
                                    itertools.product(range(e), repeat=L)), 12
        else:
            yield 'length %d' % L, (['seq', v, list(p), q] for v in ('Atlantis', 'Thompson', 'Langseth', 'user')
                                    for p in itertools.product(range(e), repeat=L)), 12
    m = 4 if q else 5
    for L in range(1, m + 1):
        yield 'dropouts %d' % L, (['drop', v, list(p)] for v in VAR for p in
                                  itertools.product((0, 1, 2, 'd', 'D'), repeat=L) if 'd' in p or 'D' in p), 12
    yield 'close', (['close', v, d] for v in VAR for d in CLOSE), 2
    yield 'day', (['day', v, k] for v in VAR for k in ((0, 3) if q else (0, 1, 2, 3, 10))), 1
    yield 'long', (['long', v, o, n] for v in VAR for o in range(4) for n in (2500,)), 1


def splits(n):
    """every way to cut n records into consecutive non-empty files: list of lengths"""
    for mask in range(2**(n - 1)):
        out, c = [], 1
        for i in range(n - 1):
            if mask >> i & 1:
                out.append(c)
                c = 1
            else:
                c += 1
        yield out + [c]


def posn(i):
    return (10, '%02d.5' % (i % 60), 'S'), (70, '%07.4f' % (0.5 + i * 0.0235 % 59), 'W')


def user_read(recs):
    """a ship_function for lines 't lat lon' (what the documentation asks for)"""
    import numpy as np

    def fn(lines, talker):
        lon, lat, ts = [], [], []
        for ln in lines:
            a, b, c = ln.split()
            ts.append(dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=int(a)))
            lat.append(float(b))
            lon.append(float(c))
        return np.array(lon), np.array(lat), np.array(ts, dtype=object)
    return fn


def write(ctx, var, name, recs):
    """recs [(t, lat, lon)]"""
    lines = []
    for t, la, lo in recs:
        if var == 'user':
            a, b = nf.position(la, lo)
            lines.append('%d %r %r' % (t, a, b))
        else:
            lines += nf.fix_lines(var, t, la, lo)
    return ctx.write(name, '\n'.join(lines) + '\n')


def read(var, paths, **kw):
    if var == 'user':
        import shipgrav.io as sgi
        return sgi.read_nav('Titanic', paths, talker='X', ship_function=user_read(None), progressbar=False, **kw)
    return nf.read(var, paths, **kw)


def rec_time(var, t):
    return t if var == 'user' else nf.recorded(var, t)


def model(files, k):
    """files: list of lists of (instant, pos) -> {instant: set of admissible positions}"""
    out = {}
    first_any = {}
    for f in files:
        first_f = {}
        for t, p in f:
            first_f.setdefault(t, p)
            first_any.setdefault(t, p)
        for t, p in f[::k or 1]:
            if t not in out:
                out[t] = [first_f[t], p, first_any[t]] if k > 1 else [first_f[t]]
    return out


def compare(ctx, df, want, what):
    ctx.check(not nf.is_refusal(df), '%s: refused', what)
    got = nf.rows(df, ctx)
    gt = [g[0] for g in got]
    ctx.check(gt == sorted(want), '%s: instants %s, expected %s', what, gt[:8], sorted(want)[:8])
    for g in got:
        ok = any(nf.same(g[1], p[0]) and nf.same(g[2], p[1]) for p in want[g[0]])
        ctx.check(ok, '%s: position %s at %d, expected %s', what, g[1:], g[0], want[g[0]][0])
    ctx.ev(len(got))
    ctx.trace()


def run(case, ctx):
    kind, var, word = case[0], case[1], case[2]
    if kind == 'seq':
        q = case[3]
        recs = [(T0 + OFF[e],) + posn(i) for i, e in enumerate(word)]
        st = ()
        for e in word:
            ctx.edge((var, st), e)
            st = tuple(sorted(set(st) | {e}))
            ctx.state((var, st, len(word)))
        for sp in splits(len(recs)):
            paths, files, i = [], [], 0
            for j, c in enumerate(sp):
                paths.append(write(ctx, var, 'f%d' % ((7 * j + 5) % 10), recs[i:i + c]))
                files.append([(rec_time(var, t), nf.position(a, b)) for t, a, b in recs[i:i + c]])
                i += c
            for k in range(4 if q else 6):
                kw = {'decimate': k} if k else {}
                want = model(files, k)
                compare(ctx, read(var, paths, **kw), want, '%s %s split %s decimate %d' % (var, word, sp, k))
                ctx.state((var, tuple(word), tuple(sp), k))
                ctx.outcome('%d rows' % len(want))
                if len(paths) == 1 and k in (0, 2):
                    compare(ctx, read(var, paths[0], **kw), want, '%s %s bare path decimate %d' % (var, word, k))
    elif kind == 'drop':
        recs = []
        for i, e in enumerate(word):
            recs.append((T0 + OFF[1], None, None) if e == 'd' else (T0 + OFF[2], None, None) if e == 'D'
                        else (T0 + OFF[e],) + posn(i))
        for sp in splits(len(recs)):
            if len(sp) > 2:
                continue
            paths, files, i = [], [], 0
            for j, c in enumerate(sp):
                paths.append(write(ctx, var, 'f%d' % ((7 * j + 5) % 10), recs[i:i + c]))
                files.append([(rec_time(var, t), nf.position(a, b)) for t, a, b in recs[i:i + c]])
                i += c
            compare(ctx, read(var, paths), model(files, 0), '%s %s split %s' % (var, word, sp))
            ctx.state((var, tuple(word), tuple(sp)))
            ctx.edge((var, tuple(word)), tuple(sp))
    elif kind == 'close':
        # two and three fixes d microseconds apart, in every order, in one file or several
        for base in (T0, T0 + 500000, T0 + 123456):
            for n in (2, 3):
                for perm in itertools.permutations(range(n)):
                    recs = [(base + e * word,) + posn(i) for i, e in enumerate(perm)]
                    for sp in ((n,), (1,) * n):
                        paths, files, i = [], [], 0
                        for j, c in enumerate(sp):
                            paths.append(write(ctx, var, 'f%d' % ((7 * j + 5) % 10), recs[i:i + c]))
                            files.append([(rec_time(var, t), nf.position(a, b)) for t, a, b in recs[i:i + c]])
                            i += c
                        compare(ctx, read(var, paths), model(files, 0), '%s fixes %d us apart, order %s, split %s' % (var, word, perm, sp))
                        ctx.state((var, 'close', base, word, perm, sp))
                        ctx.edge((var, 'close', base), (word, perm, sp))
    elif kind == 'day':
        n, base = 90000, us(2024, 2, 28, 22, 59, 30)
        recs = [(base + i * 10**6,) + posn(i) for i in range(n)]
        p = write(ctx, var, 'day', recs)
        compare(ctx, read(var, p, decimate=word), model([[(rec_time(var, t), nf.position(a, b)) for t, a, b in recs]], word),
                '%s 90000 records decimate %d' % (var, word))
        ctx.state((var, 'day', word))
    elif kind == 'long':
        order, n = word, case[3]
        base = us(2024, 2, 28, 23, 30, 0)
        idx = list(range(n))
        if order == 1:
            idx = idx[::-1]
        elif order == 2:
            idx = [(i * 7) % n for i in range(n)]       # 7 and 2500 coprime: a permutation
        elif order == 3:
            idx = [i // 2 for i in range(n)]            # every instant twice
        recs = [(base + i * 10**6,) + posn(j) for j, i in enumerate(idx)]
        f = [(rec_time(var, t), nf.position(a, b)) for t, a, b in recs]
        p = write(ctx, var, 'long', recs)
        for k in (0, 1, 2, 3, 7, 10, 1000, 5000):
            compare(ctx, read(var, p, decimate=k), model([f], k), '%s %d records order %d decimate %d' % (var, n, order, k))
            ctx.state((var, 'long', order, k))
            ctx.edge((var, 'long', order), k)
        # the same records over 60 files
        m = 60
        size = -(-n // m)
        parts = [recs[i:i + size] for i in range(0, n, size)]
        paths = [write(ctx, var, 'p%03d' % i, x) for i, x in enumerate(parts)]
        compare(ctx, read(var, paths), model([f], 0), '%s %d files order %d' % (var, len(paths), order))
        fs = [[(rec_time(var, t), nf.position(a, b)) for t, a, b in x] for x in parts]
        for k in (0, 3):
            compare(ctx, read(var, paths[::-1], decimate=k), model(fs[::-1], k), '%s files in reverse order' % var)
