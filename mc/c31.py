"""C31: records mean the same whatever line ends and empty lines stand around them."""
import contextlib
import io
import itertools
from . import calls
from . import gravfmt as gf
from . import navfmt as nf

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every reader and vessel format: files of three records, every assignment of \\n or \\r\\n to the lines of the records, last line ended or not, '
             'an empty line or none in front of, between and after them; headers ended either way; lists of three such files; runs of up to 50 empty lines in any one or two places, also inside records of several lines',
    'thorough': 'four records, up to two empty lines in each place and runs of up to 95, \\r\\r\\n as a third line end',
}


def formats():
    for f in nf.FORMATS:
        yield 'nav', f
    for s in gf.SCALE:
        yield 'bgm', s
    for s in ('Atlantis', 'NBP'):
        yield 'rgs', s
    for s in gf.LAP_SHIPS:
        yield 'lap', s
    for s in ('Revelle', 'Thompson', 'Sikuliaq'):
        yield 'raw', s
    for t in ('PASHR', 'HEHDT', 'PHGGA'):
        yield 'feed', t


def groups(tier):
    n = 3 if tier == 'quick' else 4
    for k in ('nav', 'bgm', 'rgs', 'lap', 'raw', 'feed'):
        yield k, ([k, s, n, b] for kk, s in formats() if kk == k for b in range(8)), 1
    yield 'runs', (['runs', k, s] for k, s in formats()), 1
    yield 'lists', (['list', k, s] for k, s in formats() if k != 'feed'), 1


def parts(kind, s, seed, n):
    """header lines, records (lists of lines)"""
    if kind == 'nav':
        out = []
        for i in range(n):
            t = calls.T0 + (i + 7 * seed) * 10**6
            out.append(nf.fix_lines(s, t, (31 + seed, '%07.4f' % (20 + i * .01 + seed), 'S'), (70, '%07.4f' % (41.5 + i * .02 + 2 * seed), 'W')))
        return [], out
    if kind == 'feed':
        from . import c10
        return [], [[c10.record(k, i + 3 * seed)[0]] for i in range(n) for k in 'ABC'][:n + 1 if n < 4 else n]
    h = gf.lap_header(s) if kind == 'lap' else gf.raw_header(s) if kind == 'raw' else []
    L = calls.rec_text(kind, s, seed, n).split('\n')[:-1]
    return L[:len(h)], [[x] for x in L[len(h):]]


def reader(kind, s):
    import shipgrav.io as sgi
    if kind == 'nav':
        return lambda p: nf.read(s, p)
    f = {'bgm': sgi.read_bgm_raw, 'rgs': sgi.read_bgm_rgs, 'lap': sgi.read_dgs_laptop, 'raw': sgi.read_dgs_raw}[kind]
    return lambda p: f(p, s, progressbar=False)


def text(head, recs, ends, blanks, final):
    """ends: one per record, the first also for the header; blanks: empty lines before each record and after the last"""
    out = ''.join(x + ends[0].replace('\r\r', '\r') for x in head)      # header lines are counted, so nothing is added between them
    for r, e, b in zip(recs, ends, blanks):
        out += e * b + ''.join(x + e for x in r)
    out += ends[-1] * blanks[-1]
    if not final:
        out = out[:len(out) - len(ends[-1])]
    return out


def run(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        go(case, ctx)


def go(case, ctx):
    if case[0] == 'list':
        return lists(case, ctx)
    if case[0] == 'runs':
        case = [case[1], case[2], 3, None]
    kind, s, n, part = case
    head, recs = parts(kind, s, 1, n)
    n = len(recs)
    if kind == 'feed':
        import shipgrav.io as sgi
        from . import c10
        y = ctx.write('f.yaml', c10.YAML)
        read = lambda p: sgi.read_other_stuff(y, p, s)
    else:
        read = reader(kind, s)

    def image(txt):
        p = ctx.write('d.txt', txt.encode())
        try:
            return calls.freeze(read(p))
        except Exception as e:
            if type(e).__name__ == 'HarnessHang':
                raise
            return ('raised', type(e).__name__ + ': ' + str(e)[:150])
    want = image(text(head, recs, ['\n'] * n, [0] * (n + 1), True))
    ctx.check(want[0] != 'raised', '%s %s: plain file: %s', kind, s, want)
    if part is None:
        return runs(ctx, kind, s, head, recs, image, want)
    q = ctx.tier == 'quick'
    E = ['\n', '\r\n'] + ([] if q else ['\r\r\n'])
    c = 0
    for ends in itertools.product(E, repeat=n):
        for blanks in itertools.product(range(2 if q else 3), repeat=n + 1):
            if not q and sum(b > 0 for b in blanks) > 2:
                continue
            for final in (True, False):
                c += 1
                if c % 8 != part:
                    continue
                got = image(text(head, recs, ends, blanks, final))
                d = calls.differ(got, want)
                ctx.check(d is None, '%s %s: lines ended %s, empty lines %s, last line %s: %s', kind, s, ends, blanks, 'ended' if final else 'not ended', d)
                ctx.state((kind, s, ends, blanks, final))
                ctx.edge((kind, s, ends, blanks[:-1]), (blanks[-1], final))
                ctx.ev(1)
    ctx.trace()
    ctx.outcome('%s %s' % (kind, s))


def runs(ctx, kind, s, head, recs, image, want):
    """runs of empty lines, also between the lines of one record"""
    L = [x for r in recs for x in r]
    lens = (1, 2, 3, 5, 8, 20, 50) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 20, 35, 50, 75, 95)
    places = [(g,) for g in range(len(L) + 1)] + list(itertools.combinations(range(len(L) + 1), 2))
    for gs in places:
        for m in lens:
            if len(gs) > 1 and (m > 8 and ctx.tier == 'quick' or m > 45):
                continue
            for e in ('\n', '\r\n'):
                t = ''.join(x + e for x in head) + ''.join(e * (m * (i in gs)) + x + e for i, x in enumerate(L)) + e * (m * (len(L) in gs))
                d = calls.differ(image(t), want)
                ctx.check(d is None, '%s %s: %d empty lines ended %r in front of lines %s of %d: %s', kind, s, m, e, gs, len(L), d)
                ctx.state(('runs', kind, s, gs, m, e))
                ctx.edge(('runs', kind, s, gs), (m, e))
                ctx.ev(1)
    ctx.trace()
    ctx.outcome('runs in %s %s' % (kind, s))


def lists(case, ctx):
    _, kind, s = case
    read = reader(kind, s)
    files = [parts(kind, s, i + 1, 2) for i in range(3)]
    want = None
    for w in itertools.product(range(8), repeat=3):
        if len(set(w)) == 3 and w[0] > w[2]:
            continue
        ps = []
        for i, (k, (head, recs)) in enumerate(zip(w, files)):
            e = '\r\n' if k & 1 else '\n'
            ps.append(ctx.write('l%d' % i, text(head, recs, [e] * len(recs), [0] * len(recs) + [k >> 2], not k & 2).encode()))
        got = calls.freeze(read(ps))
        want = want or got
        d = calls.differ(got, want)
        ctx.check(d is None, '%s %s: three files written in ways %s: %s', kind, s, w, d)
        ctx.state(('list', kind, s, w))
        ctx.edge(('list', kind, s, w[:-1]), w[-1])
        ctx.ev(1)
    ctx.trace()
    ctx.outcome('list of %s %s' % (kind, s))
