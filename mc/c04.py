"""C04: navigation comes back at the requested sampling interval."""
import itertools
from . import navfmt as nf
from . import c03
from .cal import us

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'recorded interval {0.001, 0.005, 0.1, 0.2, 0.5, 1, 2, 5, 10 s} x requested interval {default, 0.001, 0.005, 0.1, 0.2, 0.5, 1, 2, 5, 10 s} x 1-12 records '
             '(and 300) x 1-3 files x formats that can record them, constant-rate tracks on three courses',
    'thorough': 'as quick with 1-40 records and 1-4 files',
}
RULE = ''
RATES = [1000, 5000, 100000, 200000, 500000, 10**6, 2 * 10**6, 5 * 10**6, 10**7]
FM = ['Atlantis', 'NBP', 'Revelle', 'Ride', 'RideGP', 'Langseth', 'Sikuliaq', 'Thompson', 'user']


def groups(tier):
    q = tier == 'quick'
    ns = list(range(1, 13)) + [300] if q else list(range(1, 41)) + [300, 2000]
    yield 'intervals', ([f, r, n, nf_] for n in ns for f in FM for r in RATES
                        if not (f == 'Thompson' and r < 10**6) and not (r < 10**5 and f in ('Atlantis', 'NBP', 'Revelle')) for nf_ in ((1, 2, 3) if q else (1, 2, 3, 4)) if nf_ <= n), 4


def track(n, course):
    dy, dx = [(0.0, 0.0), (0.003, 0.01), (-0.02, -0.05)][course]
    return [((12, '%010.6f' % (30 + dy * i % 29), 'S'), (100, '%010.6f' % (30 - dx * i % 29), 'E')) for i in range(n)]


def run(case, ctx):
    f, rate, n, nfiles = case
    t0 = us(2023, 12, 31, 23, 59, 57)
    for course in range(3):
        pos = track(n, course)
        recs = [(t0 + i * rate,) + p for i, p in enumerate(pos)]
        size = -(-n // nfiles)
        paths = [c03.write(ctx, f, 'f%d' % ((7 * j + 5) % 10), recs[j * size:(j + 1) * size]) for j in range(nfiles)
                 if recs[j * size:(j + 1) * size]]
        exact = [(t,) + nf.position(a, b) for t, a, b in recs]
        for req in [None] + RATES:
            kw = {} if req is None else {'sampling': req / 1e6 if req % 10**6 else req // 10**6}
            rq = req or 10**6
            if rq < 10**5 and n * rate > 4000 * 10**6:
                continue
            df = c03.read(f, paths if nfiles > 1 else paths[0], **kw)
            ctx.check(not nf.is_refusal(df), 'refused')
            got = nf.rows(df, ctx)
            what = '%s recorded every %g s, requested %g s, %d records in %d files' % (f, rate / 1e6, rq / 1e6, n, nfiles)
            ctx.state((f, rate, rq, n, nfiles, course))
            ctx.edge((f, rate), rq)
            ctx.trace()
            ctx.ev(len(got))
            native = same_rows(got, exact)
            if rq == rate or n == 1:
                ctx.check(native, '%s: rows are not the records', what)
                ctx.outcome('native interval requested, records returned')
                continue
            if resampled(got, exact, rq):
                ctx.outcome('resampled')
                continue
            # the listed finding is exactly this: sampling is ignored, records come back untouched
            ctx.check(native, '%s: rows are neither at the requested interval nor the recorded ones', what)
            ctx.outcome('sampling ignored')
            ctx.known_finding('C04-sampling-ignored', what)


def same_rows(got, exact):
    return len(got) == len(exact) and all(
        g[0] == e[0] and nf.same(g[1], e[1]) and nf.same(g[2], e[2]) for g, e in zip(got, exact))


def resampled(got, exact, rq):
    """rows spaced by rq from the first record on, linear interpolation, whole span (end point free)"""
    t0, t1 = exact[0][0], exact[-1][0]
    full = list(range(t0, t1 + 1, rq))
    ts = [g[0] for g in got]
    if ts not in (full, full[:-1] if full[-1] == t1 and len(full) > 1 else full):
        return False
    for t, la, lo in got:
        j = max(i for i, e in enumerate(exact) if e[0] <= t)
        a = exact[j]
        if a[0] == t:
            la0, lo0 = a[1], a[2]
        else:
            b = exact[j + 1]
            w = (t - a[0]) / (b[0] - a[0])
            la0, lo0 = a[1] + w * (b[1] - a[1]), a[2] + w * (b[2] - a[2])
        if not (nf.same(la, la0, 1e-8) and nf.same(lo, lo0, 1e-8)):
            return False
    return True
