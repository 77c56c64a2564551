"""C02: positions decode to signed decimal degrees; dropouts stay missing."""
import itertools
from . import navfmt as nf
from .cal import us

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'per format: every whole degree of latitude (0-90) and longitude (0-180) x 8 minute strings x both hemispheres, '
             'record sequences up to length 4 over 9 record kinds (two positions, 3 kinds of dropout, other talkers, other GGA, '
             'garbage) in every order, default (and, up to length 3, explicit) talker',
    'thorough': 'as quick with 40 minute strings per degree and sequences up to length 6',
}
MINS = ['00.0000', '00.0001', '07.5', '09.999999', '30.000000', '45.12345678', '59.9999', '59.999999']
# A/B/C fixes; d latitude empty; e longitude empty; z both empty, hemispheres kept; o other sentences;
# g a GGA of another talker with another position; j garbage
KINDS = 'ABCdezogj'
PA = (41, '31.403226', 'N'), (70, '40.311159', 'W')
PB = (0, '15.000100', 'S'), (70, '05.000000', 'W')
PC = (89, '59.999', 'N'), (70, '59.5', 'W')
OTHER = {'GPGGA': 'INGGA', 'INGGA': 'GPGGA'}


def groups(tier):
    q = tier == 'quick'
    fm = list(nf.FORMATS)
    yield 'latitudes', (['lat', f, h] for f in fm for h in 'NS'), 1
    yield 'longitudes', (['lon', f, h, a] for f in fm for h in 'EW' for a in (0, 60, 120)), 1
    yield 'equator-greenwich', (['zero', f] for f in fm), 1
    n = 4 if q else 6
    yield 'sequences', (['seq', f, ''.join(p), n] for f in fm for p in itertools.product(KINDS, repeat=2)), 4


def mins(tier):
    if tier == 'quick':
        return MINS
    return sorted(set(MINS + ['%09.6f' % (x * 1.5 + 0.000123) for x in range(40)]))


def compare(ctx, df, exp, what):
    ctx.check(not nf.is_refusal(df), '%s: refused', what)
    got = nf.rows(df, ctx)
    ctx.check([g[0] for g in got] == [e[0] for e in exp], '%s: instants differ', what)
    for g, e in zip(got, exp):
        for k, n in ((1, 'latitude'), (2, 'longitude')):
            ctx.check(nf.same(g[k], e[k]), '%s: %s %r, record encodes %r', what, n, g[k], e[k])
    ctx.ev(len(exp))
    ctx.trace()


def many(ctx, fmt, fixes, what):
    """fixes [(lat, lon)] one second apart"""
    t = us(2023, 6, 16, 1, 0, 0)
    lines, exp = [], []
    for la, lo in fixes:
        lines += nf.fix_lines(fmt, t, la, lo)
        exp.append((nf.recorded(fmt, t),) + nf.position(la, lo))
        t += 10**6
        ctx.state((fmt, la, lo))
        ctx.edge(fmt, (la, lo))
    p = ctx.write('n.gps', '\n'.join(lines) + '\n')
    compare(ctx, nf.read(fmt, p), exp, what)


def run(case, ctx):
    kind, fmt = case[0], case[1]
    if kind == 'lat':
        many(ctx, fmt, [((d, m, case[2]), PA[1]) for d in range(0, 90) for m in mins(ctx.tier)] +
             [((90, '00.0000', case[2]), PA[1])], '%s latitudes %s' % (fmt, case[2]))
    elif kind == 'lon':
        a = case[3]
        many(ctx, fmt, [(PB[0], (d, m, case[2])) for d in range(a, a + 60) for m in mins(ctx.tier)] +
             ([(PA[0], (180, '00.0000', case[2]))] if a == 120 else []), '%s longitudes %s' % (fmt, case[2]))
    elif kind == 'zero':
        fx = []
        for la in ((0, '00.0000', 'N'), (0, '00.0000', 'S'), (0, '00.0060', 'S'), (0, '00.0060', 'N'), (0, '30.5', 'S')):
            for lo in ((0, '00.0000', 'E'), (0, '00.0000', 'W'), (0, '00.0060', 'W'), (0, '00.0060', 'E'), (0, '12.25', 'W')):
                fx.append((la, lo))
        many(ctx, fmt, fx, fmt + ' around 0,0')
        # degrees and minutes alike
        fx += [((d, m, a), (d, m, b)) for d in (5, 45, 89) for m in ('30.0000', '00.0000') for a in 'NS' for b in 'EW']
        for f in fx:
            many(ctx, fmt, [f], fmt + ' single fix')
    elif kind == 'seq':
        pre, depth = case[2], case[3]
        for L in range(0, depth - 1):
            for tail in itertools.product(KINDS, repeat=L):
                sequence(ctx, fmt, pre + ''.join(tail))
        if pre == 'AA':
            for k in KINDS:
                sequence(ctx, fmt, k)


def sequence(ctx, fmt, word):
    t = us(2023, 6, 16, 23, 59, 58)
    lines, exp = [], []
    tk = nf.default_talker(fmt)
    st = (fmt, ())
    for k in word:
        if k in 'ABC':
            la, lo = {'A': PA, 'B': PB, 'C': PC}[k]
        elif k == 'd':
            la, lo = None, PB[1]
        elif k == 'e':
            la, lo = PB[0], None
        elif k == 'z':
            la, lo = 'N', 'W'
        if k in 'ABCdez':
            t += 10**6
            lines += nf.fix_lines(fmt, t, la, lo)
            exp.append((nf.recorded(fmt, t),) + nf.position(la, lo))
        elif k == 'o':
            lines += nf.other_lines(fmt, t + 500000)
        elif k == 'g':
            # same kind of sentence by another receiver, with its own date line where the format has one
            ot = OTHER[tk]
            lines += [x for x in nf.fix_lines(fmt, t + 300000, (11, '11.11', 'S'), (70, '11.11', 'W'), talker=ot)]
        else:
            lines += ['$PSXN,20,0,0,0,0*3B', 'lost,data,,,,,']
        ctx.edge(st, k)
        st = (fmt, tuple(e[1:] for e in exp))
        ctx.state(repr(st))
    p = ctx.write('s.gps', '\n'.join(lines) + '\n')
    for kw in ({}, {'talker': tk}) if len(word) < 4 else ({},):
        df = nf.read(fmt, p, **kw)
        if not exp:
            ctx.check(nf.is_refusal(df), '%s %r: no fix of %s but not refused', fmt, word, tk)
            ctx.trace()
            ctx.outcome('refused')
            continue
        compare(ctx, df, exp, '%s sequence %s' % (fmt, word))
        ctx.outcome(''.join('.' if e[1] == e[1] else 'x' for e in exp))
