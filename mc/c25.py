"""C25: results depend only on the arguments, never on earlier calls or on labels."""
import itertools
import os

from . import calls

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '50 public functions and reader formats, 3-9 calls each (a base call and calls differing from it in one argument, in file contents at '
             'the same path, size and modification time, or in the number of files), each history in a process of its own, results overwritten '
             'by the caller in between: all ordered pairs and the triples a-b-a of calls of one function, also with the same arrays, lists or series altered in place; all ordered pairs of base calls of different '
             'functions; each call again after changes of time zone, working directory (one with files named like settings) and random state, and with files named relative to the working directory; what each call leaves of its arguments, of all files and of 15 process-wide settings (set to unusual values before); 10 containers/labellings',
    'thorough': 'all ordered triples of calls of one function; pairs of all calls of different functions of one module; base-call triples a-b-a',
}
WRAPS = ['list', 'series', 'offset', 'reversed', 'text', 'floats', 'twice', 'shuffled', 'dates', 'negative']
# functions documented (or checked by their own property) for arrays only
NOLIST = {'course', 'upvecs', 'grav2d', 'layer'}
# may change these arguments (stated in the property)
MAY = {'upvecs': {'cacc', 'lacc'}, 'bits': {'stat'}}
ENVS = ['tz:UTC0', 'tz:EST5EDT,M3.2.0,M11.1.0', 'tz:NZST-12NZDT,M9.5.0,M4.1.0/3', 'cwd', 'relative', 'random', 'again']

DECOYS = ['database.toml', 'shipgrav.toml', 'config.toml', 'shipgrav.ini', 'setup.cfg', '.env', '.shipgrav', 'logging.conf']


def module(fn):
    return calls.specs()[fn][0] if fn in calls.specs() else fn.split('.')[0]


def groups(tier):
    q = tier == 'quick'
    F = calls.functions()
    yield 'arguments', (['pure', fn, v, w] for fn in F for v in calls.variants(fn) for w in (['array'] + WRAPS if fn in calls.specs() else ['array'])), 20
    yield 'surroundings', (['env', fn, v] for fn in F for v in calls.variants(fn)), 8
    yield 'labels', (['label', fn, v, w] for fn in calls.specs() for v in calls.variants(fn) for w in WRAPS), 20

    def same():
        for fn in F:
            V = calls.variants(fn)
            for a in V:
                for b in V:
                    if q:
                        yield ['seq', [fn + '/' + x for x in (a, b, a)]]
                    else:
                        for c in V:
                            yield ['seq', [fn + '/' + x for x in (a, b, c)]]
    yield 'one function', same(), 10
    yield 'altered in place', (['inplace', fn, a, b, w] for fn in calls.specs() for a in calls.variants(fn) for b in calls.variants(fn) if a != b
                               for w in ('array', 'list', 'series')), 20

    def cross():
        for a in F:
            for b in F:
                if a != b:
                    yield ['seq', [a + '/', b + '/'] + ([] if q else [a + '/'])]
    yield 'two functions', cross(), 20
    if not q:
        yield 'two functions, all calls', (['seq', [a + '/' + x, b + '/' + y]] for a in F for b in F if a != b and module(a) == module(b)
                                            for x in calls.variants(a) for y in calls.variants(b)), 20
        yield 'long histories', (['tour', fn, v] for fn in F for v in calls.variants(fn)), 1
    else:
        yield 'long histories', (['tour', fn, ''] for fn in F), 1


_alone = {}


def alone(ctx, name):
    if name not in _alone:
        _alone[name] = calls.fork(lambda: calls.perform(ctx, name))
    return _alone[name]


def images(kw):
    return {k: (type(v).__name__, calls.freeze(v), str(getattr(v, 'dtype', ''))) for k, v in kw.items()}


def run(case, ctx):
    k = case[0]
    if k == 'seq':
        seq = case[1]
        got = calls.fork(lambda: [calls.perform(ctx, n) for n in seq])
        for i, (n, g) in enumerate(zip(seq, got)):
            d = calls.differ(g, alone(ctx, n))
            ctx.check(d is None, 'call %s gives another result after %s: %s', n, seq[:i], d)
            ctx.trace()
            ctx.ev()
            ctx.state(tuple(seq[:i + 1]))
            ctx.edge(tuple(seq[:i]), n)
        ctx.outcome('history')
    elif k == 'tour':
        _, fn, v = case
        names = [fn + '/' + v] + [f + '/' for f in calls.functions()] + [fn + '/' + x for x in calls.variants(fn)]
        got = calls.fork(lambda: [calls.perform(ctx, n) for n in names])
        for i, (n, g) in enumerate(zip(names, got)):
            d = calls.differ(g, alone(ctx, n))
            ctx.check(d is None, 'call %s gives another result after %d calls %s ...: %s', n, i, names[:3], d)
            ctx.trace()
            ctx.ev()
            ctx.state(('tour', fn, v, i))
            ctx.edge(('tour', fn, v, i), n)
        ctx.outcome('tour')
    elif k == 'env':
        _, fn, v = case
        name = fn + '/' + v

        def go():
            import numpy as np
            import random
            import time
            out = []
            for e in ENVS:
                if e.startswith('tz:'):
                    os.environ['TZ'] = e[3:]
                    time.tzset()
                elif e == 'cwd':
                    os.makedirs(ctx.path('elsewhere'), exist_ok=True)
                    os.chdir(ctx.path('elsewhere'))
                    for n in DECOYS:    # files of that directory are none of the library's business
                        with open(n, 'w') as f:
                            f.write('no = = settings here')
                elif e == 'relative':
                    os.chdir(ctx.tmp)
                calls.RELATIVE[0] = e == 'relative'
                if e == 'random':
                    np.random.seed(7)
                    random.seed(7)
                out.append(calls.perform(ctx, name))
            return out
        for e, g in zip(ENVS, calls.fork(go)):
            d = calls.differ(g, alone(ctx, name))
            ctx.check(d is None, 'call %s gives another result with %s: %s', name, e, d)
            ctx.trace()
            ctx.ev()
            ctx.state((name, e))
            ctx.edge(name, e)
        ctx.outcome('surroundings')
    elif k == 'inplace':
        _, fn, a, b, w = case
        if w == 'list' and fn in NOLIST:
            ctx.outcome('n/a')
            return
        names = [fn + '/' + a, fn + '/' + b]

        def go():
            f, kw = calls.build(ctx, names[0], w)
            calls.outcome(f, kw)
            _, kw2 = calls.build(ctx, names[1], w)
            same = {x: v for x, v in kw.items() if x in kw2 and calls.overwrite(v, kw2[x])}
            return len(same), calls.outcome(f, dict(kw2, **same))
        n, g = calls.fork(go)
        if not n:
            ctx.outcome('nothing to alter')
            return
        d = calls.differ(g, alone(ctx, names[1]))
        ctx.check(d is None, 'call %s (%s) gives another result with the arguments of %s altered in place: %s', names[1], w, names[0], d)
        ctx.trace()
        ctx.ev()
        ctx.state((fn, a, b, w, 'inplace'))
        ctx.edge((fn, a, w), ('inplace', b))
        ctx.outcome('altered in place')
    elif k == 'label':
        _, fn, v, w = case
        if w == 'list' and fn in NOLIST or fn == 'bits':
            ctx.outcome('n/a')
            return
        name = fn + '/' + v
        g = calls.fork(lambda: calls.perform(ctx, name, w))
        d = calls.differ(g, alone(ctx, name))
        ctx.check(d is None, 'call %s gives another result for %s: %s', name, w, d)
        ctx.trace()
        ctx.ev()
        ctx.state((name, w))
        ctx.edge(name, w)
        ctx.outcome('label')
    elif k == 'pure':
        _, fn, v, w = case
        name = fn + '/' + v
        if w == 'list' and fn in NOLIST:
            ctx.outcome('n/a')
            return

        def go():
            import warnings
            import numpy as np
            f, kw = calls.build(ctx, name, w)
            files = {p: open(ctx.path(p), 'rb').read() for p in os.listdir(ctx.tmp) if os.path.isfile(ctx.path(p))}
            before = images(kw)
            if w == 'array':    # the settings a program starts with
                np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
                warnings.resetwarnings()
                warnings.filterwarnings('ignore', message='.*')
                calls.unusual()
            around = calls.surroundings()
            how = 'ok'
            try:
                r = f(**kw)
                del r
            except Exception as e:
                how = 'raised ' + type(e).__name__
            after = images(kw)
            changed = [p for p, c in files.items() if not os.path.exists(ctx.path(p)) or open(ctx.path(p), 'rb').read() != c]
            if fn.startswith('ini'):
                changed = [p for p in changed if not p.endswith('.toml')]
            changed += calls.changed_surroundings(around, calls.surroundings())
            return before, after, how, changed
        before, after, how, changed = calls.fork(go)
        may = MAY.get(fn, set())
        for a in before:
            if a in may:
                if a == 'stat' and before[a][1] != after[a][1]:
                    # columns it had are still there, unchanged
                    B, Z = before[a][1], after[a][1]
                    for c, vals in zip(B[1], B[3]):
                        ctx.check(c in Z[1] and Z[3][Z[1].index(c)] == vals and Z[2] == B[2], 'call %s changed column %s', name, c)
                continue
            ctx.check(before[a][0] == after[a][0] and before[a][2] == after[a][2] and calls.differ(before[a][1], after[a][1], 0) is None,
                      'call %s (%s) altered its argument %s', name, w, a)
        ctx.check(not changed, 'call %s altered %s', name, changed)
        ctx.trace()
        ctx.ev()
        ctx.state((name, w, 'pure'))
        ctx.edge(name, ('pure', w))
        ctx.outcome('pure ' + how)
