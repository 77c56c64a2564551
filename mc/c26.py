"""C26: concurrent calls from several threads do not disturb each other."""
from . import calls, sched

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'two calls in two threads, switching at source lines of shipgrav: one preemption at every line event, for every function and reader '
             'format against another call of the same function on other data, on the very same arguments and files, and against a neighbour '
             'function; two preemptions at every pair of source lines (first visits) for processing functions but the cross-coupling fit; alternation after every 1, 2, 3 and 7 lines',
    'thorough': 'against every variant of every call, every other function, two preemptions for readers too (first visits), one preemption at every byte-code '
                'instruction',
}
# calls that write their arguments or a file next to their argument: never on shared arguments
NOSHARE = {'upvecs', 'ini.x', 'bits', 'picker.x'}


def other(fn):
    """a call of fn on other data"""
    if fn in calls.specs():
        return fn + '/' + (list(calls.specs()[fn][3])[0])
    return fn + '/data'


def groups(tier):
    q = tier == 'quick'
    F = calls.functions()
    proc = list(calls.specs())
    parts = lambda fn: 1 if fn in proc else 4

    def one():
        for fn in F:
            n = parts(fn)
            for p in range(n):
                yield ['one', fn + '/', other(fn), p, n, 0]
    yield 'one preemption', one(), 1
    yield 'one preemption, each argument', (['one', fn + '/' + a, fn + '/' + b, 0, 1, 0] for fn in (proc if q else F) for v in calls.variants(fn)[1:]
                                            for a, b in (((v, ''),) if q else (('', v), (v, '')))), 4
    yield 'alternating', (['alt', fn + '/', other(fn), s] for fn in F for s in (1, 2, 3, 7)), 4
    yield 'same arguments', (['one', fn + '/' + v, fn + '/' + v, 0, 1, 1] for fn in F if fn not in NOSHARE
                             for v in ((calls.variants(fn) if fn in proc else ['list', '']) if not q else [''] if fn in proc else ['list', 'yaml'])
                             if v in calls.variants(fn)), 1

    def near():
        for i, fn in enumerate(F):
            for g in (F[i - 1], F[(i + 1) % len(F)]) if q else F:
                if g != fn:
                    yield ['one', fn + '/', g + '/', 0, 1, 0]
    yield 'neighbours', near(), 1
    two = [f for f in proc if f != 'ccp'] if q else F
    yield 'two preemptions', (['two', fn + '/', other(fn), p, 8] for fn in two for p in range(8)), 1
    if not q:
        yield 'byte code', (['op', fn + '/', other(fn), p, 4] for fn in F for p in range(4)), 1


_alone = {}


def alone(ctx, name):
    if name not in _alone:
        _alone[name] = calls.fork(lambda: calls.perform(ctx, name))
    return _alone[name]


def run(case, ctx):
    kind, n0, n1 = case[:3]
    want = [alone(ctx, n0), alone(ctx, n1)]
    shared = kind == 'one' and case[5]

    def make():
        b0 = calls.build(ctx, n0, where='a_')
        b1 = b0 if shared else calls.build(ctx, n1, where='b_')
        return [lambda b=b: calls.freeze(b[0](**b[1])) for b in (b0, b1)]

    def explore():
        import os
        ops = kind == 'op'
        os.chdir(ctx.tmp)       # files are given by their names there
        calls.RELATIVE[0] = True
        around = calls.surroundings()
        # reference line counts from running each call alone
        where = []
        for i in (0, 1):
            for _ in range(2):
                r, w = sched.count(make()[i], ops)
            where.append(w)

        def first(w):
            seen, out = set(), []
            for i, x in enumerate(w):
                if x not in seen:
                    seen.add(x)
                    out.append(i + 1)
            return out
        if kind in ('one', 'op'):
            p, n = case[3], case[4]
            plans = [([k], []) for k in range(1, len(where[0]) + 1) if k % n == p]
        elif kind == 'two':
            p, n = case[3], case[4]
            A, B = first(where[0]), first(where[1])
            plans = [([k], [m]) for i, k in enumerate(A) if i % n == p for m in B]
        else:
            s = case[3]
            plans = [(list(range(s, len(where[0]) + 1, s)), list(range(s, len(where[1]) + 1, s)))]
        sw = 0
        for st in plans:
            f = make()
            pr = sched.Pair(f[0], f[1], st[0], st[1], ops)
            res = pr.run()
            sw += pr.switches
            for i in (0, 1):
                d = calls.differ(res[i], want[i])
                if d:
                    at = where[0][st[0][0] - 1] if st[0] else None
                    return (st if len(st[0]) == 1 else 'alternating'), i, d, at, sw
        left = calls.changed_surroundings(around, calls.surroundings())
        return plans, -1 if left else None, left, None, sw
    plans, bad, d, at, sw = calls.fork(explore)
    ctx.check(bad != -1, '%s beside %s: the calls leave %s changed', n0, n1, d)
    ctx.check(bad is None, '%s beside %s%s: the %s call gives another result when the first is stopped at %s (schedule %s): %s',
              n0, n1, ' on the same arguments' if shared else '', ('first', 'second')[bad or 0], at, plans, d)
    for st in plans:
        k = (tuple(st[0]), tuple(st[1])) if kind != 'alt' else case[3]
        ctx.state((n0, n1, shared, kind == 'op', k))
        ctx.edge((n0, n1, shared, kind == 'op'), k)
    ctx.trace(len(plans))
    ctx.ev(2 * len(plans))
    ctx.outcome('%s: %s' % (kind, 'switched' if sw else 'no line to switch at'), len(plans))
