"""C12: meter status words decode to their 16 flags, for one word or a table."""
import itertools

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all 65536 words one by one and as tables; every ordered table of up to 3 rows over 18 words (all single bits, 0, all ones) '
             'x 5 row labellings x 3 column names x 3 positions of the status column, beside another column called status',
    'thorough': 'also every pair of words (a, b) with b in 256 words for all 65536 a as two-row tables of 512 rows, tables of 4 rows',
}
FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host',
         'NavMod1', 'NavMod2', 'dgs1_trouble', 'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']
EDGE = [0, 65535] + [1 << i for i in range(16)]
LABELS = ['range', 'gap', 'reversed', 'text', 'repeated']


def groups(tier):
    q = tier == 'quick'
    yield 'words', (['one', a] for a in range(0, 65536, 1024)), 4
    yield 'long tables', (['long', n] for n in (99999, 131073)), 1
    yield 'tables of all words', (['all', a, lb] for a in range(0, 65536, 8192) for lb in LABELS), 1
    for n in range(0, 4 if q else 5):
        yield 'tables of %d rows' % n, (['tab', list(pre), n] for pre in itertools.product(EDGE, repeat=min(n, 2))), 2
    if not q:
        yield 'pairs of words', (['pairs', a] for a in range(0, 65536, 256)), 1


def flags(w):
    """{flag: digit} by repeated division, most significant first"""
    out = {}
    for k, f in enumerate(FLAGS):
        out[f] = (w // 2 ** (15 - k)) % 2
    return out


def digit(x):
    return int(x)


def labels(kind, n):
    if kind == 'range':
        return list(range(n))
    if kind == 'gap':
        return [7 + 3 * i for i in range(n)]
    if kind == 'reversed':
        return list(range(n))[::-1]
    if kind == 'text':
        return ['r%d' % (n - i) for i in range(n)]
    return [i // 2 for i in range(n)]


def table(ctx, words, lb, name, pos):
    import pandas as pd
    from shipgrav.utils import decode_dgs_status_bits
    n = len(words)
    cols = {'rgrav': [9000.5 + i for i in range(n)], 'al': ['x%d' % i for i in range(n)]}
    if name != 'status':    # another column that is called as the default one
        cols['status'] = [65535 - w for w in words]
    order = list(cols)
    order.insert(pos, name)
    cols[name] = list(words)
    df = pd.DataFrame({c: cols[c] for c in order}, columns=order)
    if n == 0:
        df[name] = df[name].astype(int)
    df.index = labels(lb, n)
    what = 'table of %s (%s labels, column %r at %d)' % (words[:4], lb, name, pos)
    out = decode_dgs_status_bits(df, key=name) if name != 'status' else decode_dgs_status_bits(df)
    ctx.trace()
    ctx.ev(n)
    ctx.check(list(out.columns) == order[:1] + FLAGS + order[1:], '%s: columns are %s', what, list(out.columns))
    ctx.check(len(out) == n and list(out.index) == labels(lb, n), '%s: rows or row labels changed', what)
    for c in order:
        ctx.check(out[c].tolist() == cols[c], '%s: column %s changed', what, c)
    want = [flags(w) for w in words]
    for f in FLAGS:
        got = [digit(x) for x in out[f].tolist()]
        ctx.check(got == [w[f] for w in want], '%s: flag %r is %s, expected %s', what, f, got[:6], [w[f] for w in want][:6])


def run(case, ctx):
    from shipgrav.utils import decode_dgs_status_bits
    if case[0] == 'one':
        for w in range(case[1], case[1] + 1024):
            d = decode_dgs_status_bits(w)
            ctx.check(list(d) == FLAGS, 'word %d: flags named %s', w, list(d))
            want = flags(w)
            for f in FLAGS:
                ctx.check(digit(d[f]) == want[f], 'word %d: %r is %r, expected %d', w, f, d[f], want[f])
            ctx.state(w)
            for b in range(16):
                ctx.edge(w, b)      # flipping bit b leads to another decoded word of this space
            ctx.trace()
            ctx.ev()
    elif case[0] == 'all':
        table(ctx, list(range(case[1], case[1] + 8192)), case[2], 'status', 1)
    elif case[0] == 'long':
        n = case[1]
        table(ctx, [(i * 40503 + i // 65536) % 65536 for i in range(n)], 'range', 'status', 1)
        ctx.state(case)
        ctx.edge('long', n)
    elif case[0] == 'tab':
        n = case[2]
        for tail in itertools.product(EDGE, repeat=n - len(case[1])):
            words = case[1] + list(tail)
            full = n < 3 or words[0] in EDGE[:5]
            for lb in LABELS if full else ['repeated']:
                for name, pos in (('status', 1), ('flags', 2), ('w', 0)) if full else (('status', 1),):
                    table(ctx, words, lb, name, pos)
            ctx.state(tuple(words))
            ctx.edge(tuple(words[:-1]), words[-1] if words else None)
    else:
        a0 = case[1]
        for b in range(0, 65536, 257):
            words = []
            for a in range(a0, a0 + 256):
                words += [a, b]
            table(ctx, words, 'gap', 'status', 1)
    ctx.outcome(case[0])
