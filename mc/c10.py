"""C10: feed extraction returns every record of the feed and nothing else."""
import itertools

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'logs: every sequence of up to 3 lines over 10 line kinds (4 over 6: three feeds, bare/numeric prefix, empty fields, longer tag, '
             'mention of the tag, garbage, empty line) x LF/CRLF x final newline or not x 3 feeds x tag with and without $; '
             'every field position x 14 field texts, 13 x 13 prefixes; logs of 1-30000 lines',
    'thorough': 'sequences up to length 5 over 10 kinds, 6 over 6 kinds',
}
YAML = '''# test description
IXTest:
  category: "device_type"
  description: "feeds for extraction"
  format:
    HEHDT: '${:.2}HDT,{HeadingTrue:og},T*{CheckSum:x}'
    PASHR: '$PASHR,{GPSTime:g},{HeadingTrue:g},T,{Pitch:g},{Roll:g},{Heave:g},{Status:d}*{CheckSum:x}'
    PHGGA: '${:.2}GGA,{GPSTime:g},{Latitude:nlat_dir},{Longitude:nlat_dir},{FixQuality:d}'
    PHZDA: '${:.2}ZDA,{GPSTime:g},{GPSDay:d},{GPSMonth:d}'
  fields:
    GPSTime:
      units: ""
      description: "UTC of position fix in hhmmss.ss"
    Pitch:
      units: "Degrees"
    Roll:
      units: "Degrees"
    Heave:
      units: "Meters"
    HeadingTrue:
      units: "Degrees"
      description: "Heading, True"
    Latitude:
      units: "degrees"
'''
COLS = {'PASHR': ['GPSTime:g', 'HeadingTrue:g', 'T', 'Pitch:g', 'Roll:g', 'Heave:g', 'Status:d*CheckSum:x'],
        'HEHDT': ['HeadingTrue:og', 'T*CheckSum:x'],
        'PHGGA': ['GPSTime:g', 'Latitude:nlat_dir', 'Longitude:nlat_dir', 'FixQuality:d']}
INFO = {'GPSTime': {'units': '', 'description': 'UTC of position fix in hhmmss.ss'}, 'Pitch': {'units': 'Degrees'},
        'Roll': {'units': 'Degrees'}, 'Heave': {'units': 'Meters'},
        'HeadingTrue': {'units': 'Degrees', 'description': 'Heading, True'}, 'Latitude': {'units': 'degrees'}}
KINDS = ['A', 'B', 'C', 'a', 'n', 'e', 'x', 'm', 'j', 'z']
TEXTS = ['0', '7', '-1', '+2.5', '-0.04', '000123.085', '1e3', '', 'T', '0*38', 'N', '12345678901', '.5', '2023-06-16']

PREFIXES = ['', ' ', '2023-06-16T00:00:02.089227Z ', '04/01/2022,00:00:01.250,', '1674228947.583 ', '0 ', '-5,', 'log  A\t', '\t', 'a,,b, ',
            '!,', '123', 'x']


def groups(tier):
    q = tier == 'quick'
    for L in range(1, (4 if q else 6) + 1):
        if L < (4 if q else 6):
            yield 'lines %d' % L, (['seq', ''.join(w)] for w in itertools.product(KINDS, repeat=L)), 20
        else:
            yield 'lines %d' % L, (['seq', ''.join(w)] for w in itertools.product('ABaemz', repeat=L)), 60
    yield 'fields', (['field', t, i, x, y] for t in COLS for i in range(len(COLS[t])) for x in TEXTS for y in TEXTS), 30
    yield 'prefixes', (['pre', t, x, y] for t in COLS for x in PREFIXES for y in PREFIXES), 20
    yield 'sizes', (['size', n] for n in (1, 5, 50, 2000, 30000)), 1
    yield 'refusals', (['refuse', x] for x in ('notag', 'nolog', 'nolog$', 'mention', 'longer', 'absent-feed')), 1


def record(k, i):
    """(line, feed or None, prefix, fields)"""
    pre = '2023-06-16T00:00:%02d.089227Z ' % (i % 60)
    if k == 'A':
        f = ['0000%02d.085' % (i % 60), '%.2f' % (353.12 - i), 'T', '-%d.41' % i, '+2.0%d' % (i % 10), '0.6%d' % (i % 10), '1*3%d' % (i % 10)]
        return pre + '$PASHR,' + ','.join(f), 'PASHR', pre, f
    if k == 'a':        # nothing in front
        f = ['0000%02d.585' % (i % 60), '%.2f' % (10 + i), 'T', '%d.1' % i, '-%d.2' % i, '-0.6', '0*4%d' % (i % 10)]
        return '$PASHR,' + ','.join(f), 'PASHR', '', f
    if k == 'n':        # numeric stamp in front
        p = '%d.583 ' % (1674228947 + i)
        f = ['1', '2', 'T', '3', '4', '5', '6']
        return p + '$PASHR,' + ','.join(f), 'PASHR', p, f
    if k == 'e':        # empty fields, first and last too
        f = ['', '%.2f' % (200 + i), 'T', '', '%d' % i, '', '']
        return pre + '$PASHR,' + ','.join(f), 'PASHR', pre, f
    if k == 'B':
        f = ['%.2f' % (153.2 + i), 'T*1%d' % (i % 10)]
        return pre + '$HEHDT,' + ','.join(f), 'HEHDT', pre, f
    if k == 'C':
        f = ['0000%02d.08' % (i % 60), '4419.27', '12500.3%d' % (i % 10), '2']
        return pre + '$PHGGA,' + ','.join(f), 'PHGGA', pre, f
    if k == 'x':        # another feed whose name starts like this one
        return pre + '$PASHRVEL,1,2,3,4,5,6,7', None, None, None
    if k == 'm':        # tag named in a remark
        return pre + 'operator: PASHR, HEHDT and PHGGA restarted', None, None, None
    if k == 'j':
        return ',,,*&^ 12,,', None, None, None
    return '', None, None, None


def value(x):
    """what a field text means: number, missing or text"""
    if x is None or x == '':
        return None
    try:
        return float(x)
    except ValueError:
        return x


def same(g, w):
    miss = g is None or g != g
    if w is None:
        return miss or (isinstance(g, str) and g.strip() == '')
    if miss:
        return False
    if isinstance(w, float):
        return not isinstance(g, str) and abs(float(g) - w) <= 1e-9 * max(1, abs(w))
    return isinstance(g, str) and g.strip() == w.strip()


def compare(ctx, yml, path, tag, want, what):
    import shipgrav.io as sgi
    for tg in (tag, '$' + tag):
        df, info = sgi.read_other_stuff(yml, path, tg)
        ctx.check(len(df) == len(want), '%s tag %s: %d rows, expected %d', what, tg, len(df), len(want))
        for j, c in enumerate(COLS[tag]):
            ctx.check(c in df.columns, '%s tag %s: column %s missing', what, tg, c)
            for i, g in enumerate(df[c].tolist()):
                w = value(want[i][1][j]) if j < len(want[i][1]) else None
                ctx.check(same(g, w), '%s tag %s: row %d field %s is %r, recorded %r', what, tg, i, c, g, w)
        ctx.check('mystery' in df.columns, 'no column for what precedes the tag')
        for i, g in enumerate(df['mystery'].tolist()):
            w = value(want[i][0].strip())
            ctx.check(same(g, w), '%s tag %s: row %d prefix is %r, recorded %r', what, tg, i, g, w)
        exp = {c: INFO[c.split(':')[0]] for c in COLS[tag] if c.split(':')[0] in INFO}
        ctx.check(info == exp, '%s tag %s: field descriptions %r', what, tg, info)
        ctx.trace()
        ctx.ev(len(want))


def refused(fn, ctx, what):
    from .navfmt import is_refusal
    try:
        r = fn()
    except Exception:
        ctx.outcome('refused')
        return
    ctx.check(is_refusal(r), '%s: not refused, returned %s', what, type(r).__name__)
    ctx.outcome('refused')


def run(case, ctx):
    import shipgrav.io as sgi
    yml = ctx.write('d.yaml', YAML)
    if case[0] == 'seq':
        word = case[1]
        recs = [record(k, i) for i, k in enumerate(word)]
        st = ()
        for k in word:
            ctx.edge(st, k)
            st = st + ((k in 'Aane') and 'A' or k in 'BC' and k or '.',)
            ctx.state(word[:len(st)])
        for eol in ('\n', '\r\n'):
            for fin in (True, False):
                if len(word) > 3 and (eol == '\n') != fin:
                    continue
                data = eol.join(r[0] for r in recs) + (eol if fin else '')
                if not data:
                    continue
                p = ctx.write('l.txt', data.encode())
                for tag in COLS:
                    want = [(r[2], r[3]) for r in recs if r[1] == tag]
                    what = 'log %s eol %r final %s' % (word, eol, fin)
                    if not want:
                        refused(lambda: sgi.read_other_stuff(yml, p, tag), ctx, what + ' tag ' + tag)
                        continue
                    compare(ctx, yml, p, tag, want, what)
                    ctx.outcome('%d rows' % len(want))
    elif case[0] == 'field':
        _, tag, i, x, y = case
        base = [record({'PASHR': 'A', 'HEHDT': 'B', 'PHGGA': 'C'}[tag], n) for n in range(3)]
        rows = []
        for n, tx in ((0, x), (1, y), (2, None)):
            f = list(base[n][3])
            if tx is not None:
                f[i] = tx
            rows.append((base[n][2], f))
        data = '\n'.join(p + '$' + tag + ',' + ','.join(f) for p, f in rows) + '\n'
        p = ctx.write('l.txt', data)
        compare(ctx, yml, p, tag, rows, 'field %d of %s = %r, %r' % (i, tag, x, y))
        ctx.state((tag, i, x, y))
        ctx.edge((tag, i), (x, y))
    elif case[0] == 'pre':
        _, tag, x, y = case
        base = [record({'PASHR': 'A', 'HEHDT': 'B', 'PHGGA': 'C'}[tag], n) for n in range(2)]
        rows = [(p, r[3]) for p, r in zip((x, y), base)]
        p = ctx.write('l.txt', '\n'.join(p + '$' + tag + ',' + ','.join(f) for p, f in rows) + '\n')
        compare(ctx, yml, p, tag, rows, 'prefixes %r, %r of %s' % (x, y, tag))
        ctx.state((tag, x, y))
        ctx.edge((tag, x), y)
    elif case[0] == 'size':
        n = case[1]
        kinds = [['A', 'B', 'C', 'j', 'A', 'x', 'B'][i % 7] for i in range(n)]
        recs = [record(k, i % 60) for i, k in enumerate(kinds)]
        for fin in (True, False):
            p = ctx.write('l.txt', '\n'.join(r[0] for r in recs) + ('\n' if fin else ''))
            for tag in COLS:
                want = [(r[2], r[3]) for r in recs if r[1] == tag]
                if want:
                    compare(ctx, yml, p, tag, want, '%d lines' % n)
        ctx.state(('size', n))
    else:
        x = case[1]
        p = ctx.write('l.txt', record('A', 1)[0] + '\n' + record('B', 2)[0] + '\n')
        if x == 'notag':
            refused(lambda: sgi.read_other_stuff(yml, p, 'GPGGA'), ctx, 'tag not described')
        elif x == 'nolog':
            refused(lambda: sgi.read_other_stuff(yml, p, 'PHGGA'), ctx, 'feed not in the log')
        elif x == 'nolog$':
            refused(lambda: sgi.read_other_stuff(yml, p, '$PHGGA'), ctx, 'feed not in the log')
        elif x == 'mention':
            p = ctx.write('l.txt', record('m', 1)[0] + '\n')
            refused(lambda: sgi.read_other_stuff(yml, p, 'PASHR'), ctx, 'feed only mentioned in the log')
        elif x == 'longer':
            p = ctx.write('l.txt', record('x', 1)[0] + '\n')
            refused(lambda: sgi.read_other_stuff(yml, p, 'PASHR'), ctx, 'only a feed with a longer name in the log')
        else:
            # described under fields but not under format
            refused(lambda: sgi.read_other_stuff(yml, p, 'Pitch'), ctx, 'a field name is not a feed')
        ctx.state(x)
        ctx.trace()
