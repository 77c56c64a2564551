"""C13: meter .ini files convert to valid TOML with the same keys and values."""
import itertools
import math
import os

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '63 values x 7 key styles x 5 equals styles x 5 trailing comments as one-line documents; all documents of 2 lines over the '
             '63 values and 10 structural lines and of 3 lines over 20 lines; 7 file names x 3 line endings x final newline or not; '
             'stale output present',
    'thorough': 'documents of 3 lines over all 73 lines, of 4 lines over 12 lines',
}
# text on the right of the equals sign -> meaning
VALUES = [('0', 0), ('42', 42), ('-7', -7), ('+3', 3), ('8388607', 8388607), ('1.5', 1.5), ('-0.25', -.25), ('1e5', 1e5), ('1E+05', 1e5),
          ('1.0E-3', 1e-3), ('6.02e23', 6.02e23), ('.5', .5), ('5.', 5.0), ('-.5', -.5), ('007', 7), ('NaN', math.nan),
          ('-INF', -math.inf),
          ('TRUE', True), ('FALSE', False), ('true', True), ('false', False),
          ('hello', 'hello'), ('two words', 'two words'), ('COM1', 'COM1'), ('12:34:56', '12:34:56'), ('10.0.0.1', '10.0.0.1'),
          ('2024-01-02', '2024-01-02'), ('a=b', 'a=b'), ('x=y=z', 'x=y=z'), ('a = 5', 'a = 5'), ('C:\\data\\new', 'C:\\data\\new'), ('say "hi"', 'say "hi"'),
          ("it's", "it's"), ('TRUENORTH', 'TRUENORTH'), ('NOT FALSE', 'NOT FALSE'), ('True', 'True'), ('0x1F', '0x1F'),
          ('1,2', '1,2'), ('[1,2]', '[1,2]'), ('{a}', '{a}'), ('5 m', '5 m'), ('a$b', 'a$b'), ('$GPGGA', '$GPGGA'), ('', ''), ('\u00e9t\u00e9', '\u00e9t\u00e9'),
          ('"hello"', 'hello'), ('""', ''), ('"a//b"', 'a//b'), ('"a # b"', 'a # b'), ('"TRUE"', 'TRUE'), ('"x=y"', 'x=y'),
          ('"5"', '5'), ('"FALSE a  b"', 'FALSE a  b'),
          ('a\tb', 'a  b'), ('"a\tb"', 'a  b'), ('9007199254740993', 9007199254740993), ('-4611686018427387905', -4611686018427387905),
          ('.123456789012', .123456789012), ('007.000123456789', 7.000123456789), ('12345.678901234', 12345.678901234),
          ('one\u2028two', 'one\u2028two'), ('one\u0085two=3', 'one\u0085two=3'), ('"a\u2029b"', 'a\u2029b')]
# structural lines: text -> section opened or None
STRUCT = [('', None), ('   ', None), ('\t', None), ('# note = 1', None), ('// note = TRUE', None), ('  // indented = "x', None),
          ('\t# tab', None), ('[A]', 'A'), ('[B_2]  // c = 1', 'B_2'), ('[TRUE1]', 'TRUE1')]
KEYS = ['k%d', 'a_key-with.parts_of_Several_words_that_goes_on_for_more_than_sixty_characters_%d'.replace('.', '_'), 'k%d_TRUE', '  k%d', '\tk%d', '$GPG%d', '$k%d']
EQ = ['=', ' = ', '\t=\t', '= ', ' =']
COMM = ['', ' // c', ' # c = "x"', '\t//TRUE', '  #']
NAMES = ['Meter.ini', 'ini.ini', 'nini.ini', 'a.b.ini', 'x i n.ini', 'sub.ini/Meter.ini', 'n.ini']


def line(v, key=0, eq=1, comm=0, n=0):
    k = KEYS[key] % n
    return k + EQ[eq] + VALUES[v][0] + COMM[comm], (k.strip().lstrip('$'), VALUES[v][1])


def groups(tier):
    q = tier == 'quick'
    yield 'one line', (['one', v] for v in range(len(VALUES))), 1
    yield 'names', (['name', v, n] for v in range(len(VALUES)) for n in range(len(NAMES))), 10
    al = list(range(len(VALUES) + len(STRUCT)))
    yield 'two lines', (['doc', [a], 2] for a in al), 1
    if q:
        small = [0, 5, 11, 17, 21, 27, 30, 34, 42, 43, 45, 47] + [len(VALUES) + i for i in (0, 1, 3, 4, 5, 7, 8, 9)]
        yield 'three lines', (['docs', [a], 3, small] for a in small), 1
    else:
        yield 'three lines', (['doc', [a, b], 3] for a in al for b in al), 10
        small = [0, 11, 17, 21, 27, 30, 45, 47] + [len(VALUES) + i for i in (0, 4, 7, 8)]
        yield 'four lines', (['docs', [a, b], 4, small] for a in small for b in small), 2


def agree(ctx, got, want, what):
    ctx.check(isinstance(got, dict) and set(got) == set(want), '%s: keys %s, expected %s', what,
              sorted(got) if isinstance(got, dict) else got, sorted(want))
    for k, w in want.items():
        g = got[k]
        if isinstance(w, dict):
            agree(ctx, g, w, what + ' [%s]' % k)
        elif isinstance(w, (bool, str)):
            ctx.check(type(g) is type(w) and g == w, '%s: %s is %r, expected %r', what, k, g, w)
        else:
            ctx.check(isinstance(g, (int, float)) and not isinstance(g, bool) and (g == w or g != g and w != w),
                      '%s: %s is %r, expected %r', what, k, g, w)


def convert(ctx, text, want, what, name='Meter.ini', stale=False, rel=False):
    import tomli
    from shipgrav.utils import clean_ini_to_toml
    d = ctx.path('d')
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(text.encode('utf-8'))
    o = p[:-3] + 'toml'
    if stale:
        with open(o, 'w') as f:
            f.write('stale = 1\n' * 50)
    elif os.path.exists(o):
        os.unlink(o)
    out = clean_ini_to_toml(p)
    ctx.check(os.path.abspath(out) == os.path.abspath(o), '%s: written to %s, expected %s', what, out, o)
    with open(o, 'rb') as f:
        data = f.read()
    try:
        got = tomli.loads(data.decode('utf-8'))
    except Exception as e:
        ctx.check(False, '%s: not valid TOML (%s): %r', what, e, data[:200])
    agree(ctx, got, want, what)
    with open(p, 'rb') as f:
        ctx.check(f.read() == text.encode('utf-8'), '%s: the ini file was changed', what)
    ctx.check(sorted(os.listdir(os.path.dirname(p))) == sorted([os.path.basename(p), os.path.basename(o)]),
              '%s: other files were left: %s', what, os.listdir(os.path.dirname(p)))
    ctx.trace()
    ctx.ev(max(1, len(want)))


def doc(ctx, items):
    lines, want, sec, cur = [], {}, None, None
    cur = want
    st = ('', )
    for i, a in enumerate(items):
        if a < len(VALUES):
            t, (k, v) = line(a, key=(a + i) % len(KEYS) if i else 0, eq=(a + 2 * i) % len(EQ), comm=(a + i) % len(COMM), n=i)
            cur[k] = v
        else:
            t, s = STRUCT[a - len(VALUES)]
            if s is not None:
                if s in want:       # TOML allows a section only once; so do meter files
                    return
                cur = want[s] = {}
        lines.append(t)
        ctx.edge(st, a)
        st = tuple(items[:i + 1])
        ctx.state(st)
    text = '\n'.join(lines)
    nl = len(items) + sum(items)
    if nl % 2:
        text += '\n'
    convert(ctx, text, want, 'document %r' % text)
    ctx.outcome('%d lines' % len(items))


def run(case, ctx):
    if case[0] == 'one':
        v = case[1]
        for key, eq, comm in itertools.product(range(len(KEYS)), range(len(EQ)), range(len(COMM))):
            t, (k, val) = line(v, key, eq, comm)
            convert(ctx, t + '\n', {k: val}, 'line %r' % t)
            ctx.state((v, key, eq, comm))
            ctx.edge((v, key, eq), comm)
        for t, want in (('url = http://x', 'http:'), ('a = b // c // d', 'b'), ('a = b # c # d', 'b'), ('a = b// "c" // "d"', 'b')):
            convert(ctx, t, {t.split(' ')[0]: want}, 'line %r' % t)
    elif case[0] == 'name':
        v, n = case[1], case[2]
        t1, (k1, v1) = line(v, 0, 1, 1, 1)
        t2, (k2, v2) = line((v + 7) % len(VALUES), 4, 0, 0, 2)
        for nl in ('\n', '\r\n', '\n\n'):
            for final in (True, False):
                for stale in (True, False):
                    text = nl.join(['// head', '[S]', t1, t2]) + (nl if final else '')
                    convert(ctx, text, {'S': {k1: v1, k2: v2}}, 'file %s with %r' % (NAMES[n], text), NAMES[n], stale)
                    ctx.state((v, n, nl, final, stale))
                    ctx.edge((v, n), (nl, final, stale))
        import shutil
        shutil.rmtree(ctx.path('d'))
    else:
        al = case[3] if case[0] == 'docs' else range(len(VALUES) + len(STRUCT))
        for tail in itertools.product(al, repeat=case[2] - len(case[1])):
            doc(ctx, case[1] + list(tail))
