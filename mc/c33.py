"""C33: what a file is called, where it lies and how its path is written has no influence on what is read from it."""
import contextlib
import io
import itertools
import os
import shutil
import sys
from . import c31
from . import calls
from . import navfmt as nf

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every reader and vessel format: 60 file names and 14 directory names, alone and in lists, bare and as a list; 12 ways to write a path; every order of 3 files under every '
             'assignment of 4 sets of names (whose alphabetical order is another one); every pattern of up to 3 mentions of 2 files; the same for feed descriptions and .ini files; '
             'no file but the named ones is opened, none is written but the converted one',
    'thorough': 'every pair of file and directory name; every order of 4 files; patterns of up to 5 mentions of 3 files',
}
# pandas unpacks names that end like archives; such names are not claimed
NAMES = ['x', 'x.dat', 'X.DAT', 'x.csv', 'x.CSV', 'x.txt', 'x.txt.old', 'x.Raw', 'x.GPS', 'x.gps', 'x.log', 'x.json', 'x.xlsx', 'x.pkl', 'x.html', 'x.ini', 'x.toml', 'x.yaml', 'x.py',
         '.hidden', '.x.dat', 'no extension', ' x', 'x ', 'a  b.dat', '\u00e4\u2014\u00e9.dat', '\u6d77.dat', 'a#b', '#x', 'a%20b', '100%', '%s %d', 'a*b', '*', 'a?b', '[1].dat', 'a;b', 'a,b', "a'b", 'a"b',
         '$HOME', '${x}', '{x}', '{0}', '-x', '--help', '~', '~x', '20230616', '2023-06-16T00Z.dat', '10001231.dat', 'x.', 'x..dat', 'new\nline', 'tab\t.x', 'a\\b', 'n' * 200, 'a&b=c|d', '$GPGGA',
         'None', '-999']
DIRS = ['d', 'd 1', 'd.ini', 'a.b.c', '2023', 'Atlantis', 'Langseth', 'Thompson_serial', '\u00e9', 'x#y', '%d', '[ab]', '~', 'm' * 100]
SETS = [['a', 'b', 'c', 'd'], ['c', 'b', 'a', '0'], ['10', '9', '100', '1'], ['B', 'a', 'A', 'b']]


def kinds():
    yield from c31.formats()
    yield 'ini', 'x'


def groups(tier):
    q = tier == 'quick'
    yield 'names', (['name', k, s, i] for k, s in kinds() for i in range(0, len(NAMES), 5)), 2
    yield 'directories', (['dir', k, s, i] for k, s in kinds() for i in range(len(DIRS))), 4
    if not q:
        yield 'names and directories', (['both', k, s, i] for k, s in kinds() for i in range(len(NAMES))), 2
    yield 'ways', (['way', k, s] for k, s in kinds()), 1
    yield 'orders', (['order', k, s, 3 if q else 4] for k, s in kinds() if k not in ('feed', 'ini')), 1
    yield 'mentions', (['again', k, s, 2 if q else 3, 3 if q else 5] for k, s in kinds() if k not in ('feed', 'ini')), 1


def content(k, s, seed, n=2):
    if k == 'ini':
        return '[A%d]\nx = %d\ny = TRUE // c\nz = text %d\n' % (seed, 5 + seed, 7 + seed)
    if k == 'feed':
        return calls.other_text(seed, n)
    head, recs = c31.parts(k, s, seed, n)
    return ''.join(x + '\n' for x in head) + ''.join(x + '\n' for r in recs for x in r)


_seen, _on = [], [False]


def hook(event, args):
    if _on[0] and event == 'open' and isinstance(args[0], (str, bytes)):
        _seen.append((os.path.abspath(os.fsdecode(args[0])), args[1], args[2]))


_hooked = []


class Run:
    """one format; image(paths) is what the call gives, with what it opened"""

    def __init__(self, ctx, k, s):
        if not _hooked:
            sys.addaudithook(hook)
            _hooked.append(1)
        self.ctx, self.k, self.s = ctx, k, s
        self.read = None if k in ('feed', 'ini') else c31.reader(k, s)
        self.y = None
        if k == 'feed':
            from . import c10
            self.y = ctx.write('plain.yaml', c10.YAML)

    def call(self, p, y=None):
        import shipgrav.io as sgi
        import shipgrav.utils as utils
        if self.k == 'feed':
            return calls.freeze(sgi.read_other_stuff(y or self.y, p, self.s))
        if self.k == 'ini':
            o = utils.clean_ini_to_toml(p)
            with open(o) as f:
                t = f.read()
            os.unlink(o)
            return [os.path.basename(o), t]
        return calls.freeze(self.read(p))

    def image(self, p, y=None):
        del _seen[:]
        _on[0] = True
        try:
            r = self.call(p, y)
        except Exception as e:
            if type(e).__name__ == 'HarnessHang':
                raise
            r = ('raised', '%s: %s' % (type(e).__name__, str(e)[:150]))
        finally:
            _on[0] = False
        return r

    def others(self, paths):
        """files opened that are neither named nor the library's own"""
        import shipgrav
        own = os.path.dirname(os.path.abspath(shipgrav.__file__)) + os.sep
        named = {os.path.abspath(x) for x in paths}
        named |= {os.path.realpath(x) for x in paths}
        if self.k == 'ini':
            named |= {os.path.abspath(x)[:-3] + 'toml' for x in paths}
        libs = tuple(os.path.abspath(x) + os.sep for x in sys.path if x and os.path.isdir(x) and 'python' in x) + (sys.prefix, sys.base_prefix, '/usr/share/zoneinfo', '/dev/', '/proc/', '/sys/', '/etc/')
        bad = []
        for p, mode, flags in _seen:
            if p in named or os.path.realpath(p) in named:
                writing = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_TRUNC | os.O_CREAT)
                if writing and not p.endswith('.toml'):
                    bad.append('%s for writing' % p)
            elif not p.startswith(own) and not p.startswith(libs) and os.path.lexists(p):     # (scratch files that are gone again are nobody's business)
                bad.append(p)
        return bad

    def check(self, p, want, what, paths, y=None):
        got = self.image(p, y)
        if self.k == 'ini' and got[0] != 'raised':
            # next to it, of the same name
            src = os.path.basename(paths[0])
            self.ctx.check(got[0] == src[:-3] + 'toml', '%s: converted into %r', what, got[0])
            got = got[1:]
        d = calls.differ(got, want)
        self.ctx.check(d is None, '%s %s, %s: %s', self.k, self.s, what, d)
        o = self.others(list(paths) + ([y or self.y] if self.k == 'feed' else []))
        self.ctx.check(not o, '%s %s, %s: opened %s', self.k, self.s, what, o)
        self.ctx.ev()

    def plain(self, seeds):
        ps = [self.ctx.write('plain%d.ini' % x, content(self.k, self.s, x)) for x in seeds]
        r = self.image(ps[0] if self.read is None else ps)
        self.ctx.check(r[0] != 'raised', '%s %s: plainly named: %s', self.k, self.s, r)
        return r[1:] if self.k == 'ini' else r


def run(case, ctx):
    here = os.getcwd()
    root = ctx.path('names')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            go(case, ctx, root)
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)


def put(d, name, text):
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, 'w', newline='') as f:
        f.write(text)
    return p


def spelled(k, name):
    return name if k != 'ini' else name + '.ini'


def go(case, ctx, root):
    kind, k, s = case[:3]
    R = Run(ctx, k, s)
    if kind in ('name', 'dir', 'both'):
        one, two = R.plain([1]), None if R.read is None else R.plain([1, 2])
        if kind == 'name':
            pairs = [('', n) for n in NAMES[case[3]:case[3] + 5]]
        elif kind == 'dir':
            pairs = [(DIRS[case[3]], n) for n in ('x.dat', 'x')]
        else:
            pairs = [(d, NAMES[case[3]]) for d in DIRS]
        for d, n in pairs:
            n = spelled(k, n)
            dd = os.path.join(root, d)
            p = put(dd, n, content(k, s, 1))
            what = 'file %r in %r' % (n[:20], d[:20])
            if R.read is None:
                R.check(p, one, what, [p])
                if k == 'feed':
                    from . import c10
                    z = put(os.path.join(root, 'y', d), n, c10.YAML)
                    R.check(p, one, 'description ' + what, [p], z)
            else:
                R.check(p, one, what, [p])
                R.check([p], one, what + ' in a list', [p])
                o = put(dd, n[:100] + '2', content(k, s, 2))
                R.check([p, o], two, what + ' before another', [p, o])
                put(dd, n[:100] + '2', content(k, s, 1))
                put(dd, n, content(k, s, 2))
                R.check([o, p], two, what + ' after another', [p, o])
            os.unlink(p)
            ctx.state((k, s, d, n))
            ctx.edge((k, s, d), n)
        ctx.trace()
        ctx.outcome('%s %s' % (k, s))
    elif kind == 'way':
        want = R.plain([1])
        n = spelled(k, 'x.dat')
        p = put(os.path.join(root, 'sub', 'low'), n, content(k, s, 1))
        os.makedirs(os.path.join(root, 'work'))
        os.chdir(os.path.join(root, 'work'))
        L = spelled(k, os.path.join(root, 'link'))
        os.symlink(p, L)
        os.symlink(os.path.join(root, 'sub'), os.path.join(root, 'dirlink'))
        H = spelled(k, os.path.join(root, 'hard'))
        os.link(p, H)
        rel = os.path.join('..', 'sub', 'low', n)
        ways = [p, rel, './' + rel, '/' + p, p.replace('/sub/', '//sub///'), p.replace('/sub/', '/./sub/./'), p.replace('/sub/', '/sub/../sub/'),
                os.path.join(root, 'dirlink', 'low', n), L, H, os.path.relpath(L), '../dirlink/../sub/low/' + n]
        for i, w in enumerate(ways):
            for lst in ((False,) if R.read is None else (False, True)):
                R.check([w] if lst else w, want, 'path written %r' % w.replace(root, ''), [w])
            ctx.state((k, s, 'way', i))
            ctx.edge((k, s, 'way'), i)
        # as an ordinary name in the working directory
        for m in ('x.dat', '-x', 'a b', '[1]', '%s', '{}', 'Atlantis'):
            m = spelled(k, m)
            put('.', m, content(k, s, 1))
            R.check(m, want, 'name %r' % m, [m])
            ctx.state((k, s, 'bare', m))
            ctx.edge((k, s, 'bare'), m)
        ctx.trace()
        ctx.outcome('%s %s' % (k, s))
    elif kind == 'order':
        n = case[3]
        want = {o: R.plain([x + 1 for x in o]) for o in itertools.permutations(range(n))}
        for si, names in enumerate(SETS):
            for o in itertools.permutations(range(n)):
                ps = [put(os.path.join(root, str(si)), names[j], content(k, s, o[j] + 1)) for j in range(n)]
                R.check(ps, want[o], 'files %s holding %s' % (names[:n], o), ps)
                # the same in directories whose order is another one
                qs = [put(os.path.join(root, names[j]), 'x.dat', content(k, s, o[j] + 1)) for j in range(n)]
                R.check(qs, want[o], 'directories %s holding %s' % (names[:n], o), qs)
                for p in ps + qs:
                    os.unlink(p)
                ctx.state((k, s, si, o))
                ctx.edge((k, s, si), o)
        ctx.trace()
        ctx.outcome('%s %s' % (k, s))
    else:
        m, longest = case[3:]
        ps = [put(root, 'f%d' % j, content(k, s, j + 1)) for j in range(m)]
        for L in range(1, longest + 1):
            for w in itertools.product(range(m), repeat=L):
                want = copies(R, w)
                R.check([ps[j] for j in w], want, 'list of files %s' % (w,), ps)
                ctx.state((k, s, 'again', w))
                ctx.edge((k, s, 'again', w[:-1]), w[-1])
        ctx.trace()
        ctx.outcome('%s %s' % (k, s))


def copies(R, w):
    """the same list, every mention a file of its own"""
    ps = [R.ctx.write('copy%d' % i, content(R.k, R.s, j + 1)) for i, j in enumerate(w)]
    r = R.image(ps)
    R.ctx.check(r[0] != 'raised', '%s %s: copies %s: %s', R.k, R.s, w, r)
    return r
