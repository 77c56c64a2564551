"""C32: a read that fails part-way fails as a whole; reads cut into pieces are whole."""
import contextlib
import errno
import gc
import io
import itertools
import os
from . import c31
from . import calls
from . import navfmt as nf

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every reader and vessel format and the .ini conversion, lists of one and two files: an input/output error, an interrupt or a device that fails for good at every single open, read, '
             'map and write of the call, with files handed over whole or in pieces of 5 sizes; pieces of every size up to 40 bytes and 12 larger ones',
    'thorough': 'three files; pieces of every size up to the whole file; faults at every operation for 12 sizes; every pair of faults (a call that fails, then another)',
}


NAMES = {'error': 'error', 'stop': 'interrupt', 'dead': 'error from then on'}


class Plan:
    """every operation on the watched files, and the one that fails"""

    def __init__(self, roots, at=None, kind='error', chunk=None):
        self.roots, self.at, self.kind, self.chunk = roots, at, kind, chunk
        self.n, self.log, self.raws = 0, [], []

    def op(self, what):
        self.n += 1
        self.log.append(what)
        if self.n - 1 == self.at or self.kind == 'dead' and self.at is not None and self.n > self.at:
            if self.kind != 'stop':
                raise OSError(errno.EIO, 'planned input/output error')
            raise KeyboardInterrupt('planned')

    def watched(self, file):
        if not isinstance(file, (str, bytes, os.PathLike)):
            return False
        p = os.path.abspath(os.fsdecode(os.fspath(file)))
        return any(p == r or p.startswith(r + os.sep) for r in self.roots)


class Raw(io.RawIOBase):
    def __init__(self, plan, path, flags, mode):
        self.plan, self.name, self.mode = plan, path, mode
        self.fd = None
        plan.op('open')
        self.fd = os.open(path, flags, 0o666)
        if os.path.isdir(path):
            os.close(self.fd)
            self.fd = None
            raise IsADirectoryError(errno.EISDIR, 'is a directory', path)
        plan.raws.append(self)

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return 'r' not in self.mode or '+' in self.mode

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def readinto(self, b):
        self.plan.op('read')
        m = len(b) if self.plan.chunk is None else min(len(b), self.plan.chunk)
        d = os.read(self.fd, m)
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        self.plan.op('write')
        m = len(b) if self.plan.chunk is None else min(len(b), self.plan.chunk)
        return os.write(self.fd, bytes(b[:m]))

    def truncate(self, size=None):
        os.ftruncate(self.fd, self.tell() if size is None else size)
        return size

    def close(self):
        if not self.closed and self.fd is not None:
            os.close(self.fd)
            self.fd = None
        super().close()


@contextlib.contextmanager
def controlled(plan):
    import builtins
    import locale
    import mmap
    real, real_io, real_map = builtins.open, io.open, mmap.mmap

    def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not plan.watched(file) or opener is not None:
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        up = '+' in mode
        fl = os.O_RDONLY if 'r' in mode else os.O_WRONLY | os.O_CREAT | (os.O_APPEND if 'a' in mode else os.O_EXCL if 'x' in mode else os.O_TRUNC)
        if up:
            fl = fl & ~os.O_WRONLY | os.O_RDWR
        raw = Raw(plan, os.fspath(file), fl, mode)
        if buffering == 0:
            return raw
        buf = io.BufferedRandom(raw) if up else io.BufferedReader(raw) if 'r' in mode else io.BufferedWriter(raw)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding if encoding not in (None, 'locale') else locale.getpreferredencoding(False), errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t

    class Map(real_map):
        def __new__(cls, *a, **k):
            plan.op('map')
            return real_map.__new__(cls, *a, **k)
    builtins.open = io.open = fopen
    mmap.mmap = Map
    try:
        yield plan
    finally:
        builtins.open, io.open, mmap.mmap = real, real_io, real_map


def formats():
    yield from c31.formats()
    yield 'ini', 'x'


def groups(tier):
    nf_ = (1, 2) if tier == 'quick' else (1, 2, 3)
    yield 'faults', (['fault', k, s, n, kind] for k, s in formats() for n in nf_ for kind in ('error', 'stop', 'dead') if n == 1 or k not in ('feed', 'ini')), 1
    yield 'pieces', (['piece', k, s] for k, s in formats()), 1
    yield 'lists', (['bad', k, s, how] for k, s in formats() if k not in ('feed', 'ini') for how in ('missing', 'dir', 'bytes')), 1
    if tier != 'quick':
        yield 'two faults', (['two', k, s] for k, s in formats()), 1


INI = '[Sensor]\nGain=1.5\nName=AT1M-3 // meter\nOn=TRUE\nPort = COM4\n[$GPGGA]\nRate=007\nText="a // b"\n'


def job(ctx, kind, s, n):
    """(call to make, roots to watch, image of its result)"""
    import shipgrav.io as sgi
    from shipgrav import utils
    db = os.path.join(os.path.dirname(os.path.abspath(sgi.__file__)), 'database.toml')
    roots = [os.path.abspath(ctx.tmp), db]
    if kind == 'ini':
        p = ctx.write('m.ini', INI)

        def f():
            o = utils.clean_ini_to_toml(p)
            with io.FileIO(o) as h:
                return ('toml', h.readall().decode())
        return f, roots, lambda r: r
    if kind == 'feed':
        from . import c10
        y = ctx.write('f.yaml', c10.YAML)
        p = ctx.write('f.txt', '\n'.join(x for r in c31.parts('feed', s, 1, 3)[1] for x in r) + '\n')
        return lambda: sgi.read_other_stuff(y, p, s), roots, calls.freeze
    ps = []
    for i in range(n):
        h, recs = c31.parts(kind, s, i + 1, 3)
        ps.append(ctx.write('d%d' % i, c31.text(h, recs, ['\n'] * 3, [0] * 4, True)))
    read = c31.reader(kind, s)
    return lambda: read(ps if n > 1 else ps[0]), roots, calls.freeze


def attempt(f, image, plan):
    """('raised', type) or the image of the result; refused counts as raised"""
    try:
        with controlled(plan):
            r = f()
    except (OSError, KeyboardInterrupt, Exception) as e:
        if type(e).__name__ == 'HarnessHang':
            raise
        return ('raised', type(e).__name__)
    return ('raised', 'refused') if nf.is_refusal(r) else image(r)


def run(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        {'fault': faults, 'piece': pieces, 'bad': lists, 'two': faults2}[case[0]](case, ctx)


def plain(ctx, f, image, roots, what, chunk=None):
    plan = Plan(roots, chunk=chunk)
    r = attempt(f, image, plan)
    ctx.check(r[0] != 'raised', '%s without a fault: %s', what, r)
    return r, plan


def closed(ctx, plan, what):
    if any(not r.closed for r in plan.raws):
        gc.collect()
    ctx.check(all(r.closed for r in plan.raws), '%s: a file is left open', what)


def faults(case, ctx):
    _, k, s, n, kind = case
    f, roots, image = job(ctx, k, s, n)
    size = max(os.path.getsize(os.path.join(ctx.tmp, x)) for x in os.listdir(ctx.tmp) if os.path.isfile(os.path.join(ctx.tmp, x)))
    pieces_ = (None, size // 2, size // 3, size // 7, 61) if ctx.tier == 'quick' else (None, size - 1, size // 2 + 1, size // 2, size // 3, size // 4, size // 5, size // 7, size // 11, 61, 37, 17)
    what = '%s %s, %d file(s)' % (k, s, n)
    want, _ = plain(ctx, f, image, roots, what)
    for c in pieces_:
        got, plan = plain(ctx, f, image, roots, what + ' in pieces of %s' % c, c)
        d = calls.differ(got, want)
        ctx.check(d is None, '%s in pieces of %s: %s', what, c, d)
        ops = plan.log
        for at in range(len(ops)):
            p = Plan(roots, at, kind, c)
            got = attempt(f, image, p)
            w = '%s in pieces of %s, %s at operation %d (%s) of %d' % (what, c, NAMES[kind], at, ops[at], len(ops))
            # a table in spite of it has to be the whole one (the call may have tried again)
            d = None if got[0] == 'raised' else calls.differ(got, want)
            ctx.check(d is None, '%s: a result that is not whole: %s', w, d)
            closed(ctx, p, w)
            ctx.state((k, s, n, kind, c, at))
            ctx.edge((k, s, n, kind, c), at)
            ctx.outcome('%s at %s: %s' % (kind, ops[at], 'refused' if got[0] == 'raised' else 'whole'))
            ctx.ev(1)
        d = calls.differ(plain(ctx, f, image, roots, what + ' after faults')[0], want)
        ctx.check(d is None, '%s after faults: %s', what, d)
        ctx.trace()


def faults2(case, ctx):
    """two failing calls in a row, then a good one"""
    _, k, s = case
    f, roots, image = job(ctx, k, s, 1 if k in ('feed', 'ini') else 2)
    what = '%s %s' % (k, s)
    want, plan = plain(ctx, f, image, roots, what, 211)
    m = len(plan.log)
    for a, b in itertools.product(range(m), repeat=2):
        for at in (a, b):
            got = attempt(f, image, Plan(roots, at, 'error', 211))
            d = None if got[0] == 'raised' else calls.differ(got, want)
            ctx.check(d is None, '%s, errors at operations %d, then %d: a result that is not whole: %s', what, a, b, d)
        d = calls.differ(plain(ctx, f, image, roots, what)[0], want)
        ctx.check(d is None, '%s after errors at operations %d and %d: %s', what, a, b, d)
        ctx.state((k, s, 'two', a, b))
        ctx.edge((k, s, 'two', a), b)
        ctx.ev(1)
    ctx.trace()


def pieces(case, ctx):
    _, k, s = case
    f, roots, image = job(ctx, k, s, 1 if k in ('feed', 'ini') else 2)
    size = max(os.path.getsize(os.path.join(ctx.tmp, x)) for x in os.listdir(ctx.tmp) if os.path.isfile(os.path.join(ctx.tmp, x)))
    what = '%s %s' % (k, s)
    want, _ = plain(ctx, f, image, roots, what)
    for c in list(range(1, 41)) + [size * i // 12 for i in range(1, 13)] if ctx.tier == 'quick' else range(1, size + 2):
        if c < 1:
            continue
        d = calls.differ(plain(ctx, f, image, roots, what + ' in pieces of %d' % c, c)[0], want)
        ctx.check(d is None, '%s in pieces of %d: %s', what, c, d)
        ctx.state((k, s, 'piece', c))
        ctx.edge((k, s, 'piece'), c)
        ctx.ev(1)
    ctx.trace()
    ctx.outcome('pieces %s %s' % (k, s))


def lists(case, ctx):
    """lists in which any of the files cannot be read"""
    _, k, s, how = case
    _, roots, image = job(ctx, k, s, 3)
    read = c31.reader(k, s)
    good = [ctx.path('d%d' % i) for i in range(3)]
    bad = ctx.path('nothing') if how == 'missing' else ctx.tmp
    if how == 'bytes':
        with open(good[0], 'rb') as f:
            t = f.read()
        bad = ctx.write('bad', t[:len(t) // 2] + b'\xff\xfe\x00\x81' + t[len(t) // 2:])
    for n in (1, 2, 3):
        for w in itertools.product((True, False), repeat=n):
            ps = [g if x else bad for g, x in zip(good, w)]
            got = attempt(lambda: read(ps), image, Plan(roots))
            what = '%s %s, list with %s files %s' % (k, s, how, [i for i, x in enumerate(w) if not x])
            if all(w):
                ctx.check(got[0] != 'raised', '%s: %s', what, got)
                ctx.check(len(got[2]) > 0, '%s: nothing', what)
            elif how != 'bytes':
                ctx.check(got[0] == 'raised', '%s: not refused', what)
            else:
                # either refused or what the good files hold is there
                whole = attempt(lambda: read([p for p, x in zip(good, w) if x]), image, Plan(roots)) if any(w) else None
                if got[0] != 'raised' and whole:
                    ctx.check(count(got) >= count(whole), '%s: %d records, the good files hold %d', what, count(got), count(whole))
            ctx.state((k, s, how, w))
            ctx.edge((k, s, how, w[:-1]), w[-1])
            ctx.ev(1)
    ctx.trace()
    ctx.outcome('%s in a list' % how)


def count(im):
    """rows of a frame's image"""
    return len(im[2]) if isinstance(im[2], (list, tuple)) and im[2] else 0
