"""C24: the line picker's selection always mirrors the clicks that made it."""
import copy
import itertools
from types import SimpleNamespace

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'tables of 1, 2, 3 and 5 samples (uneven times, epoch seconds, negative times, own row labels): all sequences of up to 2 (up to three samples: 3) of all '
             'events (moves, 3 buttons and double clicks at every pointer position on, between and beyond the samples, in the map, outside both), '
             'all sequences of up to 3 of half of the positions, of up to 5 of 6 events; runs left^a right^b left^c right^d up to 7 each; '
             'a sweep over 400 samples',
    'thorough': 'up to 3 (short tables: 4) of all events, 4 of half, 7 of 6 events; runs up to 10',
}


class Line:
    """what is used of matplotlib.lines.Line2D"""

    def __init__(self, x=(), y=()):
        self._x, self._y, self._v = copy.copy(x), copy.copy(y), True

    def get_data(self, orig=True):
        return self._x, self._y

    def get_xdata(self, orig=True):
        return self._x

    def get_ydata(self, orig=True):
        return self._y

    def set_data(self, *a):
        x, y = a if len(a) == 2 else a[0]
        self.set_xdata(x)
        self.set_ydata(y)

    def set_xdata(self, x):
        if not hasattr(x, '__len__'):
            raise RuntimeError('x must be a sequence')
        self._x = copy.copy(x)

    def set_ydata(self, y):
        if not hasattr(y, '__len__'):
            raise RuntimeError('y must be a sequence')
        self._y = copy.copy(y)

    def get_visible(self):
        return self._v

    def set_visible(self, b):
        self._v = bool(b)

    def update(self, props):
        for k, v in props.items():
            getattr(self, 'set_' + k)(v)

    def set(self, **kw):
        self.update(kw)


class Canvas:
    def __init__(self, look):
        self.look, self.shown, self.idle = look, None, False

    def draw(self):
        self.shown, self.idle = self.look(), False

    def draw_idle(self):
        self.idle = True

    def flush_events(self):
        self.settle()

    def settle(self):
        if self.idle:
            self.draw()


class Axes:
    def __init__(self, fig, lim):
        self.figure, self.lim, self.lines = fig, lim, []

    def get_figure(self, root=False):
        return self.figure

    def get_xlim(self):
        return self.lim[0]

    def get_ylim(self):
        return self.lim[1]

    def _add(self, ln):
        self.lines.append(ln)
        return ln

    def axhline(self, y=0, **kw):
        return self._add(Line([0, 1], [y, y]))

    def axvline(self, x=0, **kw):
        return self._add(Line([x, x], [0, 1]))

    def plot(self, x, y, *a, **kw):
        return [self._add(Line(x, y))]


TABLES = {
    'one': ([7.0], None),
    'two': ([0.0, 1.0], None),
    'three': ([-2.0, 0.5, 1.0], [10, 3, 77]),
    'epoch': ([1.6e9, 1.6e9 + 1, 1.6e9 + 2.5], [2, 0, 1]),
    'five': ([0.0, 1.0, 2.0, 5.0, 5.25], [4, 3, 2, 1, 0]),
    'named': ([3.0, 4.0, 8.0], ['c', 'a', 'b']),
}


def table(name):
    import pandas as pd
    if name.startswith('long'):
        n = int(name[4:])
        t, idx = [1000.0 + i + (0.3 if i % 7 == 3 else 0) for i in range(n)], list(range(5, 5 + n))
    else:
        t, idx = TABLES[name]
    n = len(t)
    d = pd.DataFrame({'faa': [10.0 - 3.5 * i for i in range(n)], 'lon_new': [179.0 + 0.75 * i for i in range(n)],
                      'tsec': t, 'lat_new': [-5.0 + 0.25 * ((i * 3) % 5) + i * .01 for i in range(n)]}, index=idx)
    return d, t


def pointers(t):
    """pointer positions on, beside, between and beyond the samples"""
    out = [t[0] - 100.0, t[-1] + 1000.0]
    for i, x in enumerate(t):
        out.append(x)
        if i + 1 < len(t):
            d = t[i + 1] - x
            out += [x + 0.45 * d, x + 0.55 * d]
    return out


def events(t, mode):
    P = pointers(t)
    if mode == 'half':
        P = P[:2] + P[2::3] + P[3::6]
    if mode == 'few':
        a, b = t[0] + 0.1, t[-1] - 0.1
        return [['m', 1, a], ['m', 1, b], ['m', 2, a], ['c', 1, a, 1], ['c', 1, b, 1], ['c', 1, a, 3]]
    E = [['m', 1, p] for p in P] + [['c', 1, p, 1] for p in P]
    E += [['c', 1, p, 3] for p in (P[0], P[2])] + [['c', 1, P[-1], 2]]
    # the second press of a double click is a press like any other
    E += [['c', 1, P[0], 1, 'double'], ['c', 1, P[2], 3, 'double']]
    E += [['m', 2, P[2]], ['m', 0, None], ['c', 2, P[2], 1], ['c', 2, P[2], 3], ['c', 0, None, 1], ['c', 0, None, 3]]
    return E


def groups(tier):
    q = tier == 'quick'
    T = list(TABLES)

    def seqs(mode, depth, tabs):
        for name in tabs:
            E = events(TABLES[name][0], mode)
            for L in range(1, min(2, depth) + 1):
                for p in itertools.product(range(len(E)), repeat=L):
                    yield ['seq', name, mode, list(p), depth if L == 2 else L]
    yield 'all events', seqs('all', 2 if q else 3, T), 20
    yield 'all events of short tables', seqs('all', 3 if q else 4, ['one', 'two', 'three']), 20
    yield 'half', seqs('half', 3 if q else 4, ['epoch', 'five', 'named']), 4
    yield 'few', seqs('few', 5 if q else 7, ['two', 'three'] if q else ['two', 'three', 'epoch', 'named']), 1
    m = 8 if q else 11  # every third click of a run is the second of a double click
    yield 'runs', (['run', name, [a, b, c, d]] for name in ('three', 'five') for a in range(m) for b in range(m) for c in range(0, m, 2)
                   for d in range(0, m, 3)), 20
    yield 'sweep', (['sweep', n] for n in (40, 400)), 1


class Rig:
    def __init__(self, name):
        import numpy as np
        from shipgrav import utils
        self.data, self.t = table(name)
        self.y = self.data['faa'].tolist()
        self.lon, self.lat = self.data['lon_new'].tolist(), self.data['lat_new'].tolist()
        fig = SimpleNamespace()
        t = self.t
        self.ax1 = Axes(fig, ((t[0] - 1, t[-1] + 1), (min(self.y) - 1, max(self.y) + 1)))
        self.ax2 = Axes(fig, ((170, 190), (-10, 10)))
        fig.canvas = self.canvas = Canvas(self.look)
        self.dot = Line([self.lon[0]], [self.lat[0]])
        line = Line(np.array(t), np.array(self.y))
        self.cur = utils._SnappingCursor(self.ax1, self.ax2, line, self.dot, self.data)
        self.h, self.v = self.cur.horizontal_line, self.cur.vertical_line
        self.picks = []         # model: indices picked
        self.at = None          # model: sample the cross-hair is on (None: hidden or not yet moved)
        self.moved = False
        self.doti = (0,)
        self.axes = {1: self.ax1, 2: self.ax2, 0: None}

    def look(self):
        f = lambda xs: [float(z) for z in xs]
        s = self.cur.scatters[0]
        return (self.h.get_visible(), self.v.get_visible(), f(self.h.get_ydata())[0], f(self.v.get_xdata())[0],
                f(self.dot.get_xdata()), f(self.dot.get_ydata()), f(s.get_xdata()), f(s.get_ydata()))

    def near(self, x):
        d = [abs(x - a) for a in self.t]
        m = min(d)
        return {i for i, v in enumerate(d) if v <= m + 1e-9 * (1 + m)}

    def step(self, ctx, e, hist):
        before = (tuple(self.picks), self.at, self.moved, self.doti)
        ax = self.axes[e[1]]
        xd = e[2]
        ev = SimpleNamespace(inaxes=ax, xdata=xd, ydata=None if xd is None else 0.37, button=None, x=11, y=12, key=None, dblclick=len(e) > 4,
                             step=0, guiEvent=None, canvas=self.canvas, name='motion_notify_event')
        if e[0] == 'm':
            self.cur.on_mouse_move(ev)
            if ax is self.ax1:
                self.at, self.moved = self.near(xd), True
                self.doti = tuple(sorted(self.at))
            else:
                self.at, self.moved = None, True
        else:
            ev.button, ev.name = e[3], 'button_press_event'
            self.cur.on_mouse_click(ev)
            if ax is self.ax1 and e[3] == 1:
                self.picks.append(tuple(sorted(self.near(xd))))
            elif ax is self.ax1 and e[3] == 3 and self.picks:
                self.picks.pop()
        self.verify(ctx, hist)
        ctx.state((tuple(self.t), tuple(self.picks), self.doti, self.at and tuple(sorted(self.at))))
        ctx.edge((tuple(self.t), before), tuple(e))
        ctx.trace()

    def verify(self, ctx, hist):
        c = self.cur
        n = len(self.picks)
        C = ctx.check
        C(len(c.i_seg) == len(c.x_seg) == len(c.y_seg) == n, 'after %s: %d picked points (%d, %d coordinates), expected %d', hist,
          len(c.i_seg), len(c.x_seg), len(c.y_seg), n)
        for k, (i, x, y, want) in enumerate(zip(c.i_seg, c.x_seg, c.y_seg, self.picks)):
            C(int(i) == i and int(i) in want, 'after %s: pick %d is sample %r, expected one of %s', hist, k, i, want)
            i = int(i)
            C(x == self.lon[i] and y == self.lat[i], 'after %s: pick %d at sample %d has coordinates %r %r', hist, k, i, x, y)
        self.canvas.settle()
        vis_h, vis_v, hy, vx, dx, dy, sx, sy = self.look()
        C(sx == list(map(float, c.x_seg)) and sy == list(map(float, c.y_seg)), 'after %s: markers %s %s for picks %s %s', hist, sx, sy,
          c.x_seg, c.y_seg)
        C(len(dx) == len(dy) == 1 and (dx[0], dy[0]) in [(self.lon[i], self.lat[i]) for i in self.doti],
          'after %s: map dot at %s %s, expected at sample %s', hist, dx, dy, self.doti)
        if self.at is not None:
            C(vis_h and vis_v, 'after %s: cross-hair hidden', hist)
            C((vx, hy) in [(self.t[i], self.y[i]) for i in self.at], 'after %s: cross-hair at %r %r, expected sample %s', hist, vx, hy, self.at)
            C((dx[0], dy[0]) in [(self.lon[i], self.lat[i]) for i in self.at if self.t[i] == vx], 'after %s: dot and cross-hair differ', hist)
        elif self.moved:
            C(not vis_h and not vis_v, 'after %s: cross-hair shown with the pointer elsewhere', hist)
        # what is on screen is what was last drawn
        if self.canvas.shown is not None or self.picks or self.at is not None:
            seen = self.canvas.shown
            now = self.look()
            C(seen == now, 'after %s: not redrawn: %s, now %s', hist, seen, now)
        ctx.ev(n + 5)


def play(ctx, name, evs):
    before, _ = table(name)
    r = Rig(name)
    for k, e in enumerate(evs):
        r.step(ctx, e, evs[:k + 1])
    ctx.check(r.data.equals(before) and list(r.data.index) == list(before.index), 'the table was changed')
    return r


def run(case, ctx):
    k = case[0]
    if k == 'seq':
        _, name, mode, pre, depth = case
        E = events(TABLES[name][0], mode)
        lo = len(pre)
        for rest in itertools.product(range(len(E)), repeat=depth - lo):
            r = play(ctx, name, [E[i] for i in list(pre) + list(rest)])
            ctx.outcome('%d picked' % len(r.picks))
    elif k == 'run':
        _, name, abcd = case
        P = pointers(TABLES[name][0])
        evs, j = [], 0
        for run_, n in enumerate(abcd):
            for _ in range(n):
                evs.append(['c', 1, P[(j * 3 + 1) % len(P)], 1 if run_ % 2 == 0 else 3] + ['double'] * (j % 3 == 2))
                j += 1
                if j % 4 == 3:
                    evs.append(['m', 1, P[(j * 5) % len(P)]])
        r = play(ctx, name, evs)
        ctx.outcome('%d picked' % len(r.picks))
    elif k == 'sweep':
        n = case[1]
        t = table('long%d' % n)[1]
        evs = []
        for i in range(0, n, 1 if n < 100 else 7):
            evs += [['m', 1, t[i] + 0.2], ['c', 1, t[i] + 0.2, 1] + ['double'] * (i % 2), ['m', 1, t[i] - 0.3]]
        r = play(ctx, 'long%d' % n, evs)
        ctx.check(len(r.picks) > 30, 'sweep')
        ctx.outcome('sweep')
