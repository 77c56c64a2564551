"""Representative calls of every public function: a base call and calls that differ from it in one argument.

A call is named 'function/variant' and built afresh each time: build(ctx, name, wrap) -> (callable, args dict).
"""
import math
import os

from . import gravfmt as gf
from . import navfmt as nf
from .cal import us

T0 = us(2023, 6, 16, 12, 0, 0)
MTIME = 1.7e9


def wave(n, a=1.0, f=0.37, b=0.0, ph=0.0):
    return [b + a * math.sin(f * i + ph) + 0.3 * a * math.cos(1.7 * f * i * i / (n + 1)) for i in range(n)]


def A(*x):
    """marks an array argument"""
    return ('A',) + x


def stamps(n, start, step=3600.5):
    import datetime as dt
    t = dt.datetime(2021, 2, 27, 22, 0, 3, tzinfo=dt.timezone.utc) + dt.timedelta(hours=start)
    return [t + dt.timedelta(seconds=int(step * i)) for i in range(n)]


def spec():
    """function -> (module, name, base kwargs, variants {name: changed kwargs})"""
    S = {}

    def add(key, mod, fn, base, /, **var):
        S[key] = (mod, fn, base, var)
    n = 24
    lon, lat = A(wave(n, .01, .2, 30)), A(wave(n, .02, .3, -12))
    lon2, lat2 = A(wave(n, .02, .25, -100)), A(wave(n, .01, .35, 44))
    add('latlon', 'nav', 'latlon_to_EN', dict(lon=lon, lat=lat, freq=1), lon=dict(lon=lon2), lat=dict(lat=lat2), freq=dict(freq=10),
        longer=dict(lon=A(wave(30, .01, .2, 30)), lat=A(wave(30, .02, .3, -12))), nan=dict(lon=A(wave(n - 1, .01, .2, 30) + [math.nan])))
    add('course', 'nav', 'ENvel_to_course_heading', dict(ve=A(wave(9, 5)), vn=A(wave(9, 4, .5))), ve=dict(ve=A(wave(9, 3))),
        vn=dict(vn=A(wave(9, 6, .2))), zero=dict(ve=A([0.0] * 9), vn=A([0.0] * 9)))
    add('rotate', 'nav', 'rotate_acceleration_EN_to_cl', dict(heading=A(wave(9, 180)), accE=A(wave(9, 2)), accN=A(wave(9, 1, .9))),
        heading=dict(heading=A(wave(9, 90))), accE=dict(accE=A(wave(9, 3))), accN=dict(accN=A(wave(9, 2, .8))))
    add('gauss', 'utils', 'gaussian_filter', dict(x=A(wave(20, 3)), fl=6), x=dict(x=A(wave(20, 2, .8))), fl=dict(fl=7), fl2=dict(fl=4),
        longer=dict(x=A(wave(26, 3))))
    add('cdiff', 'grav', 'center_diff', dict(y=A(wave(12, 3)), n=1, samp=1), y=dict(y=A(wave(12, 2, .9))), n=dict(n=2), samp=dict(samp=2.0))
    tt = stamps(5, 0)
    add('tide', 'grav', 'longman_tide_prediction', dict(lon=A(wave(5, 100)), lat=A(wave(5, 60)), times=('T', 0)),
        lon=dict(lon=A(wave(5, 90))), lat=dict(lat=A(wave(5, 50))), times=dict(times=('T', 31)), alt=dict(alt=A(wave(5, 900))),
        parts=dict(return_components=True))
    add('eotvos', 'grav', 'eotvos_full', dict(lon=A(wave(14, .001, .2, 30)), lat=A(wave(14, .002, .3, -12)), ht=A(wave(14, 2)), samp=1),
        lon=dict(lon=A(wave(14, .002, .3, 31))), lat=dict(lat=A(wave(14, .001, .2, 50))), ht=dict(ht=A(wave(14, 1, .9, 20))),
        samp=dict(samp=5.0), a=dict(a=6371000.0), b=dict(b=6371000.0))
    add('faa', 'grav', 'free_air_second_order', dict(lat=A(wave(7, 80)), ht=A(wave(7, 50))), lat=dict(lat=A(wave(7, 40))),
        ht=dict(ht=A(wave(7, 90))), water=dict(free_water=True))
    add('wgs', 'grav', 'wgs_grav', dict(lat=A(wave(7, 80))), lat=dict(lat=A(wave(7, 60))))
    N = 1100
    mon = dict(faa_in=A(wave(N, 5, .013)), vcc_in=A(wave(N, 2, .021)), ve_in=A(wave(N, 1, .034)), al_in=A(wave(N, 3, .017)),
               ax_in=A(wave(N, 2, .045)), level_in=A(wave(N, 1, .057)))
    gap = [float(i + (100 if i >= 60 else 0)) for i in range(N)]
    add('ccp', 'grav', 'calc_cross_coupling_coefficients', mon, faa=dict(faa_in=A(wave(N, 6, .015))), ve=dict(ve_in=A(wave(N, 3, .03))),
        times=dict(times=A(gap)), rate=dict(times=A(gap), samplerate=10), level=dict(level_in=A([0.0] * N)))
    bad = [0, 0, 1, 0, 0, 0, 0, 1, 0, 0]
    nanacc = [math.nan if i == 4 else v for i, v in enumerate(wave(10, 900))]
    up = dict(dt=1.0, g=A([980000.0 + i for i in range(10)]), cacc=A(nanacc), lacc=A(wave(10, 700, .6)), on_off=A(bad), cper=240, cdamp=.7,
              lper=239.5, ldamp=.71)
    add('upvecs', 'grav', 'up_vecs', up, dt=dict(dt=.5), cacc=dict(cacc=A(wave(10, 300))), lacc=dict(lacc=A(wave(10, 200))),
        onoff=dict(on_off=A([0] * 10)), cper=dict(cper=200), cdamp=dict(cdamp=False), lper=dict(lper=100), ldamp=dict(ldamp=1.0))
    x = [500.0 * i for i in range(9)]
    add('grav1d', 'grav', 'grav1d_padded', dict(xtopo=A(x), topo=A(wave(9, 200, .7, -3000)), zlev=100.0, rho=1.7),
        topo=dict(topo=A(wave(9, 300, .5, -2500))), x=dict(xtopo=A([2 * v for v in x])), zlev=dict(zlev=0.0), rho=dict(rho=.6))
    Z = [wave(5, 150, .6 + .1 * j, -3000) for j in range(4)]
    g2 = dict(X=A(list(range(5))), Y=A(list(range(4))), Z=A(Z), dx=1.0, dy=1.5)
    add('grav2d', 'grav', 'grav2d_folding', g2, Z=dict(Z=A([wave(5, 100, .5 + .2 * j, -2000) for j in range(4)])), dx=dict(dx=2.0),
        dy=dict(dy=1.0), drho=dict(drho=1.7), dz=dict(dz=1000), nofold=dict(ifold=False), npower=dict(npower=2))
    lay = [wave(4, 100, .3 * (j + 1), 3000) for j in range(3)]
    add('layer', 'grav', 'grav2d_layer_variable_density', dict(rho=A(lay), dx=1.0, dy=2.0, z1=3.0, z2=9.0),
        rho=dict(rho=A([wave(4, 90, .4 * (j + 1), 2900) for j in range(3)])), dx=dict(dx=2.0), dy=dict(dy=1.0), z1=dict(z1=4.0), z2=dict(z2=5.0))
    xx, zz = [-3.0e4, 1.0e3, 5.0e4, 2.0e5], [0.0, 2.0e3, 3.0e4, 1.2e5]
    th = dict(x=A(xx), z=A(zz))
    thv = dict(x=dict(x=A([v * 1.5 for v in xx])), u=dict(u=.03), Tm=dict(Tm=1300), time=dict(time=True, x=A([1.0, 4.0, 20.0, 80.0])),
               rhom=dict(rhom=3200), rhow=dict(rhow=1030), a=dict(a=2.e-5), k=dict(k=2.e-6))
    add('thalf', 'grav', 'therm_halfspace', th, z=dict(z=A([v * .5 for v in zz])), **thv)
    add('tplate', 'grav', 'therm_plate', th, z=dict(z=A([v * .5 for v in zz])), zL0=dict(zL0=80.e3), **thv)
    add('tzhalf', 'grav', 'therm_Z_halfspace', dict(x=A(xx), T=600), T=dict(T=900), **thv)
    zv = {k: thv[k] for k in ('x', 'u', 'Tm', 'time', 'a', 'k')}
    add('tzplate', 'grav', 'therm_Z_plate', dict(x=A(xx), T=A([600.0, 1000.0])), T=dict(T=A([500.0, 1200.0])), zsp=dict(zsp=500), maxz=dict(maxz=2.e3),
        zL0=dict(zL0=80.e3), **zv)
    add('crust', 'grav', 'crustal_thickness_2D', dict(ur=A(wave(12, 20)), nx=12, dx=8.0), ur=dict(ur=A(wave(12, 10, .8))), dx=dict(dx=6.0),
        grid=dict(nx=4, ny=3, dy=11.0), z=dict(zdown=5), rho=dict(rho=.5), wl=dict(wlarge=50), ws=dict(wsmall=20), back=dict(back=True))
    add('bits', 'utils', 'decode_dgs_status_bits', dict(stat=0x1234), other=dict(stat=0x8001), table=dict(stat=('D', 3)),
        table2=dict(stat=('D', 5)), key=dict(stat=('K', 3), key='word'))
    return S


_S = None


def specs():
    global _S
    if _S is None:
        _S = spec()
    return _S


# ------------------------------------------------------------ files: kind -> variants
def nav_text(f, seed, n=4, dt=10**6):
    L = []
    for i in range(n):
        t = T0 + (i + 7 * seed) * dt
        la, lo = (31 + seed, '%07.4f' % (20 + i * .01 + seed), 'S'), (70, '%07.4f' % (41.5 + i * .02 + 2 * seed), 'W')
        L += nf.fix_lines(f, t, la, lo)
    return '\n'.join(L) + '\n'


def rec_text(kind, s, seed, n=4):
    L = []
    for i in range(n):
        t, j = T0 + (i + 11 * seed) * 10**6 + 250000, i + 5 * seed
        if kind == 'bgm':
            L.append(gf.bgm_line(s, t, 24000 + j, '00'))
        elif kind == 'rgs':
            L.append(gf.rgs_line(t, '%.3f' % (980329 + j), '%.6f' % (-41.5 + j * .001), '%.6f' % (170.25 - j * .001)))
        elif kind == 'lap':
            L.append(gf.lap_line(s, t, j))
        elif kind == 'raw':
            L.append(gf.raw_line(s, t, j))
    h = gf.lap_header(s) if kind == 'lap' else gf.raw_header(s) if kind == 'raw' else []
    return '\n'.join(list(h) + L) + '\n'


def other_text(seed, n=3):
    from . import c10
    return '\n'.join(c10.record(k, i + 3 * seed)[0] for i in range(n) for k in 'ABC') + '\n'


def file_calls():
    """name -> (reader kind, flavour, variants)"""
    F = {}
    for f in nf.FORMATS:
        F['nav.' + f] = ['', 'data', 'list', 'decimate', 'talker', 'bar']
    for s in gf.SCALE:
        F['bgm.' + s] = ['', 'data', 'list', 'scale']
    for s in ('Atlantis', 'NBP'):
        F['rgs.' + s] = ['', 'data', 'list']
    for s in gf.LAP_SHIPS:
        F['lap.' + s] = ['', 'data', 'list']
    for s in ('Revelle', 'Thompson', 'Sikuliaq'):
        F['raw.' + s] = ['', 'data', 'list', 'noscale']
    for t in ('PASHR', 'HEHDT', 'PHGGA'):
        F['feed.' + t] = ['', 'data', 'yaml']
    F['ini.x'] = ['', 'data']
    F['picker.x'] = ['', 'data', 'more']
    return F


def functions():
    return list(specs()) + list(file_calls())


def variants(fn):
    if fn in specs():
        return [''] + list(specs()[fn][3])
    return file_calls()[fn]


RELATIVE = [False]      # give files by their names in the working directory


def put(ctx, name, text):
    p = ctx.write(name, text)
    os.utime(p, (MTIME, MTIME))
    return name if RELATIVE[0] else p


def array(v, wrap):
    import numpy as np
    import pandas as pd
    if wrap == 'list':
        return [list(r) if isinstance(r, list) else r for r in v]
    a = np.array(v)
    if wrap == 'array' or a.ndim != 1:
        return a
    n = len(v)
    idx = {'series': None, 'offset': range(1000, 1000 + n), 'reversed': range(n - 1, -1, -1), 'text': ['r%d' % i for i in range(n)],
           'floats': [i + .5 for i in range(n)], 'twice': [i // 2 for i in range(n)], 'shuffled': [(i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n for i in range(n)],
           'dates': pd.date_range('2020-01-01', periods=n, freq='s'), 'negative': range(-n, 0)}[wrap]
    s = pd.Series(v, index=idx)
    return s


def thaw(v, wrap):
    import pandas as pd
    if isinstance(v, tuple) and v and v[0] == 'A':
        return array(v[1], wrap)
    if isinstance(v, tuple) and v and v[0] == 'T':
        t = stamps(5, v[1])
        if wrap in ('list', 'array'):
            return t
        return pd.Series(t, index=array([0.0] * 5, wrap).index)
    if isinstance(v, tuple) and v[0] in 'DK':
        n = v[1]
        return pd.DataFrame({'status' if v[0] == 'D' else 'word': [4660 * (i + 1) % 65536 for i in range(n)], 'z': list(range(n))})
    return v


def build(ctx, name, wrap='array', where=''):
    """-> (function taking the keyword arguments, arguments)"""
    import shipgrav.grav as grav
    import shipgrav.io as sgi
    import shipgrav.nav as nav
    import shipgrav.utils as utils
    fn, var = name.split('/')
    if fn in specs():
        mod, f, base, vs = specs()[fn]
        kw = dict(base)
        kw.update(vs.get(var, {}))
        m = {'nav': nav, 'grav': grav, 'utils': utils}[mod]
        return getattr(m, f), {k: thaw(v, wrap) for k, v in kw.items()}
    kind, s = fn.split('.')
    seed = 1 if var == 'data' else 0
    tag = where + fn
    if kind == 'nav':
        p = put(ctx, tag, nav_text(s, seed))
        kw = dict(ship=nf.FORMATS[s][0], pathlist=p, progressbar=var == 'bar')
        if nf.override(s):
            kw['talker'] = nf.override(s)
        if var == 'list':
            kw['pathlist'] = [p, put(ctx, tag + '2', nav_text(s, 2))]
        if var == 'decimate':
            kw['decimate'] = 2
        if var == 'talker':
            kw['talker'] = 'ZZGGA'
        return sgi.read_nav, kw
    if kind in ('bgm', 'rgs', 'lap', 'raw'):
        p = put(ctx, tag, rec_text(kind, s, seed))
        kw = dict(fp=p, ship=s, progressbar=False)
        if var == 'list':
            kw['fp'] = [p, put(ctx, tag + '2', rec_text(kind, s, 2))]
        if var == 'scale':
            kw['scale'] = 4.5
        if var == 'noscale':
            kw['scale_ccp'] = False
        return {'bgm': sgi.read_bgm_raw, 'rgs': sgi.read_bgm_rgs, 'lap': sgi.read_dgs_laptop, 'raw': sgi.read_dgs_raw}[kind], kw
    if kind == 'feed':
        from . import c10
        y = c10.YAML if var != 'yaml' else c10.YAML.replace('Heave:g', 'Upward:g').replace('HeadingTrue:og', 'Azimuth:og').replace(
            'FixQuality:d', 'Quality:d')
        return sgi.read_other_stuff, dict(yaml_file=put(ctx, tag + '.yaml', y), data_file=put(ctx, tag, other_text(seed)), tag=s)
    if kind == 'ini':
        p = put(ctx, tag + '.ini', '[A]\nx = %d\ny = TRUE // c\nz = text %d\n' % (5 + seed, 7 + seed))

        def conv(ini_file):
            o = utils.clean_ini_to_toml(ini_file)
            return o == ini_file[:-3] + 'toml', open(o).read(), open(ini_file).read()
        return conv, dict(ini_file=p)
    if kind == 'picker':
        from . import c24

        def pick(which, extra):
            r = c24.Rig(which)
            for e in ([['m', 1, 0.6], ['c', 1, 0.6, 1], ['c', 1, 2.0, 1], ['c', 1, 2.0, 3]] + [['c', 1, 0.9, 1]] * extra):
                from types import SimpleNamespace
                ev = SimpleNamespace(inaxes=r.ax1, xdata=e[2], ydata=0.1, button=e[3] if e[0] == 'c' else None, x=1, y=2, key=None,
                                     dblclick=False, step=0, guiEvent=None, canvas=r.canvas, name='e')
                (r.cur.on_mouse_move if e[0] == 'm' else r.cur.on_mouse_click)(ev)
            c = r.cur
            return list(map(int, c.i_seg)), list(map(float, c.x_seg)), list(map(float, c.y_seg)), r.look()
        return pick, dict(which='five' if var == 'data' else 'three', extra=2 if var == 'more' else 0)
    raise KeyError(name)


# ------------------------------------------------------------ results
def freeze(r):
    """a picklable, comparable image of a result"""
    import numpy as np
    import pandas as pd
    if isinstance(r, pd.DataFrame):
        return ('frame', [str(c) for c in r.columns], [repr(x) for x in r.index], [freeze(r[c].tolist()) for c in r.columns])
    if isinstance(r, (pd.Series, pd.Index)):
        return ('array', (len(r),), freeze(r.tolist())[1])
    if isinstance(r, np.ndarray):
        return ('array', r.shape, freeze(r.ravel().tolist())[1])
    if isinstance(r, (list, tuple)):
        return ('list', [freeze(x) for x in r])
    if isinstance(r, dict):
        return ('dict', sorted((str(k), freeze(v)) for k, v in r.items()))
    if hasattr(r, 'params') and hasattr(r, 'rsquared'):
        return ('model', freeze(r.params), freeze(r.fittedvalues))
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    if isinstance(r, (int, np.integer)):
        return int(r)
    if isinstance(r, (float, np.floating)):
        return float(r)
    if isinstance(r, (complex, np.complexfloating)):
        return ('complex', [float(r.real), float(r.imag)])
    if isinstance(r, str) or r is None:
        return r
    return ('other', type(r).__name__, repr(r))


def scale_of(x):
    if isinstance(x, float):
        return abs(x) if math.isfinite(x) else 0.0
    if isinstance(x, (list, tuple)):
        return max([scale_of(y) for y in x] or [0.0])
    return 0.0


def differ(a, b, tol=1e-9, s=None, at=''):
    """None, or where two images differ"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d items against %d' % (at, len(a), len(b))
        if s is None or (a and all(isinstance(v, float) for v in a)):
            s = max(scale_of(b), 1e-300)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, s, '%s[%d]' % (at, i))
            if d:
                return d
        return None
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        if a != a or b != b:
            return None if (a != a and b != b) else '%s: %r against %r' % (at, a, b)
        if a == b or abs(a - b) <= tol * max(abs(b), s or 0.0):
            return None
        return '%s: %r against %r' % (at, a, b)
    return None if type(a) is type(b) and a == b else '%s: %r against %r' % (at, a, b)


def scribble(r):
    """what a caller may do to a result it owns"""
    import numpy as np
    import pandas as pd
    if isinstance(r, (tuple, list)):
        for x in r:
            scribble(x)
        if isinstance(r, list):
            r.clear()
    elif isinstance(r, dict):
        r.clear()
    elif isinstance(r, np.ndarray):
        if r.flags.writeable:
            r.fill(-7.5) if r.dtype.kind in 'fc' else r.fill(0)
    elif isinstance(r, pd.DataFrame):
        r.drop(index=r.index, inplace=True)
    elif isinstance(r, pd.Series):
        r.drop(index=r.index, inplace=True)


def perform(ctx, name, wrap='array', where='', keep=None):
    """run the call; -> image of the result (or of the failure)"""
    f, kw = build(ctx, name, wrap, where)
    try:
        r = f(**kw)
    except Exception as e:
        if type(e).__name__ == 'HarnessHang':
            raise
        return ('raised', type(e).__name__)
    im = freeze(r)
    if keep is not None:
        keep.append(kw)
    scribble(r)
    return im


def outcome(f, kw):
    """image of the result or failure of f(**kw); the result is overwritten afterwards"""
    try:
        r = f(**kw)
    except Exception as e:
        if type(e).__name__ == 'HarnessHang':
            raise
        return ('raised', type(e).__name__)
    im = freeze(r)
    scribble(r)
    return im


def overwrite(old, new):
    """give the object old the contents of new, if they are of one kind and length"""
    import numpy as np
    import pandas as pd
    if type(old) is not type(new):
        return False
    if isinstance(old, list):
        if len(old) != len(new):
            return False
        old[:] = new
    elif isinstance(old, np.ndarray):
        if old.shape != new.shape or old.dtype != new.dtype:
            return False
        old[...] = new
    elif isinstance(old, pd.Series):
        if len(old) != len(new) or old.dtype != new.dtype:
            return False
        old.iloc[:] = new.to_numpy() if new.dtype.kind in 'fi' else new.tolist()
    else:
        return False
    return True


def unusual():
    """settings a program may have chosen"""
    import logging
    import random
    import signal
    import sys
    import numpy as np
    import pandas as pd
    os.umask(0o037)
    np.random.seed(12345)
    random.seed(54321)
    sys.setrecursionlimit(1723)
    pd.set_option('display.max_rows', 17)
    pd.set_option('display.precision', 3)
    np.set_printoptions(precision=5, suppress=True)
    logging.root.setLevel(logging.ERROR + 1)
    signal.signal(signal.SIGTERM, lambda *a: None)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    np.seterr(divide='ignore', over='warn', under='warn', invalid='warn')


def surroundings():
    """what is shared by the whole process"""
    import gc
    import locale
    import logging
    import random
    import signal
    import sys
    import warnings
    import numpy as np
    import pandas as pd
    u = os.umask(0o22)
    os.umask(u)
    st = np.random.get_state()
    return {'working directory': os.getcwd(), 'environment': dict(os.environ), 'umask': u, 'locale': locale.setlocale(locale.LC_ALL),
            'numpy error handling': np.geterr(), 'numpy random state': (st[0], hash(st[1].tobytes()), st[2:]), 'random state': hash(random.getstate()),
            'import path': list(sys.path), 'recursion limit': sys.getrecursionlimit(),
            'pandas options': [pd.get_option(o) for o in ('display.max_rows', 'mode.chained_assignment', 'display.precision')],
            'print options': repr(np.get_printoptions()), 'warning filters': [repr(w) for w in warnings.filters], 'logging': logging.root.level,
            'signal handlers': [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM)], 'garbage collection': gc.isenabled(),
            'hooks': [repr(x) for x in (sys.excepthook, sys.displayhook, sys.stdout, sys.stderr)]}


def changed_surroundings(a, b):
    return [k for k in a if a[k] != b[k]]


def fork(fn):
    """run fn() in a forked child; -> its (picklable) value"""
    import pickle
    import signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = (True, fn())
            except BaseException as e:
                out = (False, '%s: %s' % (type(e).__name__, e))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('forked call died')
    ok, v = pickle.loads(data)
    if not ok:
        raise RuntimeError('forked call: ' + v)
    return v
