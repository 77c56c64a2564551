"""Writers for the navigation formats, and what the records mean.

A *fix* is (t, lat, lon): t in integer microseconds; lat = (deg, 'mm.mmmm', 'N'|'S') or
None for a dropout, lon likewise with 'E'|'W'.
"""
from .cal import T, trunc, DAY

# name -> (ship, talker, decimals written by default, gga clock drives the instant?)
FORMATS = {
    'Atlantis': ('Atlantis', 'GPGGA', 2),
    'NBP': ('NBP', 'GPGGA', 2),
    'Thompson': ('Thompson', 'INGGA', 3),
    'Revelle': ('Revelle', 'GPGGA', 2),
    'Ride': ('Ride', 'INGGA', 3),
    'RideGP': ('Ride', 'GPGGA', 6),
    'Langseth': ('Langseth', 'INGGA', 4),
    'Sikuliaq': ('Sikuliaq', 'GPGGA', 4),
}
GPS_CLOCK = ('Atlantis', 'NBP', 'Thompson', 'Revelle')    # time of day from the fix itself
LOG_CLOCK = ('Ride', 'RideGP', 'Langseth', 'Sikuliaq')    # instant from the logger


def default_talker(fmt):
    return FORMATS[fmt][1]


def override(fmt):
    """talker= argument needed to reach this format"""
    return 'GPGGA' if fmt == 'RideGP' else None


def coords(lat, lon):
    def one(c, w):
        if c is None:
            return ','              # nothing at all
        if isinstance(c, str):
            return ',' + c          # hemisphere only
        return '%0*d%s,%s' % (w, c[0], c[1], c[2])
    return one(lat, 2) + ',' + one(lon, 3)


def gga(fmt, clock, lat, lon, talker=None):
    tk = talker or default_talker(fmt)
    return '$%s,%s,%s,2,12,0.9,25.169,M,-30.062,M,4.0,0402*46' % (tk, clock, coords(lat, lon))


def prefix(fmt, log, digits=None):
    """What the logger puts in front of a sentence at logger instant log (us)."""
    t = T(log)
    if fmt == 'Atlantis':
        return 'NAV %04d/%02d/%02d %s GPS ' % (t.y, t.m, t.d, t.clock(3))
    if fmt == 'NBP':
        return '%02d+%03d:%s ' % (t.y % 100, t.doy, t.clock(3))
    if fmt == 'Thompson':
        return '%02d/%02d/%04d,%s,' % (t.m, t.d, t.y, t.clock(3))
    if fmt == 'Revelle':
        return '%04d-%02d-%02dT%sZ ' % (t.y, t.m, t.d, t.clock(6))
    if fmt == 'Ride':
        return '%d%s ' % (log // 10**6, t.frac(3 if digits is None else digits or None))
    if fmt in ('RideGP', 'Sikuliaq'):
        dg = digits if digits is not None else 6 if fmt == 'RideGP' else 4
        pre = '' if fmt == 'RideGP' else 'ins_seapath_position\t'
        return pre + '%04d-%02d-%02dT%sZ' % (t.y, t.m, t.d, t.clock(dg)) + (' ' if fmt == 'RideGP' else '\t')
    if fmt == 'Langseth':
        return 'seapath\t%04d:%03d:%s\t' % (t.y, t.doy, t.clock(4 if digits is None else digits))
    raise KeyError(fmt)


def fix_lines(fmt, t, lat, lon, digits=None, log=None, talker=None, clock=None):
    """Lines (without newline) recording one fix at instant t.

    digits: decimals of the seconds that carry the instant (None: the usual number;
    0: none).  log: the logger's instant for formats whose instant is the GPS clock.
    """
    if digits is None:
        digits = FORMATS[fmt][2]
    if fmt in GPS_CLOCK:
        if log is None:
            log = t
        ck = clock if clock is not None else T(t).hms(digits or None)
        s = gga(fmt, ck, lat, lon, talker)
        if fmt == 'Revelle':
            z = T(log)
            return [prefix(fmt, log) + '$GPZDA,%s,%02d,%02d,%04d,,*61' % (T(t).hms(2), z.d, z.m, z.y), s]
        return [prefix(fmt, log) + s]
    # the logger's stamp is the instant; the clock inside the sentence is some other time
    ck = clock if clock is not None else T((t - 370000) % DAY).hms(2)
    return [prefix(fmt, t, digits) + gga(fmt, ck, lat, lon, talker)]


def other_lines(fmt, log, lat=None, lon=None):
    """Sentences of other talkers that must not contribute (no GGA)."""
    t = T(log)
    if fmt == 'Revelle':
        return ['$GPGLL,1111.1111,N,02222.2222,W,%s,A,D*7C' % t.hms(2), '$GPVTG,200.16,T,,M,11.0,N,20.4,K,D*3B']
    p = prefix(fmt, log)
    tk = default_talker(fmt)[:2]
    return [p + '$%sGLL,1111.1111,N,02222.2222,W,%s,A,D*63' % (tk, t.hms(2)),
            p + '$%sHDT,75.05,T*22' % tk]


def dated_line(fmt, log):
    """a dated line that is not a fix"""
    if fmt == 'Revelle':
        z = T(log)
        return [prefix(fmt, log) + '$GPZDA,%s,%02d,%02d,%04d,,*61' % (z.hms(2), z.d, z.m, z.y)]
    return other_lines(fmt, log)[:1]


def recorded(fmt, t, digits=None):
    """the instant that a record of t written with that many decimals encodes"""
    if digits is None:
        digits = FORMATS[fmt][2]
    if fmt == 'Thompson':
        return trunc(t, 0)
    return trunc(t, digits)


def deg(c, neg):
    """signed decimal degrees of (deg, 'mm.mm', hemi)"""
    if not isinstance(c, (tuple, list)):
        return float('nan')
    v = c[0] + float(c[1]) / 60
    return -v if c[2] == neg else v


def position(lat, lon):
    """(lat, lon) in degrees; both missing if either is"""
    if not isinstance(lat, (tuple, list)) or not isinstance(lon, (tuple, list)):
        return float('nan'), float('nan')
    return deg(lat, 'S'), deg(lon, 'W')


def read(fmt, paths, **kw):
    import shipgrav.io as sgi
    ship = FORMATS[fmt][0]
    kw.setdefault('progressbar', False)
    ov = override(fmt)
    if ov and 'talker' not in kw:
        kw['talker'] = ov
    return sgi.read_nav(ship, paths, **kw)


def is_refusal(r):
    import numpy as np
    return isinstance(r, (int, np.integer)) and not isinstance(r, bool) and r == -999


EPOCH = None


def instant_us(x):
    """integer microseconds of an aware timestamp; None if it is not aware"""
    global EPOCH
    import datetime as dt
    if EPOCH is None:
        EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
    if x is None or x != x or getattr(x, 'tzinfo', None) is None:
        return None
    d = x - EPOCH
    return (d.days * 86400 + d.seconds) * 10**6 + d.microseconds


def rows(df, ctx):
    """[(us, lat, lon)] of a returned table; checks the two time columns against each other"""
    for c in ('time_sec', 'lon', 'lat', 'stamps'):
        ctx.check(c in df.columns, 'column %s missing from nav table', c)
    out = []
    for ts, la, lo, st in zip(df['time_sec'].tolist(), df['lat'].tolist(), df['lon'].tolist(),
                              list(df['stamps'])):
        u = instant_us(st)
        ctx.check(u is not None, 'stamp %r is not an aware timestamp', st)
        ctx.check(instant_off(st) == 0, 'stamp %r is not in UTC', st)
        ctx.check(abs(ts - u / 1e6) < 0.75e-6, 'time_sec %r and stamp %r denote different instants', ts, st)
        out.append((u, float(la), float(lo)))
    return out


def instant_off(x):
    o = x.utcoffset()
    return None if o is None else o.total_seconds()


def same(a, b, tol=1e-9):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol


def set_tz(tz):
    import os
    import time
    os.environ['TZ'] = tz
    time.tzset()


TZS = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12']
