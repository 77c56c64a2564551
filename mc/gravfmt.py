"""Writers for gravimeter files (BGM3 serial, RGS, DGS laptop, DGS serial) and what they mean."""
from .cal import T, trunc

SCALE = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}

# ---------------------------------------------------------------- BGM3 serial
BGM_DIGITS = {'Atlantis': 3, 'Thompson': 3, 'Revelle': 6, 'Langseth': 4}


def bgm_line(ship, t, counts, flag='00'):
    z = T(t)
    c = '04:%06d' % counts
    if ship == 'Atlantis':
        return 'BGM %04d/%02d/%02d %s BGM3 %s %s' % (z.y, z.m, z.d, z.clock(3), c, flag)
    if ship == 'Thompson':
        return '%02d/%02d/%04d,%s,%s %s' % (z.m, z.d, z.y, z.clock(3), c, flag)
    if ship == 'Revelle':
        return '%04d-%02d-%02dT%sZ %s %s' % (z.y, z.m, z.d, z.clock(6), c, flag)
    if ship == 'Langseth':
        return 'vc01\t%04d:%03d:%s\t%s %s' % (z.y, z.doy, z.clock(4), c, flag)
    raise KeyError(ship)


def rgs_line(t, grav, lat, lon):
    """grav, lat, lon as text"""
    z = T(t)
    p = '%d%s' % (t // 10**6, z.frac(3))
    return ('RGS %04d/%02d/%02d %s %s 24980 %s 4.994070552 855577.390 BGM3 S210 GPS: %s %s %s 0 0 UNKNOWN_SRC 0.010 '
            '135.000 DEPTH: -999 -999 NONE HDG: 243.380 %s SRC_GYRO NO_DNV_ERROR %s -999'
            % (z.y, z.m, z.d, z.clock(3), grav, p, lat, lon, p, p, p))


# texts of a number that a channel may take
TEXTS = ['0', '0.0', '-0.5', '1', '-1', '0.25', '99999', '123456789', '-987654321', '0.000001', '-0.000012345678', '359.999999',
         '12345.678901234', '-12345.678901234', '007', '5.', '-999', '-999.0', '999.25', '-9999', '9999', '-99']

FEW = ['0', '-0.5', '123456789', '12345.678901234', '-999']


def text_pairs():
    """every text alone, with itself and before and after the few"""
    for a in TEXTS:
        for b in TEXTS + [None]:
            if b is None or a == b or a in FEW or b in FEW:
                yield a, b


# ---------------------------------------------------------------- DGS laptop
LAP_SHIPS = ['Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth']
# name -> position among the 26 comma-separated fields
LAP = {'rgrav': 1, 'long_a': 2, 'crss_a': 3, 'status': 6, 've': 10, 'vcc': 11, 'al': 12, 'ax': 13,
       'lat': 14, 'lon': 15, 'year': 19, 'month': 20, 'day': 21, 'hour': 22, 'minute': 23, 'second': 24}
LAP_THOMPSON = ['rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon']
SKQ_HEADER = ['# Platform:', '#   Name: R/V Sikuliaq', '#   Operator: UAF', '#   IMO Number: 9578945', '#   ICES Code: 33BI',
              '#   Call Sign: WDN7246', '#   MMSI Number: 338417000', '# Cruise ID: SKQ202416T', '#', '# Instrument:',
              '#   Name: Dynamic Gravity Systems Advanced Technology Marine Gravimeter', '#   Model: AT1-M',
              '#   Serial Number: 33', '#   Location: Aft inboard wall of tech workshop, 1-12-1',
              '#   Installation Date: 28 November 2023', '#', '# Parameters:',
              '# Log Name\tLog Time\tQC_Gravity, Gravity, Long accelerometer', '#']
assert len(SKQ_HEADER) == 19


def lap_values(i):
    """26 fields of record i, all different from each other and between records (no time)"""
    v = ['%.12f' % (9000 + i + 0.125), '%.12f' % (12000.5 + 3 * i - 40000 * (i % 3 == 2)), '% .12f' % (-0.574875 + 0.001 * i),
         '% .12f' % (0.635362 - 0.002 * i), '% .12f' % (0.00321 + i * 1e-5), '% .12f' % (53.37 + i), '%16d' % (20814 + i % 40000),
         '%16d' % (5403321 - i), '% .12f' % (31.11722 + i), '% .12f' % (50.141118 - i), '% .12f' % (0.81098 + 0.01 * i),
         '% .12f' % (-0.001846 - 0.01 * i), '% .12f' % (0.10784 + 0.02 * i), '% .12f' % (0.25429 - 0.03 * i),
         '% .12f' % (48.073118 - 0.0001 * i), '% .12f' % (-10.317187 + 0.0001 * i), '% .12f' % (11.4 + i % 7),
         '% .12f' % (270.08 - i % 90), '% .12f' % (0.3196237 + i * 1e-4)]
    return v


def lap_fields(t, i, digits=2):
    z = T(t)
    return lap_values(i) + ['%04d' % z.y, '%02d' % z.m, '%02d' % z.d, '%02d' % z.h, '%02d' % z.mi,
                            '%02d%s' % (z.s, z.frac(digits or None)), '%d' % (5196653 + i)]


def lap_prefix(ship, t):
    z = T(t)
    if ship == 'Thompson':
        return '%02d/%02d/%04d,%s,' % (z.m, z.d, z.y, z.clock(3))
    if ship == 'Sikuliaq':
        return 'grav_dgs_33_proc\t%04d-%02d-%02dT%sZ\t' % (z.y, z.m, z.d, z.clock(4))
    if ship == 'Langseth':
        return 'dgsdata\t%04d:%03d:%s\t' % (z.y, z.doy, z.clock(4))
    return ''


def lap_line(ship, t, i, digits=2, prefix=True, log=None):
    """One record.  For Thompson the instant is the logger's (3 decimals); otherwise the meter's
    own (digits decimals) and log is the logger's clock."""
    f = lap_fields(t if ship != 'Thompson' else t + 12 * 10**6, i, digits)
    p = lap_prefix(ship, t if log is None or ship == 'Thompson' else log) if prefix else ''
    return p + ','.join(f)


def lap_time(ship, t, digits=2):
    return trunc(t, 3) if ship == 'Thompson' else trunc(t, digits)


def lap_expect(ship, t, i, digits=2):
    """{column: value} and the instant"""
    f = lap_fields(t if ship != 'Thompson' else t + 12 * 10**6, i, digits)
    names = LAP_THOMPSON if ship == 'Thompson' else list(LAP)
    return {n: float(f[LAP[n]]) for n in names}, lap_time(ship, t, digits)


def lap_header(ship):
    return SKQ_HEADER if ship == 'Sikuliaq' else []


# ---------------------------------------------------------------- DGS serial
RAW_NAMES = ['string', 'Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax',
             'status', 'checksum', 'latitude', 'longitude', 'speed', 'course', 'timestamp']
CCP = ('vcc', 've', 'al', 'ax')
RAW_SKQ = {'rgrav': 'Gravity', 'long_a': 'Long', 'crss_a': 'Cross', 'vcc': 'vcc', 've': 've', 'al': 'al', 'ax': 'ax',
           'lat': 'latitude', 'lon': 'longitude'}


def raw_values(i):
    return {'Gravity': -218747 + 1000 * i, 'Long': 30292 - 17 * i, 'Cross': -80876 + 3 * i, 'Beam': 4614745 + i,
            'Temp': 236 + i % 9, 'Pressure': 483 - i % 11, 'ElecTemp': 200 + i % 13, 'vcc': 7687710 - 1001 * i,
            've': 711267 - 300007 * i, 'al': -1160673 + 20011 * i, 'ax': -397137 + 411 * i, 'status': 330 + i % 60000,
            'checksum': 11187500 - i, 'latitude': '%.10f' % (32.5 - 0.01 * (i % 900)),
            'longitude': '%.10f' % (-117.25 + 0.02 * (i % 900)), 'speed': '%.4f' % (10.5 + i % 5),
            'course': '%.4f' % (271.25 - i % 50)}


def raw_line(ship, t, i, synced=False, log=None, bare=False, over=()):
    """synced: the meter stamp is UTC yyyymmddHHMMSS of t; otherwise it counts seconds since an
    arbitrary start and the logger's stamp in front (log, default t) is the instant."""
    v = dict(raw_values(i), **dict(over))
    z, lg = T(t), T(t if log is None else log)
    head = '$AT1M_3.64_%d' % (198247 + i)
    stamp = '%04d%02d%02d%s' % (z.y, z.m, z.d, z.hms()) if synced else '%d' % (1686873601 + i)
    body = ','.join([head] + [str(v[n]) for n in RAW_NAMES[1:18]] + [stamp])
    if ship == 'Thompson':
        return '%02d/%02d/%04d,%s,' % (lg.m, lg.d, lg.y, lg.clock(3)) + body
    if ship == 'Sikuliaq':
        return 'grav_dgs_33_raw\t%04d-%02d-%02dT%sZ\t' % (lg.y, lg.m, lg.d, lg.clock(4)) + body
    if bare:
        return body
    return '%04d-%02d-%02dT%sZ ' % (lg.y, lg.m, lg.d, lg.clock(6)) + body


def raw_header(ship):
    if ship != 'Sikuliaq':
        return []
    return SKQ_HEADER[:17] + ['# Log Name\tLog Time\t$head2, dgravity, dlong, dcross, dbeam, dtemp', '#']


def raw_expect(ship, t, i, synced=False, log=None, scale=True, over=()):
    v = dict(raw_values(i), **dict(over))
    fac = 1e-5 if scale else 1.0
    names = {n: n for n in RAW_NAMES[1:18]}
    if ship == 'Sikuliaq':
        names = RAW_SKQ
    out = {n: float(v[src] if v[src] != '' else 'nan') * (fac if src in CCP else 1.0) for n, src in names.items()}
    if ship == 'Thompson':
        tt = trunc(t if log is None else log, 3)
    elif ship == 'Sikuliaq':
        tt = trunc(t if log is None else log, 4)
    elif synced:
        tt = trunc(t, 0)
    else:
        tt = t if log is None else log
    return out, tt


# ---------------------------------------------------------------- comparing tables
def times_us(col, ctx, what):
    """microseconds of a column of aware UTC timestamps (None where missing)"""
    import pandas as pd
    tz = getattr(col.dtype, 'tz', None)
    if tz is not None:
        off = [x.utcoffset() for x in col.iloc[:1] if x == x]
        ctx.check(all(o.total_seconds() == 0 for o in off), '%s: timestamps are not in UTC', what)
        ns = col.astype('datetime64[ns, UTC]').astype('int64').tolist()
        na = pd.isna(col).tolist()
        return [None if m else n / 1000 for n, m in zip(ns, na)]
    out = []
    from .navfmt import instant_us, instant_off
    for x in col:
        if x is None or x != x:
            out.append(None)
            continue
        u = instant_us(x)
        ctx.check(u is not None, '%s: timestamp %r is not an aware one', what, x)
        ctx.check(instant_off(x) == 0, '%s: timestamp %r is not in UTC', what, x)
        out.append(u)
    return out


def compare(ctx, df, want, what, tol=1e-12, time='date_time', types=True):
    """df against [( {col: value}, instant us or None )] in order, numbered from 0"""
    import pandas as pd
    from .navfmt import is_refusal
    ctx.check(not is_refusal(df), '%s: refused', what)
    ctx.check(len(df) == len(want), '%s: %d rows, expected %d', what, len(df), len(want))
    ctx.check([int(x) for x in df.index] == list(range(len(want))), '%s: rows are not freshly numbered from 0', what)
    ctx.trace()
    ctx.ev(len(want))
    if not want:
        return
    cols = list(want[0][0])
    for c in cols:
        ctx.check(c in df.columns, '%s: column %s missing', what, c)
        ctx.check(not types or pd.api.types.is_numeric_dtype(df[c].dtype), '%s: column %s is of type %s, not numbers', what, c, df[c].dtype)
        got = df[c].tolist()
        for i, (g, w) in enumerate(zip(got, want)):
            e = w[0][c]
            try:
                g = float(g)
            except (TypeError, ValueError):
                ctx.check(False, '%s: row %d column %s is %r, recorded %r', what, i, c, g, e)
            if e != e:
                ctx.check(g != g, '%s: row %d column %s is %r, expected missing', what, i, c, g)
            else:
                ctx.check(abs(g - e) <= tol * max(1.0, abs(e)), '%s: row %d column %s is %r, recorded %r', what, i, c, g, e)
    if time:
        ctx.check(time in df.columns, '%s: column %s missing', what, time)
        for i, (g, w) in enumerate(zip(times_us(df[time], ctx, what), want)):
            if w[1] is None:
                continue
            ctx.check(g is not None and abs(g - w[1]) < 0.75, '%s: row %d stamped %s us, recorded %s us', what, i, g, w[1])


MANY = [5, 10, 11, 12, 33, 130]


def many(n, pattern):
    """sizes of n files: small and big in every order a reader might have a preference among"""
    return {'cycle': [1 + k % 3 for k in range(n)], 'up': [1 + k // 4 for k in range(n)] if n < 50 else [1 + k // 26 for k in range(n)],
            'down': [1 + (n - 1 - k) // 4 for k in range(n)] if n < 50 else [1 + (n - 1 - k) // 26 for k in range(n)],
            'last big': [1] * (n - 1) + [40], 'first big': [40] + [1] * (n - 1)}[pattern]


PATTERNS = ['cycle', 'up', 'down', 'last big', 'first big']


def with_empties(ctx, read, full, blanks, want, what, time='date_time', must=False):
    """every list of up to 4 files out of full ones (full(j) -> path, want(j) -> rows) and files without records
    (paths): refused, or exactly the records of the full ones"""
    import itertools
    for n in range(2, 5):
        for w in itertools.product(range(len(blanks) + 1), repeat=n):
            if 0 not in w or not any(w):
                continue
            paths, rows = [], []
            for j, k in enumerate(w):
                paths.append(blanks[k - 1] if k else full(j))
                rows += [] if k else want(j)
            try:
                df = read(paths)
            except Exception:
                ctx.check(not must, '%s: a file without records loses the others (files %s)', what, w)
                ctx.outcome('refused')
                continue
            compare(ctx, df, rows, '%s, files %s' % (what, w), time=time)
            ctx.state((what, w))
            ctx.edge((what, w[:-1]), w[-1])
