"""C27: a survey taken from its files to the free-air anomaly comes out as the files say."""
import math
import os
from . import gravfmt as gf
from . import navfmt as nf
from . import c15, c16, c17, c18, c19, c20
from .cal import us, trunc

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '23 combinations of navigation format and meter (laptop, BGM serial, RGS, serial with its .ini calibration) x 10 places '
             '(equator, both sides of and across the 180 and 0 meridians, 78 N, 70 S) x 10 motions (8 courses, rest, turn) x 5 nights '
             '(year end, leap day, both clock changes of the process time zone) x 5 divisions into files (1, 2, 2 in reverse, 5 in disorder, 3 with single records at the ends); surveys of 30 s; '
             'velocities, tilt and levelling error of every laptop survey; cross-coupling of 8 laptop surveys of 1300 s x 6 sets of coefficients',
    'thorough': '24 courses, 14 places, surveys of 30 and 90 s',
}
N = 30
PLACES = [(44.6234, -130.0061), (0.0, 12.3), (-33.2, 151.05), (10.4, 180.0), (-20.3, -180.0), (50.7, 0.0), (-0.0004, 0.0004), (78.1, 15.2),
          (-70.3, -60.4), (0.0, 180.0), (-52.1, 74.2), (21.0, -157.9), (60.2, -30.4), (-8.3, -100.0)]
NIGHTS = [us(2023, 12, 31, 23, 59, 45), us(2024, 2, 29, 23, 59, 46), us(2024, 3, 10, 6, 59, 47), us(2024, 11, 3, 5, 59, 44), us(2022, 7, 15, 12, 34, 56)]
SHIPS = {f: nf.FORMATS[f][0] for f in nf.FORMATS}
PAIRS = ([(f, 'lap', SHIPS[f]) for f in nf.FORMATS] + [(f, 'bgm', SHIPS[f]) for f in nf.FORMATS if SHIPS[f] in gf.SCALE] +
         [('Atlantis', 'rgs', 'Atlantis'), ('NBP', 'rgs', 'NBP')] + [(f, 'raw', SHIPS[f]) for f in nf.FORMATS if f != 'RideGP'] +
         [('Ride', 'sync', 'Ride'), ('Atlantis', 'sync', 'Atlantis')])
COEF = [{'ve': 1.3, 'vcc': -0.7, 'al': 0.45, 'ax': 2.1, 'lev': -1.6}, {'ve': 0, 'vcc': 0, 'al': 0, 'ax': 0, 'lev': 0},
        {'ve': -2.5, 'vcc': 0, 'al': 0, 'ax': 0, 'lev': 0}, {'ve': 0, 'vcc': 3, 'al': 0, 'ax': -1, 'lev': 0},
        {'ve': 0, 'vcc': 0, 'al': -1.25, 'ax': 0, 'lev': 4}, {'ve': 10, 'vcc': 10, 'al': 10, 'ax': 10, 'lev': 10}]
# the calibration of the serial meter, as its .ini writes it
INI = ('[Sensor]  // the meter\nSerial=AT1M-7 # unit\nGravCal=414132.2 // mGal\n$g0=12050.75\nLongCal=-1.85e2\nLongOffset = -.5\nEnabled=TRUE\n'
       'CrossCal = 190.25\nCrossOffset=5.\n\n[Nav]\nTalker=$GPGGA\n')
CAL = {'GravCal': 414132.2, 'g0': 12050.75, 'LongCal': -185.0, 'LongOffset': -0.5, 'CrossCal': 190.25, 'CrossOffset': 5.0}
FULL = 8388607          # counts of a 24-bit channel


def groups(tier):
    q = tier == 'quick'
    P, C = range(10 if q else len(PLACES)), range(10 if q else 26)
    for n in ((N,) if q else (N, 90)):
        yield 'surveys of %d' % n, (['faa', c, p, m, n] for c in range(len(PAIRS)) for p in P for m in C), 4
    yield 'cross coupling', (['ccp', c, k] for c in range(8) for k in range(len(COEF))), 1


def motion(m, i, n):
    """metres north and east of the middle of the survey, i seconds in"""
    x = i - n // 2
    if m == 8:
        return 0.0, 0.0
    if m == 9:
        w = math.radians(4)
        return 60 * math.sin(w * x), 60 - 60 * math.cos(w * x)
    h = math.radians(45 * m if m < 8 else 15 * (m - 10) + 7.5)
    v = 5.3 * x + 0.004 * x * x
    return v * math.cos(h), v * math.sin(h)


def minutes(x, pos, neg):
    """degrees as a record writes them: (deg, 'mm.mmmmmm', hemisphere)"""
    k = round(abs(x) * 60 * 10**6)
    d, k = divmod(k, 60 * 10**6)
    return d, '%02d.%06d' % divmod(k, 10**6), neg if x < 0 else pos


def wrap(lo):
    return (lo + 180) % 360 - 180


def course(place, m, n, k0):
    """positions of n + 6 fixes starting three seconds early, as written"""
    la0, lo0 = place
    out = []
    for i in range(-3, n + 3):
        a, b = motion(m, i, n)
        la = la0 + a / 111000
        lo = wrap(lo0 + b / (111000 * math.cos(math.radians(la0))))
        out.append((k0 + i * 10**6, minutes(la, 'N', 'S'), minutes(lo, 'E', 'W')))
    return out


def unwrap(rows):
    """[(us, lat, lon)] with a longitude that does not jump; the branch of the first eastern fix"""
    out, base = [], rows[0][2]
    for t, la, lo in rows:
        while lo - base > 180:
            lo -= 360
        while lo - base < -180:
            lo += 360
        out.append((t, la, lo))
        base = lo
    return out


def interp(rows, t):
    for a, b in zip(rows, rows[1:]):
        if a[0] <= t <= b[0]:
            w = (t - a[0]) / (b[0] - a[0])
            return a[1] + w * (b[1] - a[1]), a[2] + w * (b[2] - a[2])
    raise AssertionError('instant outside the track')


def divide(ctx, name, lines, head, how, unit=1):
    """write the records in one file, in two, in two listed in reverse, in five listed in disorder, or in three with single records at the ends"""
    eol = '\n'
    if how == 0:
        return ctx.write(name, eol.join(head + lines) + eol)
    if how == 3:
        h = len(lines) // unit
        return [ctx.write('%s_%d' % (name, k), eol.join(head + lines[k * h // 5 * unit:(k + 1) * h // 5 * unit]) + eol) for k in (3, 0, 4, 1, 2)]
    if how == 4:        # single records at both ends
        cuts = [0, unit, len(lines) - unit, len(lines)]
        return [ctx.write('%s-%d' % (name, k), eol.join(head + lines[cuts[k]:cuts[k + 1]]) + eol) for k in (2, 0, 1)]
    h = len(lines) // unit * 2 // 3 * unit
    ps = [ctx.write(name + s, eol.join(head + x) + eol) for s, x in (('_b', lines[:h]), ('_a', lines[h:]))]
    return ps[::-1] if how == 2 else ps


def meter(kind, ship, i, t, off, grav):
    """(line, instant, gravity read off it without the tie)"""
    if kind == 'lap':
        digits = 2
        t += off
        f = gf.lap_fields(t if ship != 'Thompson' else t + 12 * 10**6, i, digits)
        f[1] = '%.9f' % grav
        return gf.lap_prefix(ship, t) + ','.join(f), gf.lap_time(ship, t, digits), float(f[1])
    if kind == 'bgm':
        t += off
        c = round(grav / gf.SCALE[ship])
        return gf.bgm_line(ship, t, c), trunc(t, gf.BGM_DIGITS[ship]), c * gf.SCALE[ship]
    if kind == 'rgs':
        t += off
        g = '%.3f' % grav
        return gf.rgs_line(t, g, '0.0', '0.0'), trunc(t, 3), float(g)
    sync = kind == 'sync'
    c = round((grav - CAL['g0']) * FULL / CAL['GravCal'])
    t += 0 if sync else off
    line = gf.raw_line(ship, t, i, synced=sync, log=t + (1600000 if sync else 0), over={'Gravity': c}.items())
    return line, gf.raw_expect(ship, t, i, synced=sync, log=t)[1] if not sync else t, c * CAL['GravCal'] / FULL + CAL['g0']


def database():
    import tomllib
    import shipgrav
    with open(os.path.join(os.path.dirname(shipgrav.__file__), 'database.toml'), 'rb') as f:
        return tomllib.load(f)


def read_meter(ctx, kind, ship, paths, info):
    """the meter table with a column 'grav' without the tie, as the documentation derives it"""
    import tomllib
    import shipgrav.io as sgi
    import shipgrav.utils as sgu
    if kind == 'lap':
        df = sgi.read_dgs_laptop(paths, ship, progressbar=False)
    elif kind == 'bgm':
        df = sgi.read_bgm_raw(paths, ship, progressbar=False)
    elif kind == 'rgs':
        df = sgi.read_bgm_rgs(paths, ship, progressbar=False)
    else:
        df = sgi.read_dgs_raw(paths, ship, progressbar=False)
    ctx.check(not nf.is_refusal(df), 'meter files of %s refused', ship)
    df.sort_values('date_time', inplace=True)
    df.reset_index(inplace=True, drop=True)
    df['tsec'] = [e.timestamp() for e in df['date_time']]
    if kind in ('lap', 'bgm'):
        df['net'] = df['rgrav']
    elif kind == 'rgs':
        df['net'] = df['grav']
    else:
        with open(sgu.clean_ini_to_toml(ctx.write('Meter.ini', INI)), 'rb') as f:
            conf = tomllib.load(f)['Sensor']
        full = info['dgs-stuff']['calibration_factor']
        names = ('rgrav', 'long_a', 'crss_a') if ship == 'Sikuliaq' else ('Gravity', 'Long', 'Cross')
        df['net'] = df[names[0]] * conf['GravCal'] / full + conf['g0']
        df['long_cal'] = df[names[1]] * conf['LongCal'] / full + conf['LongOffset']
        df['cross_cal'] = df[names[2]] * conf['CrossCal'] / full + conf['CrossOffset']
    return df


def workflow(nav, df, tie):
    """what the example scripts do from the two tables on"""
    import numpy as np
    import shipgrav.grav as sgg
    nav.sort_values('time_sec', inplace=True)
    nav.reset_index(inplace=True, drop=True)
    df['grav'] = df['net'] + tie
    df['lon_new'] = np.interp(df['tsec'].values, nav['time_sec'].values, nav['lon'].values)
    df['lat_new'] = np.interp(df['tsec'].values, nav['time_sec'].values, nav['lat'].values)
    ht = np.zeros(len(df))
    lat_corr = sgg.wgs_grav(df['lat_new']) + sgg.free_air_second_order(df['lat_new'], ht)
    eot = sgg.eotvos_full(df['lon_new'].values, df['lat_new'].values, ht, 1)
    tid = sgg.longman_tide_prediction(df['lon_new'], df['lat_new'], df['date_time'])
    df['faa'] = df['grav'] - lat_corr + eot + tid
    return df, lat_corr


def kinematics(df, lat_corr):
    """the levelling error of the tilt example"""
    import numpy as np
    import shipgrav.grav as sgg
    import shipgrav.nav as sgn
    vn, ve = sgn.latlon_to_EN(df['lon_new'].values, df['lat_new'].values)
    ea, na = 1e5 * np.convolve(ve, sgn.tay10, 'same'), 1e5 * np.convolve(vn, sgn.tay10, 'same')
    crse, vel = sgn.ENvel_to_course_heading(ve, vn)
    crse[np.isnan(crse)] = 0
    vel[np.isnan(vel)] = 0
    ac, al = sgn.rotate_acceleration_EN_to_cl(crse, ea, na)
    keep = ac.copy(), al.copy()
    up = sgg.up_vecs(1, lat_corr, ac, al, 0, 240, 0.7071, 240, 0.7071)
    return crse, vel, keep, lat_corr - lat_corr * up[2, :] - al * up[0, :] + ac * up[1, :]


TAY = [0.0, 5 / 6, -5 / 21, 5 / 84, -5 / 504, 1 / 1260]


def diff(y):
    """tenth-order derivative per sample; None where the formula is not whole"""
    out = []
    for i in range(len(y)):
        w = y[max(0, i - 5):i + 6]
        out.append(None if i < 5 or i >= len(y) - 5 or any(x is None for x in w) else
                   sum(TAY[k] * (y[i + k] - y[i - k]) for k in range(1, 6)))
    return out


def track_model(pts, glat):
    """course, speed, accelerations across and along, levelling error"""
    n = len(pts)
    dla, dlo = diff([p[0] for p in pts]), diff([p[1] for p in pts])
    vel = [None if a is None else c15.rates(p[0], a, b) for p, a, b in zip(pts, dla, dlo)]
    vn, ve = [v and v[0] for v in vel], [v and v[1] for v in vel]
    an, ae = diff(vn), diff(ve)
    hist, acc, head, speed = [], [], [], []
    for i in range(n):
        h = 0.0 if ve[i] is None else math.degrees(math.atan2(ve[i], vn[i]))
        head.append(h)
        speed.append(0.0 if ve[i] is None else math.hypot(ve[i], vn[i]))
        if an[i] is None:
            acc.append(None)
            hist.append((math.nan, math.nan, 0))
            continue
        s, c = math.sin(math.radians(h)), math.cos(math.radians(h))
        e, no = 1e5 * ae[i], 1e5 * an[i]
        acc.append((e * c - no * s, no * c + e * s))
        hist.append(acc[-1] + (0,))
    up = c19.model((1, 240, 0.7071, 240, 0.7071), hist, glat)
    lev = [g - g * u[2] - (0 if a is None else a[1]) * u[0] + (0 if a is None else a[0]) * u[1] for g, u, a in zip(glat, up, acc)]
    return head, speed, acc, lev


def survey(case, ctx):
    _, c, p, m, n = case
    fmt, kind, ship = PAIRS[c]
    info = database()
    tie = 971234.5 if kind != 'rgs' else 0.0
    for night, t0 in enumerate(NIGHTS):
        fixes = course(PLACES[p], m, n, t0)
        track = unwrap([(nf.recorded(fmt, t),) + nf.position(a, b) for t, a, b in fixes])
        lines = []
        for t, a, b in fixes:
            lines += nf.fix_lines(fmt, t, a, b, log=t + 180000 if fmt in nf.GPS_CLOCK else None)
        off = (0, 250000, 500000)[(night + m) % 3]
        recs, want, pts, glat = [], [], [], []
        for i in range(n):
            t = t0 + i * 10**6
            # where the meter is and what it feels
            inst = meter(kind, ship, i, t, off, 9000.0)[1]
            la, lo = interp(track, inst)
            g = c17.somigliana(la)
            ln, inst, net = meter(kind, ship, i, t, off, g - tie + 35 + 4 * math.sin(i / 6))
            recs.append(ln)
            pts.append((la, lo, 0.0))
            glat.append(g)
            want.append((inst, net))
        eot = c16.model(pts, 1, None)
        faa = [w[1] + tie - g + e + c18.tide(c18.bodies(*since(w[0])), q[0], q[1], 0)[0] for w, g, e, q in zip(want, glat, eot, pts)]
        head = gf.lap_header(ship) if kind == 'lap' else gf.raw_header(ship) if kind in ('raw', 'sync') else []
        for how in range(5):
            what = '%s with %s, place %s, motion %d, night %d, division %d' % (fmt, kind, PLACES[p], m, night, how)
            nav = nf.read(fmt, divide(ctx, 'nav', lines, [], how, len(lines) // len(fixes)))
            ctx.check(not nf.is_refusal(nav), '%s: navigation refused', what)
            df = read_meter(ctx, kind, ship, divide(ctx, 'dat', recs, head, how), info)
            ctx.check(len(df) == n, '%s: %d samples of %d', what, len(df), n)
            df, lat_corr = workflow(nav, df, tie)
            for i, (g, t, la, lo) in enumerate(zip(df['faa'].tolist(), gf.times_us(df['date_time'], ctx, what), df['lat_new'].tolist(), df['lon_new'].tolist())):
                ctx.check(t is not None and abs(t - want[i][0]) < 0.75, '%s: sample %d is stamped %s, recorded %s', what, i, t, want[i][0])
                ctx.check(abs(la - pts[i][0]) < 1e-9 and abs(wrap(lo - pts[i][1])) < 1e-9, '%s: sample %d is at %r, expected %r', what, i, (la, lo), pts[i][:2])
                ctx.check(abs(g - faa[i]) < 2e-3, '%s: free-air anomaly of sample %d is %r mGal, the files say %r', what, i, g, faa[i])
            if kind in ('raw', 'sync'):
                for i, (a, b) in enumerate(zip(df['long_cal'].tolist(), df['cross_cal'].tolist())):
                    v = gf.raw_values(i)
                    ctx.check(abs(a - (v['Long'] * CAL['LongCal'] / FULL + CAL['LongOffset'])) < 1e-9 and
                              abs(b - (v['Cross'] * CAL['CrossCal'] / FULL + CAL['CrossOffset'])) < 1e-9, '%s: sample %d accelerations %r', what, i, (a, b))
            ctx.trace()
            ctx.ev(n)
            ctx.state((c, p, m, n, night, how))
            ctx.edge((c, p, m, n), (night, how))
        if kind == 'lap':
            crse, vel, acc, lev = kinematics(df, lat_corr)
            h, s, a, l = track_model([q[:2] for q in pts], glat)
            for i in range(n):
                ctx.check(abs(vel[i] - s[i]) < 1e-5, '%s: speed of sample %d is %r, expected %r', what, i, vel[i], s[i])
                if s[i] > 0.5:
                    d = (crse[i] - h[i] + 180) % 360 - 180
                    ctx.check(abs(d) < 1e-3, '%s: course of sample %d is %r, expected %r', what, i, crse[i], h[i])
                if s[i] > 0.5 and a[i] is not None:
                    ctx.check(abs(acc[0][i] - a[i][0]) < 2 and abs(acc[1][i] - a[i][1]) < 2, '%s: accelerations of sample %d are %r, expected %r',
                              what, i, (acc[0][i], acc[1][i]), a[i])
                    ctx.check(abs(lev[i] - l[i]) < 0.05, '%s: levelling error of sample %d is %r, expected %r', what, i, lev[i], l[i])
    ctx.outcome('%s %s' % (kind, ship))


def since(t):
    """c18.since from integer microseconds"""
    d = t - us(1899, 12, 31, 12)
    return d / 86400e6, t % (86400 * 10**6) / 3600e6


def coupled(case, ctx):
    """monitors and anomaly of a laptop file; the fit gives the coefficients back"""
    import shipgrav.grav as sgg
    _, c, k = case
    fmt, kind, ship = PAIRS[c]
    n, gap, co = 1300, 700, COEF[k]
    tie = 971234.5
    m = c20.mon(2 * n)
    lev = m['lev']
    place = PLACES[c]
    # two stretches of one survey, the second starting gap seconds later
    t0 = NIGHTS[k % len(NIGHTS)]
    fixes, recs, glat, pts, inst = [], [], [], [], []
    la0, lo0 = place
    for j in range(2 * n + gap):
        fixes.append((t0 + (j - 2) * 10**6, minutes(la0 + 2e-5 * j, 'N', 'S'), minutes(wrap(lo0 - 3e-5 * j), 'E', 'W')))
    track = unwrap([(nf.recorded(fmt, t),) + nf.position(a, b) for t, a, b in fixes])
    at = [j if j < n else j + gap for j in range(2 * n)]
    at = [j for j in at if j + 2 < len(track)]
    for j in at:
        pts.append(track[j + 2][1:] + (0.0,))
    glat = [c17.somigliana(p[0]) for p in pts]
    eot = c16.model(pts, 1, None)
    lines = []
    for t, a, b in fixes:
        lines += nf.fix_lines(fmt, t, a, b)
    for i, j in enumerate(at):
        t = t0 + j * 10**6
        inst.append(gf.lap_time(ship, t, 2))
        tid = c18.tide(c18.bodies(*since(inst[-1])), pts[i][0], pts[i][1], 0)[0]
        faa = 20 - sum(co[x] * m[x][i] for x in c20.MON)
        f = gf.lap_fields(t if ship != 'Thompson' else t + 12 * 10**6, i, 2)
        f[1] = '%.9f' % (faa - tie + glat[i] - eot[i] - tid)
        for x in ('ve', 'vcc', 'al', 'ax'):
            f[gf.LAP[x]] = '%.12f' % m[x][i]
        recs.append(gf.lap_prefix(ship, t) + ','.join(f))
    df = read_meter(ctx, 'lap', ship, divide(ctx, 'dat', recs, gf.lap_header(ship), k % 5), None)
    nav = nf.read(fmt, divide(ctx, 'nav', lines, [], (k + 1) % 5, len(lines) // len(fixes)))
    df, _ = workflow(nav, df, tie)
    what = '%s, coefficients %s' % (ship, co)
    ctx.check(len(df) == len(at), '%s: %d samples of %d', what, len(df), len(at))
    for i, g in enumerate(df['faa'].tolist()):
        w = 20 - sum(co[x] * m[x][i] for x in c20.MON)
        ctx.check(abs(g - w) < 5e-3, '%s: anomaly of sample %d is %r, expected %r', what, i, g, w)
    _, model = sgg.calc_cross_coupling_coefficients(df['faa'].values, df['vcc'].values, df['ve'].values, df['al'].values, df['ax'].values,
                                                    lev[:len(df)], times=df['tsec'].values)
    for x in c20.MON:
        ctx.check(abs(float(model.params[x]) - co[x]) < 1e-3, '%s: coefficient of %s is %r', what, x, float(model.params[x]))
    ctx.trace()
    ctx.ev(len(df))
    ctx.state(('ccp', c, k))
    ctx.edge(('ccp', c), k)
    ctx.outcome('cross coupling %s' % ship)


def run(case, ctx):
    return survey(case, ctx) if case[0] == 'faa' else coupled(case, ctx)
