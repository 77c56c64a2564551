"""Calendar arithmetic from first principles (no datetime): the oracle's clock."""


def days_from_civil(y, m, d):
    """days since 1970-01-01 (proleptic Gregorian), Howard Hinnant's algorithm"""
    y -= m <= 2
    era = (y if y >= 0 else y - 399) // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    z += 719468
    era = (z if z >= 0 else z - 146096) // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


DAY = 86400 * 10**6


def us(y, m, d, h=0, mi=0, s=0, u=0):
    """microseconds since the epoch"""
    return (days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + s) * 10**6 + u


class T:
    """Broken-down UTC instant from integer microseconds"""

    def __init__(self, t):
        self.t = t
        day, r = divmod(t, DAY)
        self.y, self.m, self.d = civil_from_days(day)
        self.doy = day - days_from_civil(self.y, 1, 1) + 1
        s, self.u = divmod(r, 10**6)
        self.h, s = divmod(s, 3600)
        self.mi, self.s = divmod(s, 60)

    def hms(self, n=None):
        return '%02d%02d%02d' % (self.h, self.mi, self.s) + self.frac(n)

    def clock(self, n=None):
        return '%02d:%02d:%02d' % (self.h, self.mi, self.s) + self.frac(n)

    def frac(self, n):
        """'.ddd' with n digits (truncated), '' for None"""
        if n is None:
            return ''
        return '.' + ('%06d' % self.u + '0' * max(0, n - 6))[:n]


def trunc(t, digits):
    """instant t as it is recorded with that many decimals of a second"""
    if digits is None or digits == 0:
        return t // 10**6 * 10**6
    q = 10**max(0, 6 - digits)
    return t // q * q
