"""C35: dates: calendar and zone arithmetic, formats, parsers, durations, pairs of seconds and microseconds."""

MON = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
DAY = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']
UNITS = ['curminute', 'nextminute', 'curhour', 'nexthour', 'curday', 'nextday', 'addday', 'curweek', 'nextweek', 'curmonth', 'nextmonth', 'curyear']
HALF = 5      # the zone whose clock moves by half an hour: "hours" are not whole there


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex() or '-'


def days(y, m, d):
    import datetime
    return (datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days + d - 1


def a_day(rng, lo=1972, hi=2098):
    """a day of the years on which the rules of the zones apply"""
    m = rng.random()
    y = rng.choice([1972, 1999, 2000, 2004, 2019, 2020, 2024, 2037, 2038, 2098, rng.randrange(lo, hi + 1)])
    if m < .35:         # around the months where clocks change
        return days(y, rng.choice([3, 4, 9, 10, 11]), rng.randrange(1, 32))
    if m < .6:
        return days(y, rng.choice([1, 2, 3, 12]), rng.choice([1, 2, 27, 28, 29, 30, 31]))
    if m < .75:
        return days(y, rng.randrange(1, 13), rng.choice([1, 28, 29, 30, 31]))
    return days(y, rng.randrange(1, 13), rng.randrange(1, 29))


def a_sec(rng):
    return rng.choice([0, 1, 59, 60, 61, 3599, 3600, 3601, 7199, 7200, 86399, 3600 * rng.randrange(24) + rng.choice([0, 1, 1799, 1800, 1801, 3599]), rng.randrange(86400)])


def transition(rng, zi):
    """a time around a change of clock"""
    rules = {1: (2019, [(3, 31, 3600), (10, 27, 3600)]), 2: (2019, [(3, 10, 25200), (11, 3, 21600)]),
             4: (2019, [(4, 6, 50400), (9, 28, 50400)]), 5: (2019, [(4, 6, 54000), (10, 5, 55800)]),
             6: (2019, [(3, 10, 19800), (11, 3, 16200)]), 8: (2019, [(4, 1, 4500), (9, 25, 4500)])}
    if zi not in rules:
        return a_day(rng), a_sec(rng)
    y, l = rules[zi]
    m, d, s = rng.choice(l)
    s += rng.choice([-7201, -7200, -3601, -3600, -1801, -1800, -61, -60, -1, 0, 1, 59, 60, 1799, 1800, 3599, 3600, 3601, 7199, 7200])
    dd = days(y, m, d)
    return dd + s // 86400, s % 86400


TZ = ['Z', 'z', 'UT', 'gmt', 'GMT', 'EDT', 'est', 'CDT', 'CST', 'MDT', 'MST', 'PDT', 'PST', 'A', 'M', 'N', 'Y', 'm', 'y', 'UTC', 'CEST', 'b', 'zz']


def tz(rng):
    m = rng.random()
    if m < .3:
        return rng.choice(TZ)
    s = rng.choice('+-')
    h, mi = rng.randrange(24), rng.choice([0, 15, 30, 45, 59, rng.randrange(60)])
    if rng.random() < .2:
        h = 0
    return s + rng.choice(['%02d:%02d', '%02d%02d', '%02d:%02d']) % (h, mi) if rng.random() < .8 else s + '%02d' % h


def ymd(rng):
    y = rng.choice([1901, 1904, 1970, 1999, 2000, 2019, 2020, 2023, 2024, 2038, 2099, 2100, rng.randrange(1901, 2101)])
    m = rng.randrange(1, 13)
    d = rng.choice([1, 2, 15, 28, 29, 30, 31, rng.randrange(1, 29)])
    if rng.random() < .08:
        m = rng.choice([0, 13, 99])
    if rng.random() < .08:
        d = rng.choice([0, 32, 99])
    return y, m, d


def hms(rng):
    return '%02d:%02d:%02d' % (rng.choice([0, 1, 2, 3, 12, 23, rng.randrange(24)]), rng.choice([0, 30, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)]))


def iso(rng):
    s = '%04d-%02d-%02d' % ymd(rng)
    if rng.random() < .12:
        return s
    sep = rng.choice(['T', 'T', 'T', 't', ' '])
    t = hms(rng)
    if rng.random() < .07:
        t = t[:2] + rng.choice('Ll') + t[3:]
    s += sep + t
    if rng.random() < .3:
        s += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 3, 6, 9])))
    if rng.random() < .8:
        s += (' ' if sep == ' ' and rng.random() < .85 else '') + tz(rng)
    return s


def period(rng):
    def c(l):
        if rng.random() < .5:
            return ''
        n = str(rng.choice([0, 1, 2, 5, 11, 12, 13, 30, 31, 60, 61, 366, rng.randrange(100)]))
        return rng.choice(['', '', '', '-']) + n + (l if rng.random() < .8 else l.lower())
    y = c('Y')
    if len(y.rstrip('Yy').lstrip('-')) > 2:
        y = '3Y'
    s = 'P' + y + c('M') + c('D')
    if rng.random() < .6:
        s += 'T' + c('H') + c('M') + c('S')
    return s


def rfc(rng):
    y, m, d = ymd(rng)
    mo = MON[m - 1] if 1 <= m <= 12 else 'xyz'
    mo = rng.choice([mo, mo.capitalize(), mo.upper()])
    s = (str(d) if rng.random() < .5 else '%02d' % d) + ' ' + mo + ' %04d ' % y + hms(rng)
    if rng.random() < .75:
        s += ' ' + tz(rng)
    if rng.random() < .5:
        s = rng.choice([rng.choice(DAY), rng.choice(DAY).lower(), 'Xyz' if rng.random() < .2 else 'Fri']) + ', ' + s
    return s


def unix(rng):
    n = rng.choice([0, 1, 9, 86399, 86400, 2147483647, 2147483648, 29999999999, 30000000001, 30000000999, 1234567890123, rng.randrange(10 ** rng.randrange(1, 15))])
    return rng.choice(['', '', '', '-']) + str(n) + rng.choice(['', '', '', '', 'x', 'z'])


def dmy(rng):
    y, m, d = ymd(rng)
    mo = MON[m - 1] if 1 <= m <= 12 else 'foo'
    y = rng.choice(['%02d' % (y % 100), str(y), '69', '70', '36', '37', '99', '2036', '2037', '1970', '1969', '00'])
    return '%02d-%s-%s' % (d, rng.choice([mo, mo.upper(), mo.capitalize()]), y)


def damage(rng, s):
    b = bytearray(s.encode())
    for _ in range(rng.choice([1, 1, 2])):
        if not b:
            break
        k = rng.randrange(len(b))
        x = rng.random()
        if x < .4:
            b[k] = rng.choice(b'0123459:-+TZ ., PLxM/')
        elif x < .6:
            del b[k]
        elif x < .75:
            b.insert(k, rng.choice(b'0159:-+T ZY.'))
        else:
            del b[k:]
    return bytes(b)


def script(rng, n):
    out = []
    zi = 0
    for _ in range(n):
        m = rng.random()
        if m < .05:
            zi = rng.randrange(9)
            out.append('zone %d' % zi)
        elif m < .08:
            out.append('now %d %d' % (transition(rng, zi) if rng.random() < .3 else (a_day(rng, 2016, 2090), a_sec(rng))))
        elif m < .35:
            u = rng.choice(UNITS)
            if zi == HALF and 'hour' in u:
                u = 'curday'
            d, s = transition(rng, zi) if rng.random() < .4 else (a_day(rng), a_sec(rng))
            if rng.random() < .04:
                d, s = 0, 0
                if zi == HALF:
                    u = 'nextmonth'
            a = rng.randrange(7) if 'week' in u else rng.choice([0, 1, 2, -1, -31, 29, 365, 366, -400, rng.randrange(-1000, 1000)])
            out.append('round %s %d %d %d' % (u, d, s, a))
        elif m < .39:
            out.append('diffdays %d %d %d %d' % (a_day(rng), a_sec(rng), a_day(rng), a_sec(rng)))
        elif m < .42:
            def tm():
                y = rng.choice([1900, 1901, 1904, 1999, 2000, 2001, 2100, 2101, rng.randrange(1900, 3000)])
                return '%d %d %d %d' % (y, rng.randrange(365), rng.randrange(24), rng.randrange(60))
            out.append('tmdiff %s %s' % (tm(), tm()))
        elif m < .45:
            out.append('mday %d %d %d' % (rng.choice([0, 1, 28, 29, 30, 31, 32, -1]), rng.randrange(12), rng.choice([1900, 1904, 2000, 2019, 2020, 2100, rng.randrange(1900, 2400)])))
        elif m < .52:
            s = dmy(rng)
            if rng.random() < .2:
                s = damage(rng, s)
            out.append('strtotm ' + hx(s))
        elif m < .60:
            d = rng.choice([a_day(rng), days(rng.choice([1, 1000, 1600, 1899, 1904, 2399, 9999]), rng.randrange(1, 13), rng.randrange(1, 29))])
            zz = rng.choice([-1, rng.randrange(9)])
            s = a_sec(rng)
            if d < 366 and rng.random() < .8:
                zz = rng.choice([0, 3, 7])
            elif d < 366:
                d = -d
            if rng.random() < .2:
                d, s = transition(rng, zi if zz < 0 else zz)
            if d < -719162 + 3:
                d += 30
            d = min(d, 2932896 - 3)
            out.append('fmt %d %d %d %d' % (d, s, rng.choice([0, 1, 9, 10, 99, 100, 999]), zz))
        elif m < .72:
            s = period(rng) if rng.random() < .15 else iso(rng)
            if rng.random() < .3:
                s = damage(rng, s)
            out.append('parse %d %s' % (rng.choice([0, 0, 2, 4, 8, 10, 6]), hx(s)))
        elif m < .86:
            s = rng.choice([iso, period, rfc, rfc, unix])(rng)
            if rng.random() < .25:
                s = damage(rng, s)
            out.append('parse any ' + hx(s))
        elif m < .93:
            def tv():
                return '%d %d' % (rng.choice([0, 0, 1, -1, 2, -2, 59, 60, -60, 3599, 3600, 86399, 86400, -86400, rng.randrange(-2000, 2000), rng.randrange(-1000000, 1000000)]),
                                  rng.choice([0, 0, 1, 499999, 500000, 999, 1000, 999999, rng.randrange(1000000)]))
            a = tv()
            b = a if rng.random() < .1 else tv()
            if rng.random() < .2:
                out.append('tv %d %d %s %d' % (rng.randrange(40000000, 2000000000), rng.randrange(1000000), tv(), rng.randrange(2)))
                continue
            out.append('tv %s %s %d' % (a, b, rng.choice([0, 1, -1, 2, 3, -3, 7, 10, 999, 1000, 1001, -999, -1000, -1001, 1999, -1999, rng.randrange(-2000, 2000)])))
        elif m < .97:
            d = rng.choice([0, 0, 1, 6, 7, 13, 14, 364, 365, 366, 372, 729, 730, rng.randrange(4000), rng.randrange(2000000)])
            s = rng.choice([0, 1, 2, 59, 60, 61, 119, 120, 3599, 3600, 3601, 7200, 86399, rng.randrange(86400)])
            out.append('split %d %d %d' % (d, s, rng.choice([-1, 0, 1, 2, 3, 4, 5, 6])))
        else:
            out.append('ftime %d %d %d %d %d' % (a_day(rng), a_sec(rng), rng.choice([0, 1, 5, 24, 25, 26, 27, 64]), rng.randrange(4), rng.randrange(2)))
    return out


def check(ctx):
    exe = ctx.build('dates', ['dates.c'], variant='asan')
    ctx.model('DateMC', 'DateMC.cfg' if ctx.quick else 'DateMC2.cfg', workers=7, timeout=800)
    nr, n = (21, 350) if ctx.quick else (140, 500)
    runs = []
    for i in range(nr):
        sc = script(ctx.rng, n)
        if i < 9:
            sc.insert(0, 'zone %d' % i)
        runs.append(('dates%d' % i, sc))
    ctx.check_runs(exe, runs, 'DateTrace', 'DateTrace.cfg', jobs=7)
    ctx.assumptions += [
        'zones are given by POSIX rules whose clocks do not change at midnight; a local time that a change of clock skips or repeats may stand for either reading',
        'texts that are neither of the documented formats nor clearly damaged are unconstrained, and so are years outside 1901..2100 and zone names that are not of RFC 822',
    ]
