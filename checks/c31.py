"""C31: numbers read from texts."""
import itertools

FN = ['strtoip', 'memtoip', 'memtollp', 'memtoullp', 'memtollx', 'memtoullx', 'strtollx', 'strtoullx', 'strtolp',
      'lstri', 'lstrl', 'lstru', 'lstrx', 'parse']
EDGES = [2**31, 2**32, 2**63, 2**64]
UNITS = [1, 60, 3600, 86400, 604800, 1024, 1024**2, 1024**3, 1024**4, 1024**5, 1000, 10**6, 10**9, 10**12, 10**15]
LONGS = [-2**63, -2**31, -1000, -1, 0, 1, 7, 99, 1000, 2**31 - 1, 2**63 - 1]


def hx(b):
    return bytes(b).hex() or '-'


def inbase(n, b):
    if n == 0:
        return '0'
    s = ''
    while n:
        s = '0123456789abcdefghijklmnopqrstuvwxyz'[n % b] + s
        n //= b
    return s


def number(rng, b):
    x = rng.random()
    if x < .35:
        n = rng.choice([0, 1, 7, 9, 10, rng.randrange(100), rng.randrange(10**6)])
    elif x < .75:
        e = rng.choice(EDGES)
        n = max(0, (e // rng.choice(UNITS) if rng.random() < .5 else e) + rng.randrange(-2, 3))
    elif x < .85:
        n = rng.choice(EDGES) * rng.choice([2, 10, 3]) + rng.randrange(-5, 6)
    else:
        n = rng.randrange(10 ** rng.randrange(1, 30))
    return n, inbase(n, b or 10)


def text(rng, f):
    b = 10 if f[:4] == 'lstr' or f in ('strtoip', 'memtoip', 'memtollp', 'memtoullp') else rng.choice([0, 0, 10, 10, 8, 16, 36, 2, 7])
    nb = rng.choice([8, 10, 16]) if b == 0 or f == 'parse' else b
    n, t = number(rng, nb)
    if b in (0, 16) and nb == 16 and rng.random() < .9:
        t = rng.choice(['0x', '0X']) + t
    elif b == 0 and nb == 8:
        t = '0' + t
    elif rng.random() < .2:
        t = '0' * rng.choice([1, 2, 30]) + t
    if rng.random() < .3:
        t = t.upper()
    t = rng.choice(['', '', '', '-', '-', '+', '--', '- ']) + t
    x = rng.random()
    if x < .25:
        t = rng.choice([' ', '  ', '\t', '\n ', '\v', '\r\f']) + t
    if f == 'parse':
        if rng.random() < .4:
            t += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice([0, 1, 2, 3, 9, 10, 12])))
        if rng.random() < .7:
            t += rng.choice(list('KMGTPkmgtp') + ['e' + str(rng.choice([0, 1, 3, 9, 17, 18, 19, 20, 400, 2**32, 2**32 + 1, 2**63, 2**64])),
                                                  'E+' + str(rng.randrange(20)), 'e', 'e-1', 'x', 'kk'])
    else:
        x = rng.random()
        if x < .45:
            t += rng.choice('smhdwKMGTkx_')
        if rng.random() < .25:
            t += rng.choice(['a', '1', ' ', '  ', '\t\n', '-', ',', 'z', '.5', '\x7f', ' 1', '\0' if f[:3] not in ('str',) else ';'])
    x = rng.random()
    if x < .05:
        t = t[:rng.randrange(len(t) + 1)]
    elif x < .09:
        t = rng.choice(['', ' ', '   ', '-', '+', ' -', '0x', '0X', '0xg', '-0x', '0', '-0', '+0', '00', '-00', 'é', ' \xff', '.5', '-.5', '-0.5k', 'k', '.'])
    t = t.encode('latin1')
    if f[:3] == 'str' or f == 'parse':
        t = t.replace(b'\0', b';')
    if b in (0, 2) or f == 'parse':
        # 0b is a prefix for some versions of the C library only
        t = t.replace(b'b', b'c').replace(b'B', b'C')
    return t, b


def line(rng, f, t, b):
    if f == 'strtolp':
        lo, hi = sorted(rng.choice(LONGS) for _ in range(2))
        return '%s %s 0 %d %d %d %d' % (f, hx(t), b, rng.randrange(32), lo, hi)
    return '%s %s %d %d 0' % (f, hx(t), rng.choice([0, 0, 1, 3]), b)


def check(ctx):
    exe = ctx.build('nums', ['nums.c'], variant='asan')
    rng = ctx.rng
    ctx.model('NumMC')
    n = 7 if ctx.quick else 28
    runs = []
    # every short text
    ws = [bytes(w) for k in range(4 if ctx.quick else 5) for w in itertools.product(b' -0+1x', repeat=k)]
    every = []
    for w in ws:
        for f in FN:
            every.append(line(rng, f, w, rng.choice([0, 10, 16]) if f[-1] in 'xp' and f[:4] != 'lstr' else 10))
    for i in range(n):
        runs.append(('each%d' % i, every[i::n]))
        s = []
        for _ in range(1800):
            f = rng.choice(FN)
            s.append(line(rng, f, *text(rng, f)))
        runs.append(('mix%d' % i, s))
    ctx.check_runs(exe, runs, 'NumTrace', jobs=7)
