"""C42: strings with a length, and C strings."""
import itertools


def hx(b):
    return bytes(b).hex() or '-'


def text(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 8, 16, rng.randrange(30)]) if n is None else n
    m = rng.random()
    if m < .3:
        return bytes(rng.choice(b'ab') for _ in range(n))
    if m < .5:
        return bytes(rng.choice(b' \t\nabAB') for _ in range(n))
    if m < .6:
        return bytes(rng.choice(b'0189aAfF gG') for _ in range(n))
    if m < .75:
        t = ''.join(rng.choice('aé\u20ac\U0001f600ÉbZ') for _ in range(n)).encode()
        return t[:rng.randrange(len(t) + 1)] if rng.random() < .2 else t
    if m < .85:
        return bytes(rng.choice([65, 90, 91, 96, 97, 122, 123, 64, 0xc1, 0xe1]) for _ in range(n))
    t = bytes(rng.randrange(256) for _ in range(n))
    return t[:-1] + bytes([rng.randrange(10)]) if t and rng.random() < .5 else t


def edit(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        i = rng.randrange(len(t) + 1)
        x = rng.random()
        if x < .3:
            t.insert(i, rng.choice(b'abc'))
        elif x < .55 and i < len(t):
            del t[i]
        elif x < .7 and i < len(t):
            t[i] = rng.choice(b'abcA')
        elif x < .9 and i + 1 < len(t):
            t[i], t[i + 1] = t[i + 1], t[i]
        elif i < len(t):
            t[i] ^= 32
    return bytes(t)


def own(rng):
    out = ['begin']
    R = lambda: rng.randrange(4)
    P = lambda: rng.choice('LLT')
    for _ in range(rng.choice([10, 20, 40])):
        x = rng.random()
        r, a = R(), R()
        if x < .18:
            out.append('lit %d %s' % (r, hx(text(rng))))
        elif x < .20:
            out.append('null %d' % r)
        elif x < .27:
            out.append('sub %d %d %d %d' % (r, a, rng.randrange(100), rng.randrange(100)))
        elif x < .36:
            out.append('dup %d %d %s %d' % (r, a, P(), rng.randrange(2)))
        elif x < .38:
            out.append('dupz %d %d %s 0' % (r, a, P()))
        elif x < .41:
            out.append('dupc %d %d S 0' % (r, a))
        elif x < .52:
            out.append('copy %d %d %s %d' % (r, a, rng.choice('LLTS'), rng.randrange(2)))
        elif x < .58:
            out.append('cat %d %d %d %d %s %d' % (r, a, R(), R(), P(), rng.randrange(2)))
        elif x < .65:
            out.append('persist %d %s' % (r, P()))
        elif x < .71:
            out.append('transfer %d %d' % (r, a))
        elif x < .76:
            out.append('transfersb %d %s %d %s %d' % (r, hx(text(rng)), rng.randrange(2), P(), rng.choice([0, 0, 1, 2, 5])))
        elif x < .84:
            out.append('inplace %d %d' % (r, rng.randrange(5)))
        elif x < .87:
            out.append('file %d %s %d %d' % (r, hx(text(rng)), rng.randrange(5), rng.randrange(3)))
        elif x < .9:
            out.append('%s %d %d %s 0' % (rng.choice(['rev', 'urev']), r, a, P()))
        elif x < .92:
            out.append('tcase %d %d T %d' % (r, a, rng.randrange(3)))
        elif x < .95:
            out.append('trim %d %d S %d' % (r, a, rng.randrange(3)))
        elif x < .97:
            out.append('trunc %d %d S %d' % (r, a, rng.choice([0, 1, 2, 3, 5, 100, -1])))
        elif x < .98:
            out.append('pkcs7 %d %d S 0' % (r, a))
        else:
            out.append('%s %d %d T 0' % (rng.choice(['hexenc', 'hexdec', 'hhexdec']), r, a))
    out.append('end')
    return out


def compare(rng):
    out = ['begin']
    for _ in range(20):
        t = text(rng)
        u = edit(rng, t) if rng.random() < .7 else t[rng.randrange(len(t) + 1):] if rng.random() < .5 else text(rng)
        if rng.random() < .2:
            u = u.swapcase()
        out += ['lit 0 ' + hx(t), 'lit 1 ' + hx(u) if rng.random() < .97 else 'null 1', 'cmp 0 1', 'cmp 1 0', 'about 0 ' + hx(set(u)), 'about 1 ' + hx(set(t))]
    out.append('end')
    return out


def uconv(rng):
    out = ['begin']
    for _ in range(20):
        out.append('lit 0 ' + hx(text(rng, rng.choice([8, 16, 24, None]))))
        out.append('%s 1 0 T %d' % (rng.choice(['hexenc', 'hexdec', 'hhexdec', 'pkcs7', 'trunc', 'trim', 'urev', 'rev']), rng.randrange(3)))
        if rng.random() < .3:
            h = bytes(rng.randrange(256) for _ in range(rng.randrange(6))).hex()
            h = ''.join(rng.choice([c, c.upper()]) for c in h)
            if rng.random() < .3:
                h = ' '.join(h[i:i + 2] for i in range(0, len(h), 2)) + rng.choice(['', 'g', '0'])
            out += ['lit 2 ' + hx(h.encode()), '%s 3 2 T 0' % rng.choice(['hexdec', 'hhexdec'])]
        if rng.random() < .3:
            n = rng.choice([8, 16])
            k = rng.choice([0, 1, 2, 7, 8, 9, 255])
            out += ['lit 2 ' + hx(bytes(n - 1) + bytes([k])), 'pkcs7 3 2 S 0']
    out.append('end')
    return out


LIKE = ['a', 'A', 'b', 'e', 'o', 'é', 'É', 'œ', 'Œ', 'oe', 'OE', '%', '_', '\\', '€', ' ', '1']


def like(rng):
    out = ['begin']
    for _ in range(30):
        t = [rng.choice(LIKE if rng.random() < .5 else LIKE[:6]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8]))]
        s = ''.join(t)
        p = []
        for c in t if rng.random() < .8 else [rng.choice(LIKE) for _ in range(3)]:
            x = rng.random()
            if x < .15:
                p.append('%')
            elif x < .25:
                p.append('_')
            elif x < .30:
                p.append(c + '%')
            elif x < .33:
                pass
            elif c in '%_\\' and rng.random() < .8:
                p.append('\\' + c)
            elif x < .6:
                p.append(c.swapcase() if c not in 'œŒ' else rng.choice(['oe', 'Œ', 'œ', 'OE', 'oE']))
            elif c in ('oe', 'OE'):
                p.append(rng.choice(['œ', c, 'Œ']))
            else:
                p.append(c)
        if rng.random() < .2:
            p.append('%')
        ps = ''.join(p)
        # a backslash before an ordinary letter is left out
        i, ok = 0, True
        while i < len(ps):
            if ps[i] == '\\':
                if i + 1 < len(ps) and ps[i + 1] not in '%_\\':
                    ok = False
                i += 1
            i += 1
        if ok:
            out += ['lit 0 ' + hx(s.encode()), 'lit 1 ' + hx(ps.encode()), 'like 0 1']
    out.append('end')
    return out


def cstrings(rng):
    out = ['begin']
    for _ in range(20):
        z = lambda t: bytes(c or 49 for c in t)
        x = rng.random()
        if x < .4:
            words = [bytes(rng.choice(b'ab') for _ in range(rng.randrange(4))) for _ in range(rng.randrange(5))]
            s, t, sep = b','.join(words), rng.choice(words + [b'a', b'ab', b'', b'a,b']), 44
        elif x < .7:
            s = rng.choice([b'', b'x-', b'a9', b'f', b'G']) + bytes(rng.choice(b'0123899999FfeaA') for _ in range(rng.randrange(6)))
            t, sep = s[rng.randrange(len(s) + 1):], rng.choice(b'019f')
        else:
            s = z(text(rng))
            i = rng.randrange(len(s) + 1)
            t, sep = z(edit(rng, s[i:i + rng.randrange(8)] if rng.random() < .6 else s[:i])), rng.choice(list(s) or [97])
            t = t.swapcase() if rng.random() < .3 else t
        out.append('cstr %s %s %d %d' % (hx(s), hx(t), sep if sep < 128 else 97, rng.choice([-1, len(s), rng.randrange(len(s) + 1)])))
        out.append('pstr %s %s %d %d' % (hx(s), hx(t), rng.choice([0, 1, 2, 3, 4, len(s), len(s) + 1, len(s) + len(t), len(s) + len(t) + 1, 40]),
                                         rng.choice([0, 1, 2, 5, 30])))
    out.append('end')
    return out


def small(ws):
    out = ['begin']
    for a, b in ws:
        out += ['lit 0 ' + hx(a), 'lit 1 ' + hx(b), 'cmp 0 1']
        if len(out) > 3000:
            out += ['end', 'begin']
    out.append('end')
    return out


def check(ctx):
    exe = ctx.build('lstrs', ['lstrs.c'], variant='asan')
    rng = ctx.rng
    ctx.model('LstrMC')
    n = 7 if ctx.quick else 28
    words = [bytes(w) for k in range(4 if ctx.quick else 5) for w in itertools.product(b'abA', repeat=k)]
    pairs = [(a, b) for a in words for b in words]
    rng.shuffle(pairs)
    pairs = pairs[:1400] if ctx.quick else pairs[:12000]
    runs = [('small%d' % i, small(pairs[i::n])) for i in range(n)]
    for i in range(n):
        for tag, f, k in (('own', own, 60), ('mix', None, 0)):
            s = []
            if f:
                for _ in range(k):
                    s += f(rng)
            else:
                for _ in range(12):
                    s += compare(rng) + uconv(rng) + like(rng) + cstrings(rng)
            runs.append(('%s%d' % (tag, i), s))
    ctx.check_runs(exe, runs, 'LstrTrace', jobs=7)
