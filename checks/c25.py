"""C25: header compression."""
KEYS = [b'host', b'x-a', b'content-type', b':path', b':method', b':status', b'accept', b'Cookie', b'x-very-long-header-name-to-fill-the-table', b'k', b'HOST',
        b'accept-encoding', b'via', b'', b'tateoisca012' * 6, b'seat-to-aisles-0120-estate-cost', b'\x01\xff']
VALS = [b'', b'/', b'GET', b'POST', b'200', b'404', b'gzip, deflate', b'a', b'value-one', b'w' * 60, b'\x00\x01\xfe\xff' * 6, b'www.example.com', b'0' * 200, b'aceiost012' * 9, b'text/html']


def rint(v, prefix, mask, pad=0):
    m = (1 << prefix) - 1
    if v < m:
        return bytes([mask | v])
    out = [mask | m]
    v -= m
    while v >= 128:
        out.append(128 | (v & 127))
        v >>= 7
    if pad:
        out.append(128 | v)
        out += [128] * (pad - 1) + [0]
    else:
        out.append(v)
    return bytes(out)


def huff_table():
    import os, re
    t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs', 'lib', 'HpackTables.tla')).read()
    t = t[t.index('Huffman =='):]
    return [format(int(b), '0%db' % int(a)) for a, b in re.findall(r'<<(\d+),(\d+)>>', t)]


HUFF = huff_table()


def huff(s, pad='1', extra=0):
    b = ''.join(HUFF[c] for c in s)
    b += pad * (-len(b) % 8) + pad * (8 * extra)
    return bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8))


def string(rng, s):
    x = rng.random()
    if x < .5:
        return rint(len(s), 7, 0, pad=rng.choice([0] * 9 + [1, 3])) + s
    z = huff(s, pad='0' if x > .97 else '1', extra=1 if .95 < x < .97 else 0)
    if x > .985:
        z = z[:-1]
    return rint(len(z), 7, 0x80) + z


def forged(rng, keys):
    """a block of representations, mostly valid, of the decoder's point of view"""
    out = b''
    for _ in range(rng.randrange(1, 8)):
        x = rng.random()
        idx = rng.choice([0, 0, rng.randrange(1, 62), 62, 62, 63, 64, 65, 66, rng.randrange(62, 80)])
        if x < .3:
            out += rint(idx if idx or rng.random() < .1 else 62, 7, 0x80, pad=rng.choice([0] * 20 + [1]))
        elif x < .38:
            out += rint(rng.choice([0, 30, 31, 100, 200, 4096, 10 ** 6]), 5, 0x20)
        else:
            p, m = rng.choice([(6, 0x40), (6, 0x40), (6, 0x40), (4, 0), (4, 0x10)])
            out += rint(idx, p, m)
            if not idx:
                out += string(rng, rng.choice(keys))
            out += string(rng, rng.choice(VALS))
    y = rng.random()
    if y < .15:
        out = out[:rng.randrange(len(out) + 1)]
    elif y < .25:
        i = rng.randrange(len(out))
        out = out[:i] + bytes([rng.randrange(256)]) + out[i + 1:]
    elif y < .28:
        out += bytes([0xff] + [0xff] * rng.randrange(3, 9) + [rng.randrange(128)])
    return out


def history(rng, n):
    size = rng.choice([0, 60, 100, 200, 400, 4096])
    out = ['reset %d' % size]
    top = size
    keys = rng.sample(KEYS, rng.randrange(2, 6))
    ids = {k: rng.choice([0, KEYS.index(k) + 1]) for k in keys}
    if rng.random() < .35:
        # hostile peer
        for _ in range(n):
            out.append('forged %s' % (forged(rng, keys).hex() or '-'))
            if rng.random() < .5:
                out.append('peek %d' % rng.randrange(1, 6))
        return out
    for _ in range(n):
        x = rng.random()
        if x < .72:
            k, v = rng.choice(keys), rng.choice(VALS)
            flags = 0
            if rng.random() < .6:
                for b in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024):
                    if rng.random() < (.3 if b in (1024, 64) else .12):
                        flags |= b
            kid = ids[k]
            vid = VALS.index(v) + 1 if kid and rng.random() < .8 else 0
            out.append('enc %d %d %d %s %s' % (flags, kid, vid, k.hex() or '-', v.hex() or '-'))
        elif x < .9:
            out.append('flush')
            if rng.random() < .5:
                out.append('peek %d' % rng.randrange(1, 5))
        elif x < .95:
            out.append('flush')
            out.append('dts %d' % rng.choice([0, 50, 100, 150, top, rng.randrange(top + 1)]))
        else:
            top = rng.choice([0, 100, 200, 4096, 10000])
            out.append('flush')
            out.append('dts %d' % min(top, size))
            out.append('flush')
            out.append('max %d' % top)
            out.append('dts %d' % top)
    out.append('flush')
    return out


def check(ctx):
    exe = ctx.build('hpack', ['hpack.c'], variant='asan')
    rng = ctx.rng
    runs = []
    for i in range(21 if ctx.quick else 140):
        s = []
        for j in range(20):
            s += history(rng, rng.choice([5, 15, 40]))
        runs.append(('h%d' % i, s))
    ctx.check_runs(exe, runs, 'HpackTrace', jobs=7)
    ctx.model('HpackMC')
