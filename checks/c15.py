"""C15: compressed bitmaps are exact."""


def data(rng, nbits):
    """bytes mixing literal words and runs of either value, aligned on words or not"""
    nb = (nbits + 7) // 8
    out = bytearray()
    while len(out) < nb:
        k = rng.random()
        n = rng.choice([1, 2, 3, 4, 4, 8, 8, 12, 16, 40])
        if k < .35:
            out += bytes([0] * n)
        elif k < .7:
            out += bytes([255] * n)
        elif k < .85:
            out += bytes(rng.choice([0, 0, 255, 1, 0x80, 0xfe, 0x7f]) for _ in range(n))
        else:
            out += bytes(rng.randrange(256) for _ in range(min(n, 4)))
    return bytes(out[:nb])


def history(rng, n, mode):
    bucket = {'small': rng.choice([32, 64, 96, 128, 256, 1024, 8192]), 'big': 0, 'lit': rng.choice([0, 4096, 65536])}[mode]
    out = ['reset %d' % bucket]
    i = lambda: rng.randrange(6)
    top = {'small': 700, 'big': 3000, 'lit': 60000}[mode]

    def count():
        if mode == 'big' and rng.random() < .3:
            return rng.choice([1 << 15, 1 << 20, (1 << 20) + 17, 10 ** 6])
        return rng.choice([0, 1, 5, 8, 24, 31, 32, 33, 63, 64, 65, 96, 128, 160, 256, rng.randrange(min(top, 700))])
    size = [0] * 6

    def literals(a, words):
        """many literal words in a row: one bit or two per word"""
        b = b''.join((1 << rng.randrange(32)).to_bytes(4, 'little') for _ in range(words))
        out.append('add %d %s %d 0' % (a, b.hex(), words * 32))
        size[a] += words * 32
    if mode == 'lit':
        for a in range(3):
            literals(a, rng.choice([30, 400, 1023, 1024, 1025, 1100]))
    for _ in range(n):
        a, b = i(), i()
        x = rng.random()
        if size[a] > top * (40 if mode == 'big' else 1) and mode != 'lit' and rng.random() < .5:
            out.append('clear %d' % a)
            size[a] = 0
        elif x < .18:
            c = count()
            out.append('%s %d %d' % (rng.choice(['add0', 'add1']), a, c))
            size[a] += c
        elif x < .30:
            c = count() % 1500
            d = data(rng, c)
            out.append('add %d %s %d %d' % (a, d.hex() or '-', c, rng.choice([0, 0, rng.randrange(8)])))
            size[a] += c
        elif x < .36:
            p = size[a] + rng.choice([0, 1, 31, 32, 100])
            out.append('at %d %d' % (a, p))
            size[a] = max(size[a], p + 1)
        elif x < .38:
            out.append('pad %d' % a)
            size[a] = (size[a] + 63) // 32 * 32
        elif x < .56:
            out.append('%s %d %d' % (rng.choice(['and', 'andnot', 'notand', 'or', 'or']), a, b))
            if a != b:
                size[a] = max(size[a], size[b])
        elif x < .60:
            out.append('not %d' % a)
        elif x < .66:
            s = [i() for _ in range(rng.randrange(0, 6))]
            out.append('multior %d %s' % (a, ' '.join(map(str, s))))
            if a not in s:
                size[a] = max([0] + [size[k] for k in s])
        elif x < .70:
            out.append('copy %d %d %d' % (a, b, rng.randrange(3)))
            if a != b:
                size[a] = size[b]
        elif x < .73:
            out.append('store %d' % a)
        elif x < .733 and mode == 'small':
            w, tot = [], 0
            nch = rng.randrange(1, 6)
            for c in range(nch):
                # the chunks the library writes: no run of less than two words but in the first
                run, lit = rng.choice([2, 3, 10] if c else [0, 2, 3, 10]), rng.choice([0, 1, 2, 3, 9])
                if not c and not run:
                    lit = max(lit, 1)
                w.append(run | rng.randrange(2) << 31)
                w.append(lit)
                w += [rng.choice([0, 0xffffffff, rng.randrange(1 << 32)]) for _ in range(lit)]
                tot += run + lit
            if rng.random() < .2:
                w[-1 - lit] = lit + rng.choice([1, 2, 1000, (1 << 32) - 1 - lit, (1 << 31)])
            d = b''.join(k.to_bytes(4, 'little') for k in w)
            if rng.random() < .3:
                d = d[:rng.randrange(len(d) + 1)]
            out.append('load %d %s' % (a, d.hex() or '-'))
            if rng.random() < .7:
                out += ['enum %d %d' % (a, rng.randrange(2)), 'getall %d' % a]
            size[a] = tot * 32
        elif x < .74 and mode == 'small':
            out.append('bucket %d' % rng.choice([32, 64, 96, 128, 256, 1024]))
            size = [(k + 31) // 32 * 32 for k in size]
            out += ['dump %d' % k for k in range(6)]
        elif x < .85:
            out.append('dump %d' % a)
        elif x < .88:
            out.append('get %d %d' % (a, rng.randrange(size[a] + 40)))
        elif x < .90 and mode == 'small':
            out.append('getall %d' % a)
        elif x < .94 and size[a] < 200000:
            out.append('enum %d %d' % (a, rng.randrange(2)))
        elif size[a] < 200000:
            steps = [rng.choice([-1, -1, 0, 1, 2, 5, 20, 31, 32, 33, 64, 100]) for _ in range(rng.randrange(1, 12))]
            out.append('walk %d %d %s' % (a, rng.randrange(2), ' '.join(map(str, steps))))
    for a in range(6):
        out.append('dump %d' % a)
    return out


def check(ctx):
    exe = ctx.build('wah', ['wah.c'], variant='asan')
    rng = ctx.rng
    ctx.model('WahMC')
    runs = []
    for i in range(70 if ctx.quick else 420):
        s = []
        mode = ['small', 'small', 'small', 'small', 'big', 'small', 'lit'][i % 7]
        for j in range({'small': 40, 'big': 25, 'lit': 3}[mode]):
            s += history(rng, {'small': 90, 'big': 60, 'lit': 30}[mode], mode)
        runs.append(('%s%d' % (mode, i), s))
    ctx.check_runs(exe, runs, 'WahTrace', jobs=7)
