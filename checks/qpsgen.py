"""Histories on a paged store: tries, bitmaps, blocks, snapshots, crashes."""
TOP = 0xffffffff


def region(rng):
    """a base around which keys cluster, near the limits of the tree's levels"""
    x = rng.random()
    if x < .15:
        return 0
    if x < .3:
        return TOP - rng.choice([0, 1, 1023, 1024, 5000, 40000])
    if x < .5:
        return rng.choice([1 << 10, 1 << 15, 1 << 20, 1 << 22, 1 << 24, 1 << 30, 3 << 30, 1 << 31]) * rng.choice([1, 1, 2, 3]) - rng.choice([0, 1, 7, 500])
    return rng.randrange(1 << rng.choice([12, 16, 20, 26, 32]))


def one(rng, bases):
    k = rng.choice(bases) + rng.choice([0, 0, 1, -1, 2, 63, 64, 1023, 1024, -1024, 32767, 32768, rng.randrange(-3000, 3000), rng.randrange(1 << 20)])
    return min(max(k & TOP, 0), TOP)


def bulk(rng, bases, big):
    step = rng.choice([1, 1, 1, 2, 3, 7, 64, 1023, 1024, 1025, 4096, 32768, 1 << 20, (1 << 20) + 1])
    n = rng.choice([1, 3, 10, 40, 200] + ([600, 1025, 1400, 1700, 2100] if big else []))
    k0 = min(max(rng.choice(bases) + rng.choice([0, 0, -5, -1024, -n // 2, 700]), 0), TOP)
    n = min(n, (TOP - k0) // step + 1, 2000000000 // step)
    return k0, step, n


def entry_ops(rng, o, kind, bases, out, big, n, limit):
    """reads and writes of one object; limit bounds what it can hold"""
    e = lambda: rng.randrange(8)
    held = 0
    for _ in range(n):
        x = rng.random()
        if x < .13:
            k0, step, m = bulk(rng, bases, big)
            if held + m > limit:
                out.append('unfill %d %d %d %d 0%s' % (o, k0, step, m, ' d' if rng.random() < .3 else ''))
                if rng.random() < .4:
                    out.append('sweep %d %d %d' % (o, rng.choice([1, 2, 2, 3, 5]), 0))
                    held //= 2
                continue
            held += m
            out.append('fill %d %d %d %d %d%s' % (o, k0, step, m, rng.randrange(250), ' d' if rng.random() < .3 else ''))
        elif x < .22:
            k0, step, m = bulk(rng, bases, big)
            out.append('unfill %d %d %d %d 0%s' % (o, k0, step, m, ' d' if rng.random() < .3 else ''))
        elif x < .34:
            out.append('set %d %d %d' % (o, one(rng, bases), rng.randrange(250)))
        elif x < .39:
            out.append('set0 %d %d' % (o, one(rng, bases)))
        elif x < .46:
            out.append('rem %d %d' % (o, one(rng, bases)))
        elif x < .56:
            out.append('get %d %d' % (o, one(rng, bases)))
        elif x < .64:
            i = e()
            out.append('en %d %d %d' % (i, o, rng.choice([0, one(rng, bases), one(rng, bases)])))
        elif x < .82:
            i = e()
            for _ in range(rng.choice([1, 1, 2, 5])):
                out.append('next %d %d' % (i, rng.randrange(2)))
            if rng.random() < .4:
                out.append('val %d %d' % (i, rng.randrange(2)))
        elif x < .86:
            out.append('goto %d %d %s' % (e(), rng.randrange(2), rng.choice(['%d r' % rng.choice([0, 1, 2, 31, 32, 63, 64, 1000, 1024, 32768, 1 << 20]),
                                                                            '%d' % one(rng, bases)])))
        elif x < .89:
            out.append('%s %d %d' % (rng.choice(['erem', 'eset']), e(), rng.randrange(250)))
        elif x < .92:
            p = e()
            out.append('path %d %d %d' % (p, o, one(rng, bases)))
            out.append('%s %d %d' % (rng.choice(['pget', 'pset', 'prem']), p, rng.randrange(250)))
        elif x < .945:
            out.append('%s %d %d' % (rng.choice(['pget', 'pset', 'prem']), e(), rng.randrange(250)))
        elif x < .955:
            out.append('dump %d' % o)
        elif x < .965:
            out.append('sweep %d %d %d' % (o, rng.choice([1, 2, 3, 7]), rng.choice([0, 1])))
        elif x < .98:
            out.append('check %d' % o)
        elif x < .99:
            out.append('stats %d' % o)
        elif x < .993:
            out.append('clear %d' % o)
            held = 0
        else:
            out.append('leaks')


def objects(rng, kind, big, n, limit=4500):
    out = ['reset']
    k = rng.choice([1, 1, 2])
    bases = [region(rng) for _ in range(rng.choice([1, 2, 4]))]
    for o in range(k):
        out.append('new %d %s %d %d%s' % (o, kind, rng.choice([1, 2, 4, 8, 16]), rng.randrange(2), ' s' if kind == 'h' and rng.random() < .3 else ''))
    for _ in range(3):
        for o in range(k):
            entry_ops(rng, o, kind, bases, out, big, n // (3 * k), limit)
    for o in range(k):
        out += ['check %d' % o, 'stats %d' % o, 'dump %d' % o]
    out.append('leaks')
    for o in range(k):
        out.append(rng.choice(['destroy %d' % o, 'clear %d' % o]))
    out.append('leaks')
    return out


def tiny(rng, kind, n):
    """few keys, in one or two leaves: enumerations interleaved with each single modification"""
    out = ['reset', 'new 0 %s %d %d%s' % (kind, rng.choice([1, 4, 8]), rng.randrange(2), ' s' if kind == 'h' and rng.random() < .3 else '')]
    b = region(rng)
    st = rng.choice([1, 1, 3, 1024, 32768, 1 << 26])
    keys = sorted({min(max(b + i * st + rng.randrange(st), 0), TOP) for i in range(rng.choice([4, 6, 9]))})
    if rng.random() < .1:
        # a leaf that is full or flat under the keys
        k0 = max(0, keys[0] - 600)
        out.append('fill 0 %d 1 %d 1' % (k0, min(rng.choice([500, 600, 1100]), TOP - k0)))
    for k in keys:
        if rng.random() < .7:
            out.append('set 0 %d %d' % (k, rng.randrange(250)))
    for _ in range(n):
        x = rng.random()
        e = rng.randrange(2)
        k = rng.choice(keys)
        if x < .22:
            out.append('rem 0 %d' % k)
        elif x < .40:
            out.append('set 0 %d %d' % (k, rng.randrange(250)))
        elif x < .43:
            out.append('set0 0 %d' % k)
        elif x < .58:
            out.append('en %d 0 %d' % (e, rng.choice([0, k])))
        elif x < .85:
            out.append('next %d 1' % e)
            if rng.random() < .4:
                out.append('val %d 1' % e)
        elif x < .92:
            out.append('goto %d 1 %s' % (e, rng.choice(['%d r' % rng.choice([0, 1, 2, st]), '%d' % k])))
        elif x < .95:
            out.append('%s %d %d' % (rng.choice(['erem', 'eset']), e, rng.randrange(250)))
        elif x < .97:
            out.append('get 0 %d' % k)
        else:
            out.append('dump 0')
    out += ['check 0', 'stats 0', 'dump 0']
    return out


def sizes(rng):
    return rng.choice([1, 4, 8, 16, 24, 100, 255, 256, 500, 1000, 2000, 4000, 4096, 5000, rng.randrange(1, 3000), rng.randrange(1, 70000)])


def mem_ops(rng, out, n):
    for _ in range(n):
        x = rng.random()
        i = rng.randrange(48)
        if x < .4:
            out.append('alloc %d %d %d' % (i, sizes(rng), rng.randrange(256)))
        elif x < .45:
            out.append('pgmap %d %d %d' % (i, rng.choice([1, 2, 3, 5, 16, 40]), rng.randrange(256)))
        elif x < .55:
            out.append('realloc %d %d %d' % (i, sizes(rng), rng.randrange(256)))
        elif x < .65:
            out.append('mwrite %d %d' % (i, rng.randrange(256)))
        elif x < .75:
            out.append('mread %d' % i)
        elif x < .98:
            out.append('mfree %d' % i)
        else:
            out.append('leaks')


def store(rng, n):
    """everything together, with snapshots and crashes"""
    out = ['reset']
    bases = [region(rng) for _ in range(3)]
    for o in range(2):
        out.append('new %d %s %d %d' % (o, rng.choice('hhb'), rng.choice([1, 4, 16]), rng.randrange(2)))
    for _ in range(n):
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .5:
                mem_ops(rng, out, rng.choice([1, 5, 20]))
            else:
                entry_ops(rng, rng.randrange(2), '', bases, out, rng.random() < .3, rng.choice([1, 4, 10]), 1500)
        x = rng.random()
        if x < .3:
            out.append('snap')
        elif x < .5:
            out.append('wait')
        elif x < .6:
            out.append('gc')
        elif x < .7:
            out.append('reopen')
        elif x < .9:
            if rng.random() < .4:
                out.append('snap')
                if rng.random() < .5:
                    mem_ops(rng, out, 3)
            y = rng.random()
            if y < .35:
                out.append('crash %d' % rng.randrange(2))
            elif y < .8:
                out += ['wait', 'snapcrash %d' % rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 25, 40])]
            else:
                out += ['snap', 'endcrash %d' % rng.randrange(1, 5), 'crash 0']
        else:
            o = rng.randrange(2)
            out += ['destroy %d' % o, 'new %d %s %d %d' % (o, rng.choice('hhb'), rng.choice([1, 4, 16]), rng.randrange(2))]
        if x < .9 and x >= .6:
            for i in range(48):
                if rng.random() < .3:
                    out.append('mread %d' % i)
            out += ['dump 0', 'dump 1', 'leaks']
    return out


WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('renameat', 'linkat', 'unlinkat', 'fdatasync', 'msync', 'ftruncate', 'write'))]


def build(ctx):
    return ctx.build('qps', ['qps.c'], ldflags=WRAP)
