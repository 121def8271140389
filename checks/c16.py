"""C16: bit buffers and bit streams are sequences of bits."""


def rbits(rng, n):
    m = rng.random()
    if m < .5:
        return ''.join(rng.choice('01') for _ in range(n)) or '-'
    return rng.choice('01') * n or '-'


def history(rng, be, n):
    out = ['reset %d %d %d' % (be, rng.randrange(4) == 0, rng.randrange(0, 30))]
    big = rng.random() < .2
    if rng.random() < .15:
        # a buffer grown at once to exactly what it holds
        k = rng.randrange(17, 34)
        out.append(rng.choice(['zeros %d' % (64 * k), 'bytes %s' % (''.join('%02x' % rng.randrange(256) for _ in range(8 * k)))]))
        for _ in range(2):
            out.append(rng.choice(['shl %d' % (rng.choice([8, 64]) if be else rng.choice([1, 7, 63, 65])), 'bit 1', 'bits 101',
                                   'align', 'zeros 64', 'dump']))
    length = lambda: rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 40, 55, 56, 57, 62, 63, 64, rng.randrange(65)])
    sid = lambda: rng.randrange(4)
    for _ in range(n):
        x = rng.random()
        if x < .40:
            y = rng.random()
            if y < .2:
                out.append('bit %d' % rng.randrange(2))
            elif y < .55:
                out.append('bits %s' % rbits(rng, length()))
            elif y < .62:
                out.append('byte %d' % rng.randrange(256))
            elif y < .75:
                k = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 23] + ([64, 100, 128, 256] if big else []))
                out.append('bytes %s %d' % (''.join('%02x' % rng.choice([0, 255, rng.randrange(256)]) for _ in range(k)) or '-',
                                            rng.choice([0, rng.randrange(8)])))
            elif y < .85:
                out.append('%s %d' % ('zeros' if be else rng.choice(['zeros', 'ones']),
                                      rng.choice([0, 1, 3, 7, 8, 9, 63, 64, 65, 100, rng.randrange(130)] + ([512, 1536, 1600] if big else []))))
            elif y < .9:
                out.append('align')
            elif y < .93:
                out.append('shl %d' % (rng.choice([8, 16, 64, 72, 0]) if be else
                                       rng.choice([0, 1, 7, 8, 9, 16, 63, 64, 65, 70, 128, 130, rng.randrange(300)])))
            elif y < .935:
                out.append('clear')
            elif y < .94:
                out.append('tosb')
            else:
                out.append('addbs %d' % sid())
            if rng.random() < .3:
                out.append('dump')
        elif x < .5:
            out.append('open %d %d %d %d' % (sid(), rng.choice([0, 0, 1, 3, 8, 9, 64, 65, rng.randrange(200)]),
                                             rng.choice([0, 0, 1, 5, 64]), rng.randrange(8)))
        else:
            i = sid()
            y = rng.random()
            if y < .12:
                out.append('len %d %d' % (i, rng.choice([0, 1, 8, rng.randrange(200)])))
            elif y < .2:
                out.append('all %d' % i)
            elif y < .35:
                out.append('%s %d %d' % (rng.choice(['skip', 'skip', 'shrink', 'clip']), i,
                                         rng.choice([0, 1, 2, 7, 8, 9, 63, 64, 65, rng.randrange(300)])))
            elif y < .39:
                out.append('salign %d' % i)
            elif y < .52:
                out.append('%s %d' % (rng.choice(['peek', 'peekl', 'get', 'getl']), i))
            elif y < .72:
                out.append('%s %d %d' % (rng.choice(['gets', 'gets', 'getsl']), i, rng.choice([length(), 65, length()])))
            elif y < .78:
                out.append('getb %d %d' % (i, rng.randrange(12)))
            elif y < .84:
                out.append('sub %d %d %d' % (i, rng.choice([0, 1, 8, 30, 64, 70, 200]), sid()))
            elif y < .88:
                out.append('subbit %d %d %d %d' % (i, rng.randrange(2), sid(), rng.randrange(2)))
            elif y < .91:
                out.append('equals %d %d' % (i, sid()))
            else:
                out.append('%s %d %d %d' % (rng.choice(['upto', 'after', 'downto', 'before']), i, rng.randrange(2),
                                            rng.choice([-1, -1, 1, 2, 8, 64, 100])))
    out.append('dump')
    return out


def check(ctx):
    exe = ctx.build('bits', ['bits.c'], variant='asan')
    rng = ctx.rng
    ctx.model('BitsMC')
    runs = []
    for i in range(28 if ctx.quick else 160):
        s = []
        for j in range(60):
            s += history(rng, (i + j) % 2, rng.choice([20, 60, 120]))
        runs.append(('h%d' % i, s))
    ctx.check_runs(exe, runs, 'BitsTrace', jobs=7)
