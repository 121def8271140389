"""C40: string buffers are sequences of bytes, parsing streams are windows on their source."""

BUFSIZ = 8192


def hx(b):
    return bytes(b).hex() or '-'


def text(rng, n, zero=False):
    m = rng.random()
    if m < .4:
        return [rng.choice(b' \tab,;"AB\n') for _ in range(n)]
    if m < .7:
        return [rng.randrange(0 if zero else 1, 256) for _ in range(n)]
    return [rng.choice(b'abc')] * n


def sb_history(rng, big):
    out = ['begin']
    for i in range(3):
        k = rng.choice('mMtfs')
        out.append('new %d %s %d' % (i, k, rng.choice([1, 2, 3, 8, 16, 100, 1024] + ([9000, 140000] if big else []))))
    small = lambda: rng.choice([0, 0, 1, 1, 2, 3, 4, 7, 8, 15, 16, 17, 30, rng.randrange(60)])
    size = lambda: small() if not big or rng.random() < .5 else rng.choice([500, 1023, 1024, 4000, 8191, 8192, 8193, 20000, 70000])
    held = [0, 0, 0]
    for _ in range(rng.choice([20, 40, 80]) if not big else 30):
        i = rng.randrange(3)
        j = rng.choice([x for x in range(3) if x != i])
        x = rng.random()
        if x < .14:
            out.append('%s %d %s' % (rng.choice(['add', 'addlstr', 'addps']), i, hx(text(rng, small(), True))))
        elif x < .18:
            out.append('%s %d %s' % (rng.choice(['adds', 'addf']), i, hx(text(rng, small()))) + ' %d' % rng.randrange(2))
        elif x < .25:
            out.append('%s %d %d %d' % (rng.choice(['addnc', 'growlen']), i, size(), rng.choice([0, 32, 97, 255])))
        elif x < .27:
            out.append('addc %d %d' % (i, rng.randrange(256)))
        elif x < .30:
            out.append('adduc %d %d' % (i, rng.choice([0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, rng.randrange(0x110000)])))
        elif x < .32:
            out.append('%s %d %d' % (rng.choice(['addsb', 'setsb']), i, j))
        elif x < .42:
            out.append('splice %d %d %d %s %s' % (i, rng.choice([0, 0, rng.randrange(1 << 20)]), rng.choice([0, 1, rng.randrange(1 << 20)]),
                                                  hx(text(rng, small(), True)), rng.choice(['v', 'v', 'v', 'end0', 'rm0', 'del', 'k21', 'lstr'])))
        elif x < .45:
            out.append('splicenc %d %d %d %d %d' % (i, rng.choice([0, rng.randrange(1 << 20)]), rng.randrange(1 << 20), size(), rng.choice([0, 120])))
        elif x < .53:
            out.append('prepend %d %s %s' % (i, hx(text(rng, small() if rng.random() < .97 else rng.choice([8190, 8191, 8192, 9000]))),
                                             rng.choice('sfcl')))
        elif x < .64:
            out.append('cut %d %s %d' % (i, rng.choice(['skip', 'skip', 'skipupto', 'clip', 'shrink', 'shrinkupto']),
                                         rng.choice([0, 1, 2, 3, rng.randrange(1 << 20), rng.randrange(1 << 20)])))
        elif x < .67:
            out.append('trim %d %s %s' % (i, rng.choice('lrb'), rng.choice(['_', '_', hx(b'ab'), hx([0, 255, 32])])))
        elif x < .70:
            out.append('set %d %s %s' % (i, rng.choice('slfd'), hx(text(rng, small()))))
        elif x < .74:
            out.append('clear %d %s' % (i, rng.choice(['reset', 'keep', 'wipe', 'reverse'])))
        elif x < .82:
            out.append('hold %d %s %d' % (i, rng.choice(['grow', 'grow', 'optimize', 'room', 'rewind', 'rewind']), size()))
        elif x < .84:
            out.append('detach %d %d' % (i, rng.randrange(2)))
        elif x < .88:
            out.append('fill %d %d' % (i, rng.choice([-2, -1, 0, 1, 2])))
        elif x < .90:
            out.append('search %d %d %s' % (i, rng.randrange(1 << 20), hx(text(rng, rng.randrange(3), True))))
        elif x < .91:
            out.append('cmp %d %d' % (i, rng.choice([i, j, j])))
        elif x < .925:
            out.append('sanit %d %s %s %d %d' % (i, hx([rng.choice(b'ab!?c') for _ in range(rng.randrange(10))]), hx(rng.choice([b'abc', b'!?', b'a'])),
                                                 rng.randrange(2), rng.choice([-1, 95, 0])))
        elif x < .935:
            v = rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 1001, 999999, 1000000, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1,
                            rng.randrange(10 ** rng.randrange(1, 19))])
            if rng.random() < .5:
                out.append('uintf %d %d %d' % (i, v, rng.choice([-1, 44, 32])))
            else:
                v = min(v, 2**63 - 1)
                v = rng.choice([v, -v, -2**63]) if v else 0
                out.append('intf %d %d %d' % (i, v, rng.choice([-1, 44, 32])))
        elif x < .945:
            fr, nb = rng.choice([('125', 1), ('375', 1), ('625', 1), ('875', 1), ('125', 3), ('5', 1), ('5', 4), ('25', 2), ('75', 3), ('0', 2), ('0', 0),
                                 ('25', 0), ('125', 0), ('96875', 1), ('9921875', 1), ('9921875', 2), ('99609375', 2), ('03125', 1), ('00390625', 2)])
            ip = rng.choice([0, 1, 9, 12, 99, 100, 999, 1000, 9999, 12345, 999999, 1234567, 4294967296])
            out.append('doublef %d %d %d %s %d %d %d' % (i, rng.randrange(2) if ip else 0, ip, fr, nb, rng.choice(b'.,'), rng.choice([-1, 44, 32])))
        elif x < .96:
            if rng.random() < .7:
                d, r = rng.choice([(0, 0), (0, rng.randrange(1000)), (0, rng.randrange(60000)), (0, rng.randrange(3600000)), (0, rng.randrange(86400000)),
                                   (rng.randrange(400), rng.randrange(86400000)), (0, 3599500), (0, 3599499), (0, 86400000 - 30000), (0, 86400000 - 30001),
                                   (1, 86400000 - 1800000), (1, 86400000 - 1800001), (0, 59999), (0, 999), (0, 1000), (0, 60000), (0, 59999), (0, 60499), (0, 60500)])
                out.append('dur %d %d %d 1' % (i, d, r))
            else:
                out.append('dur %d %d %d 0' % (i, rng.choice([0, 0, 3]), rng.choice([0, 1, 59, 60, 61, 3599, 3600, 86399, 86370, rng.randrange(86400)])))
        elif x < .965:
            out.append('pkcs7 %d' % i)
        elif x < .975:
            body = []
            for _ in range(rng.randrange(4)):
                body += text(rng, rng.choice([0, 1, 5, 20]))[:20] + [10]
            if rng.random() < .3:
                body += [120] * rng.choice([8190, 8191, 8192, 16400]) + ([10] if rng.random() < .5 else [])
            elif rng.random() < .5:
                body += text(rng, rng.randrange(5))
            # past the part shown in the events, lines are made of one byte
            out.append('getline %d %s %s' % (i, rng.choice(['file', 'pipe']), hx(body)))
        elif x < .985:
            out.append('%s' % rng.choice([
                'fread %d %s %d %d %s' % (i, rng.choice(['file', 'pipe']), rng.choice([1, 2, 3]), rng.randrange(10), hx(text(rng, rng.randrange(20), True))),
                'readfd %d %s %d %d' % (i, rng.choice(['file', 'pipe', 'sock']), rng.choice([0, 1, 100, 8191, 8192, 8193, 30000]), rng.choice([0, 97])),
                'readfile %d %s' % (i, hx(text(rng, small(), True))),
                'readdir %d %d %d' % (i, rng.randrange(2), rng.choice([0, 10, 9000])),
                'read %d %s %d %s' % (i, rng.choice(['file', 'pipe', 'sock']), rng.choice([0, -1, 64, 100, 9000]), hx(text(rng, small(), True)))]))
        elif x < .99:
            out.append('write %d %d %s' % (i, rng.randrange(2), hx(text(rng, small(), True))))
        else:
            out.append('window %d %d %d' % (i, rng.randrange(1 << 20), 60))
        if big or rng.random() < .1:
            out.append('window %d %d %d' % (i, rng.choice([0, rng.randrange(1 << 20), rng.randrange(1 << 20)]), 60))
    # what a buffer left behind must not show in the next one
    return out


def reverse_history(rng):
    """Buffers filled from their end."""
    out = ['begin', 'new 0 %s %d' % (rng.choice('Mtfs'), rng.choice([1, 5, 16, 40]))]
    for _ in range(4):
        out.append('add 0 %s' % hx(text(rng, rng.randrange(1, 30))))
        out.append('hold 0 room 0')
        out.append('clear 0 reverse')
        for _ in range(rng.randrange(1, 5)):
            out.append('prepend 0 %s %s' % (hx(text(rng, rng.randrange(1, 12))), rng.choice('sfl')))
    return out


def ps_history(rng):
    n = rng.choice([0, 1, 2, 5, 10, 20, 40])
    m = rng.random()
    if m < .3:
        alpha = b' \tab,\n'
    elif m < .55:
        alpha = b'a",\r\n\\;'
    elif m < .7:
        alpha = b'09afAFgG/:@`'
    elif m < .8:
        alpha = bytes(range(256))
    else:
        alpha = b'aAbB\0z'
    s = [rng.choice(alpha) for _ in range(n)]
    out = ['src 0 %s' % hx(s)]
    num = lambda: rng.choice([0, 1, 2, 3, rng.randrange(45), n, n + 1, -1])
    ch = lambda: rng.choice(alpha)

    def word():
        a = rng.randrange(n + 1)
        w = s[a:a + rng.randrange(5)]
        return hx(rng.choice([[ch() for _ in range(rng.randrange(4))], w,
                              [c ^ 32 if 65 <= c <= 90 or 97 <= c <= 122 else c for c in w], s]))
    cs = lambda: hx({ch() for _ in range(rng.randrange(4))})
    for _ in range(rng.choice([10, 25])):
        i = rng.randrange(4)
        x = rng.random()
        if x < .10:
            out.append('pnew %d' % i)
        elif x < .18:
            out.append('pcut %d %s %d' % (i, rng.choice(['skip', 'shrink', 'clip', 'data']), num()))
        elif x < .23:
            out.append('pat %d %s %d' % (i, rng.choice(['skip', 'clip', 'get', 'extract']), rng.randrange(64)))
        elif x < .36:
            out.append('pchr %d %s %d' % (i, rng.choice(['clipat', 'clipafter', 'clipatlast', 'clipafterlast', 'skipupto', 'skipafter',
                                                         'skipafterlast', 'get', 'getskip', 'getlast', 'getlastskip', 'skipc', 'shrinkc']), ch()))
        elif x < .48:
            out.append('pdata %d %s %s %d' % (i, rng.choice(['skip', 'skipcase', 'upto', 'after', 'get', 'getskip', 'starts', 'ends', 'equal', 'caseequal']),
                                              word(), rng.randrange(2)))
        elif x < .51:
            out.append('pget %d %d' % (i, num()))
        elif x < .60:
            out.append('pspan %d %s %s' % (i, rng.choice(['skip', 'cskip', 'get', 'cget', 'tok', 'has']), cs()))
        elif x < .63:
            out.append('ptrim %d %s' % (i, rng.choice('lrb')))
        elif x < .69:
            out.append('pc %d %s' % (i, rng.choice(['get', 'peek', 'hex', 'hexd'])))
        elif x < .72:
            out.append('phex %d %d' % (i, rng.randrange(6)))
        elif x < .74:
            out.append('pgets %d %d' % (i, rng.randrange(2)))
        elif x < .77:
            out.append('pcmp %d %d' % (i, rng.randrange(4)))
        elif x < .79:
            out.append('plen %d %d' % (i, num()))
        elif x < .82:
            out.append('pblock %d %d %d' % (i, rng.randrange(10), rng.choice([1, 2, 4, 8])))
        elif x < .85:
            out.append('pcopyv %d %d %s' % (i, rng.randrange(3), ' '.join(str(rng.choice([0, 1, 2, 5, 20])) for _ in range(rng.randrange(5)))))
        elif x < .93:
            out.append('psplit %d %d %s %d %s' % (i, rng.randrange(2), cs(), rng.choice([-1, -1, 0, 92, 92, ch()]), rng.choice('tfn')))
        else:
            out.append('pcsv %d %d %d %s' % (i, rng.choice(b',;'), rng.choice([34, 34, -1]), rng.choice('tn')))
    return out


def csv_history(rng):
    """Records of quoted and plain fields, mostly well formed."""
    sep = rng.choice(b',;')
    s = []
    for _ in range(rng.randrange(1, 5)):
        for f in range(rng.randrange(1, 5)):
            if f:
                s.append(sep)
            v = [rng.choice(b'ab"",,;\r\n\\') for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5]))]
            if rng.random() < .6:
                s.append(34)
                for c in v:
                    s += [c, c] if c == 34 else [c]
                s.append(34)
            else:
                s += [c for c in v if c not in (sep, 10, 13) and (c != 34 or rng.random() < .3)]
        s += rng.choice([[10], [10], [13, 10], [], [13]])
    if rng.random() < .2 and s:
        s[rng.randrange(len(s))] = rng.choice(b'",\r')
    out = ['src 0 %s' % hx(s)]
    for _ in range(5):
        out.append('pcsv 0 %d %d %s' % (sep, rng.choice([34, 34, 34, 34, -1]), rng.choice('tn')))
    for _ in range(2):
        out.append('psplit 1 %d %s %d %s' % (rng.randrange(2), hx({rng.choice(b',;a'), 10}), rng.choice([-1, 0, 92, 34]), rng.choice('tfn')))
    return out


def check(ctx):
    exe = ctx.build('strs', ['strs.c'], variant='asan')
    rng = ctx.rng
    ctx.model('StrMC')
    runs = []
    for i in range(28 if ctx.quick else 140):
        s = []
        for _ in range(60):
            s += sb_history(rng, False)
            if rng.random() < .2:
                s += reverse_history(rng)
        runs.append(('sb%d' % i, s))
    for i in range(7 if ctx.quick else 28):
        s = []
        for _ in range(4):
            s += sb_history(rng, True)
        runs.append(('big%d' % i, s))
    for i in range(28 if ctx.quick else 140):
        s = []
        for _ in range(120):
            s += ps_history(rng)
        for _ in range(60):
            s += csv_history(rng)
        runs.append(('ps%d' % i, s))
    ctx.check_runs(exe, runs, 'StrTrace', jobs=7)
