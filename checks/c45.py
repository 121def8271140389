"""C45: network addresses."""
import ipaddress
import itertools


def hx(b):
    return bytes(b).hex() or '-'


def addr(rng, f, near=None):
    n = 4 if f == 4 else 16
    if near and rng.random() < .8:
        a = bytearray(near)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            k = rng.randrange(8 * n)
            a[k // 8] ^= 128 >> (k % 8)
        return bytes(a)
    m = rng.random()
    if m < .4:
        return bytes(rng.randrange(256) for _ in range(n))
    if m < .7:
        return bytes(rng.choice([0, 0, 0, 255, 1, 128]) for _ in range(n))
    a = bytearray(n)
    for _ in range(rng.randrange(4)):
        a[rng.randrange(n)] = rng.randrange(256)
    return bytes(a)


def show(rng, f, a):
    ip = ipaddress.ip_address(a)
    if f == 4:
        return str(ip)
    t = rng.choice([ip.compressed, ip.exploded])
    return t.upper() if rng.random() < .3 else t


def su(rng, f, near=None):
    if f == 1:
        n = near if near is not None and rng.random() < .6 else bytes(rng.choice(b'ab/') for _ in range(rng.randrange(4)))
        if rng.random() < .5:
            n = b'\0' + n.lstrip(b'\0')
        return [1, n, 0]
    return [f, addr(rng, f, near), rng.choice([0, 1, 80, 32768, 65535, rng.randrange(65536)])]


def sux(s):
    return '%d %s %d' % (s[0], hx(s[1]), s[2])


def filt(rng):
    f = rng.choice([4, 6])
    mx = 32 if f == 4 else 128
    a = addr(rng, f)
    mask = rng.choice([0, mx, rng.randrange(mx + 1), rng.randrange(mx + 1), rng.choice([8, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127]) % (mx + 1)])
    t, valid = show(rng, f, a), 1
    if mask != mx or rng.random() < .5:
        t += '/%d' % mask
    x = rng.random()
    if x < .1:
        valid = 0
        t = rng.choice(['/%d' % mask, show(rng, f, a) + '/%d' % rng.choice([mx + 1, 129, 256, 4294967296, 99999999999]), show(rng, f, a) + '/-1',
                        show(rng, f, a) + '/8x', show(rng, f, a) + '/x', show(rng, f, a) + '/8/8', show(rng, f, a) + 'z', '', '1.2.3.256', '1.2.3.4.5', '1:2', 'g::', '[::1]'])
    peer = su(rng, f if rng.random() < .9 else 10 - f)
    if peer[0] == f:
        peer[1] = a
        # one bit changed, close to the end of the mask
        if rng.random() < .7:
            k = min(8 * len(a) - 1, max(0, mask + rng.choice([-1, 0, 1, -2, rng.randrange(-8, 9), rng.randrange(-128, 129)])))
            b = bytearray(a)
            b[k // 8] ^= 128 >> (k % 8)
            peer[1] = bytes(b)
    port = rng.choice([0, 0, peer[2], peer[2] ^ 1, 80, ((peer[2] & 255) << 8) | (peer[2] >> 8)])
    return 'filter %s %d %d %s %d %d %s' % (hx(t.encode()), valid, f, hx(a), mask, port, sux(peer))


def hostport(rng):
    h = rng.choice(['', 'a', 'host', '1.2.3.4', '[::1]', '[', '[]', '[a]', '::1', 'a]', 'x y'])
    p = rng.choice(['', ':', ':80', ':0', ':1', ':65535', ':65536', ':-1', ':-', ':+', ': ', ':+5', ': 7', ':99999999999', ':80a', ':80:', ':a', ':007', 'x', ':%d' % rng.randrange(70000)])
    return 'parse %s %d %d' % (hx((h + p).encode()), rng.choice([0, 1, 80, 1024]), rng.choice([-1, 0, 80]))


def url(rng):
    w = lambda: ''.join(rng.choice('ab1.?#[]') for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
    t = rng.choice(['http', 'http', 'http', 'https', 'HTTP', 'htt', '']) + rng.choice(['://', '://', '://', '://', ':/', '//', ''])
    if rng.random() < .4:
        t += w() + rng.choice([':', ':', ':', '']) + w() + '@'
    t += w() if rng.random() < .95 else 'h' * rng.choice([126, 127, 128, 129, 200])
    if rng.random() < .5:
        t += ':' + rng.choice(['80', '1', '65535', '65536', '0', '-1', '', 'a', '80a', '+80', ' 80', '8 0', '443', '00080', '99999999999999999999'])
    if rng.random() < .6:
        t += '/' + w() + rng.choice(['', '?', '?a=b', '?x?y', '/:@', '?u=http://x:1@y/'])
        if rng.random() < .05:
            t += 'p' * rng.choice([500, 505, 509, 510, 511, 512, 600])
    return 'url %s %d' % (hx(t.encode()), rng.randrange(2))


def check(ctx):
    exe = ctx.build('addrs', ['addrs.c'], variant='asan')
    rng = ctx.rng
    ctx.model('AddrMC')
    n = 7 if ctx.quick else 28
    runs = []
    every = ['url %s %d' % (hx(b'http://' + bytes(w)), k % 2) for k in range(5 if ctx.quick else 6)
             for w in itertools.product(b'a1:@/', repeat=k)]
    every += ['slots %d %d' % (r, m) for r in range(0, 130) for m in (1, 2, 3, 7, 10, 12)]
    every += ['slots %d 10' % rng.randrange(10**7) for _ in range(100)]
    # every mask, with each bit around its end
    for f, mx in ((4, 32), (6, 128)):
        for mask in range(mx + 1):
            a = addr(rng, f)
            for d in (-1, 0):
                k = mask + d
                if 0 <= k < mx:
                    b = bytearray(a)
                    b[k // 8] ^= 128 >> (k % 8)
                    every.append('filter %s 1 %d %s %d 0 %s' % (hx((show(rng, f, a) + '/%d' % mask).encode()), f, hx(a), mask, sux([f, bytes(b), 80])))
    for i in range(n):
        runs.append(('each%d' % i, every[i::n]))
        s = []
        for _ in range(1000):
            x = rng.random()
            if x < .3:
                s.append(filt(rng))
            elif x < .45:
                s.append(hostport(rng))
            elif x < .65:
                p = su(rng, rng.choice([4, 6, 1, 1]))
                q = su(rng, p[0] if rng.random() < .9 else rng.choice([1, 4, 6]))
                if q[0] == p[0]:
                    q = su(rng, p[0], p[1])
                    if rng.random() < .6:
                        q[2] = p[2]
                    if rng.random() < .2:
                        q = p
                s.append('eq %s %s' % (sux(p), sux(q)))
            elif x < .8:
                s.append('fmt %s' % sux(su(rng, rng.choice([4, 6, 1]))))
            else:
                s.append(url(rng))
        runs.append(('mix%d' % i, s))
    ctx.check_runs(exe, runs, 'AddrTrace', jobs=7)
