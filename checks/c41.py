"""C41: operations on paths keep the places they denote."""
import itertools

PMAX = 4096


def hx(b):
    return bytes(b).hex() or '-'


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield bytes(w)


def one(w):
    out = []
    for k in (0, 1):
        out += ['set 0 ' + hx(w), 'simplify 0 %d' % k]
    n = len(w)
    out += ['set 0 ' + hx(w), 'parts 0', 'dirname 0 64', 'set 0 ' + hx(w), 'basename 0 64', 'set 0 ' + hx(w), 'dirpart 0 64']
    return out


def rpath(rng, long=False):
    comps = [b'.', b'..', b'..', b'a', b'b', b'a', b'ab', b'...', b'.a', b'a.', b'a.b', b'..a', b'~', b'~a', b'a..b', b'', b'\xff\x80', b'a b']
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8])
    p = (b'/' if rng.random() < .4 else b'~/' if rng.random() < .05 else b'') + b''.join(
        rng.choice(comps) + rng.choice([b'/', b'/', b'/', b'//']) for _ in range(n))
    if rng.random() < .5:
        p = p.rstrip(b'/')
    if long:
        m = rng.choice([PMAX - 3, PMAX - 2, PMAX - 1, PMAX, PMAX + 1, PMAX - 9, PMAX - 8, PMAX - 7, PMAX // 2, 2 * PMAX])
        fill = rng.choice([b'x', b'x', b'component-of-20-byte/', b'component/', b'/../..', b'longcomponent/../'])
        p = (p + fill * m)[:m]
        if rng.random() < .4:
            p = p[:-1] + b'/'
    return p


def history(rng, long):
    out = ['cwd 0 ' + hx(rng.choice([b'/', b'/', b'/tmp', b'/usr/lib', b'/usr']))]
    L = lambda: long and rng.random() < .5
    for _ in range(rng.choice([6, 12, 20])):
        r = rng.randrange(3)
        x = rng.random()
        if x < .35:
            out.append('set %d %s' % (r, hx(rpath(rng, L()))))
        elif x < .47:
            out.append('simplify %d %d' % (r, rng.randrange(3)))
        elif x < .57:
            out.append('join %d %s %d' % (r, hx(rpath(rng, L())), rng.choice([0, 0, 1, 2, 3, 4, 20, 5000])))
        elif x < .69:
            out.append('%s %d %d' % (rng.choice(['dirname', 'basename', 'dirpart']), r, rng.choice([0, 1, 2, 3, 5, 100, 9000, 9000])))
        elif x < .74:
            out.append('parts %d' % r)
        elif x < .86:
            out.append('extend %d %s %d' % (r, hx(rpath(rng, L())), rng.randrange(3)))
        else:
            out.append('relative %d %d' % (r, rng.randrange(3)))
    return out


def relpair(rng):
    """two paths with a common start"""
    names = [b'a', b'b', b'ab', b'a.', b'abc']
    common = [rng.choice(names) for _ in range(rng.choice([0, 1, 2, 3]))]
    def tail():
        t = b'/'.join(common + [rng.choice(names + [b'.', b'..']) for _ in range(rng.choice([0, 0, 1, 2, 3]))])
        return rng.choice([b'/', b'', b'/']) + t + rng.choice([b'', b'', b'/', b'/.', b'//'])
    return ['cwd 0 ' + hx(rng.choice([b'/', b'/tmp', b'/usr/lib']))] if rng.random() < .2 else [], tail(), tail()


def check(ctx):
    exe = ctx.build('paths', ['paths.c'], variant='asan')
    rng = ctx.rng
    ctx.model('PathMC')
    ws = list(words(b'/.a', 6 if ctx.quick else 8))
    ws += list(words(b'/.a~b', 3 if ctx.quick else 5))
    n = 7 if ctx.quick else 28
    parts = [[] for _ in range(n)]
    for i, w in enumerate(ws):
        parts[i % n] += one(w)
    runs = [('each%d' % i, s) for i, s in enumerate(parts)]
    small = list(words(b'/.a', 3)) + list(words(b'/a', 4))
    pairs = [(a, b) for a in small for b in small]
    rng.shuffle(pairs)
    pairs = pairs[:3000] if ctx.quick else pairs
    parts = [['cwd 0 ' + hx([b'/', b'/tmp', b'/usr/lib'][i % 3])] for i in range(n)]
    for i, (a, b) in enumerate(pairs):
        parts[i % n] += ['set 0 ' + hx(a), 'set 1 ' + hx(b), 'relative 0 1', 'set 0 ' + hx(a), 'extend 0 %s 0' % hx(b),
                         'set 0 ' + hx(a), 'join 0 %s 9' % hx(b)]
    runs += [('pairs%d' % i, s) for i, s in enumerate(parts)]
    for i in range(7 if ctx.quick else 35):
        s = []
        for _ in range(120):
            s += history(rng, False)
        for _ in range(150):
            c, a, b = relpair(rng)
            s += c + ['set 0 ' + hx(a), 'set 1 ' + hx(b), 'relative 0 1']
        runs.append(('hist%d' % i, s))
        s = []
        for _ in range(10):
            s += history(rng, True)
        runs.append(('long%d' % i, s))
    ctx.check_runs(exe, runs, 'PathTrace', jobs=7)
