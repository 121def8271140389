"""C10: vectors are sequences, sorting and searching them is exact."""


class Sim:
    """Follows the vectors well enough to stay inside what the operations allow."""

    def __init__(self, rng, kind):
        self.rng = rng
        self.kind = kind
        self.v = [[], [], []]

    def key(self, x):
        return x // 4 if self.kind == 2 else x

    def val(self):
        r = self.rng
        if self.kind == 0:
            return r.choice([r.randrange(256), r.randrange(12)])
        if self.kind == 1:
            return r.choice([r.randrange(-20, 20), r.randrange(-2**31, 2**31), r.randrange(30), 2**31 - 1, -2**31])
        return r.choice([r.randrange(40), r.randrange(100000)])


def history(rng, n):
    kind = rng.randrange(3)
    s = Sim(rng, kind)
    out = ['reset %d %d' % (kind, rng.choice([0, 0, 1, 2, 3]))]
    big = rng.random() < .25

    def emit(fmt, *a):
        out.append(fmt % a)

    for _ in range(n):
        i = rng.randrange(3)
        v = s.v[i]
        x = rng.random()
        if x < .12:
            a = s.val()
            emit('append %d %d', i, a)
            v.append(a)
        elif x < .2:
            at, a = rng.choice([0, len(v), rng.randrange(len(v) + 1)]), s.val()
            emit('insert %d %d %d', i, at, a)
            v.insert(at, a)
        elif x < .24:
            a = s.val()
            emit('push %d %d', i, a)
            v.insert(0, a)
        elif x < .27:
            if v:
                at = rng.randrange(len(v))
                emit('dup %d %d', i, at)
                v.append(v[at])
        elif x < .3:
            if v:
                if rng.random() < .5:
                    emit('pop %d', i)
                    v.pop(0)
                else:
                    emit('remlast %d', i)
                    v.pop()
        elif x < .34:
            if v:
                at = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
                emit('remove %d %d', i, at)
                v.pop(at)
        elif x < .37:
            k = rng.choice([0, len(v), rng.randrange(len(v) + 1)])
            emit('skip %d %d', i, k)
            del v[:k]
        elif x < .4:
            k = rng.choice([0, len(v), rng.randrange(len(v) + 1)])
            if rng.random() < .5:
                emit('clip %d %d', i, k)
                del v[k:]
            else:
                emit('shrink %d %d', i, k)
                del v[len(v) - k:]
        elif x < .55:
            at = rng.choice([0, len(v), rng.randrange(len(v) + 1)])
            rm = rng.choice([0, 1, 2, len(v) - at, rng.randrange(len(v) - at + 1)])
            rm = min(rm, len(v) - at)
            k = rng.choice([0, 1, 1, 2, rm, rm + 1, max(0, rm - 1), rng.randrange(12)])
            k = min(k, 200)
            xs = [s.val() for _ in range(k)]
            emit('splice %d %d %d %d %s', i, rng.randrange(4), at, rm, ' '.join(map(str, xs)))
            v[at:at + rm] = xs
        elif x < .6:
            xs = [s.val() for _ in range(rng.choice([0, 1, 5, 20]))]
            emit('extend %d %s', i, ' '.join(map(str, xs)))
            v.extend(xs)
        elif x < .66:
            j = rng.choice([k for k in range(3) if k != i])
            if len(v) + len(s.v[j]) < 4000:
                op = rng.choice(['exttab', 'copy', 'deepext'])
                emit('%s %d %d', op, i, j)
                if op == 'copy':
                    v[:] = s.v[j]
                else:
                    v.extend(s.v[j])
        elif x < .69:
            k = rng.choice([0, 1, 3, 9])
            emit('growlen0 %d %d', i, k)
            v.extend([0] * k)
        elif x < .71 and big and len(v) < 2000:
            k, b = rng.choice([200, 700, 1500]), rng.randrange(100)
            emit('growlen %d %d %d', i, k, b)
            v.extend(b + j % 50 for j in range(k))
        elif x < .76:
            emit('grow %d %d %d', i, rng.choice([0, 1, 2, 3, 5, 16, 30, rng.randrange(100)]), rng.randrange(2))
        elif x < .79:
            r1, r2 = rng.choice([(0, 0), (0, 0), (50, 10), (100, 50), (10, 200)])
            emit('optimize %d %d %d', i, r1, r2)
        elif x < .81:
            emit('%s %d', rng.choice(['clear', 'wipe', 'clear']), i)
            v[:] = []
        elif x < .83:
            # the order is not known afterwards: sort again before relying on it
            emit('shuffle %d', i)
            emit('%s %d', rng.choice(['sort', 'qsort']), i)
            resync(s, i, out)
        elif x < .9:
            emit('%s %d', rng.choice(['sort', 'qsort']), i)
            resync(s, i, out)
            if rng.random() < .7:
                uniq(s, i, out)
        elif x < .97:
            srt = all(s.key(v[k]) <= s.key(v[k + 1]) for k in range(len(v) - 1))
            a = rng.choice(v) + rng.choice([0, 0, 1, -1, 4]) if v and rng.random() < .6 else s.val()
            a = max(0, min(a, 255)) if kind == 0 else max(-2**31, min(a, 2**31 - 1)) if kind == 1 else max(a, 0)
            if srt and rng.random() < .6:
                emit('bisect %d %d %d', i, a, rng.randrange(2))
            else:
                emit('find %d %d %d', i, a, srt and rng.random() < .7)
        else:
            j = rng.choice([k for k in range(3) if k != i])
            if rng.random() < .5 and len(v) > 2 and len(s.v[j]) < 500:   # make them share elements
                emit('exttab %d %d', j, i)
                s.v[j].extend(v)
            for k in (i, j):
                emit('%s %d', rng.choice(['sort', 'qsort']), k)
                resync(s, k, out)
                uniq(s, k, out)
            emit('diff %d %d %d %d', i, j, rng.choice([7, 7, 1, 2, 4, 0, 5, 6]), rng.randrange(2))
    return [o for o in out if o]


def resync(s, i, out):
    s.v[i].sort(key=s.key)


def uniq(s, i, out):
    v = s.v[i]
    out.append('uniq %d %d' % (i, s.rng.randrange(2)))
    w = []
    for a in v:
        if not w or s.key(w[-1]) != s.key(a):
            w.append(a)
    v[:] = w


BITS = {0: 8, 1: 8, 2: 16, 3: 16, 4: 32, 5: 32, 6: 64, 7: 64}


def numbers(rng, n):
    out = []
    for _ in range(n):
        k = rng.randrange(8)
        b = BITS[k]
        m = rng.random()
        ln = rng.choice([0, 1, 2, 3, 10, 40, 40, 300])
        full = lambda: rng.getrandbits(b)
        edge = [0, 1, 2 ** b - 1, 2 ** (b - 1), 2 ** (b - 1) - 1, 2 ** b - 2, 2 ** (b - 1) + 1, 255 % 2**b, 256 % 2**b]
        if m < .3:
            vs = [full() for _ in range(ln)]
        elif m < .5:
            vs = [rng.choice(edge) for _ in range(ln)]
        elif m < .75:   # share all their bytes but one or two
            base = full()
            bs = [rng.randrange(b // 8) for _ in range(2)]
            vs = []
            for _ in range(ln):
                x = base
                for c in bs:
                    x = (x & ~(255 << 8 * c)) | (rng.choice([rng.randrange(256), rng.randrange(4)]) << 8 * c)
                vs.append(x)
        elif m < .88:   # a few differ from the others in one byte
            base = full()
            c = rng.randrange(b // 8)
            vs = [base ^ (rng.choice([0, rng.randrange(256)]) if c else 0) for _ in range(ln)]
            for _ in range(rng.choice([1, 1, 2])):
                if vs:
                    vs[rng.choice([0, len(vs) // 2, len(vs) - 1, rng.randrange(len(vs))])] ^= rng.randrange(1, 256) << 8 * c
        else:           # nearly sorted, with duplicates
            vs = sorted(rng.choice([full(), rng.choice(edge)]) for _ in range(ln))
            vs += [rng.choice(vs or [0]) for _ in range(ln // 3)]
        out.append('nset %d %s' % (k, ' '.join('%x' % x for x in vs)))
        out.append('nsort')
        for rnd in range(2):
            for _ in range(4):
                x = rng.choice(vs or [0]) if rng.random() < .5 else rng.choice(edge + [full()])
                out.append('nbisect %x' % ((x + rng.choice([0, 0, 1, -1])) % 2 ** b))
            if not rnd:
                out.append('nuniq')
    return out


def check(ctx):
    exe = ctx.build('vec', ['vec.c'], variant='asan')
    rng = ctx.rng
    ctx.model('VecMC')
    runs = []
    for i in range(21 if ctx.quick else 140):
        s = []
        for j in range(14):
            s += history(rng, rng.choice([20, 60, 120]))
        s += numbers(rng, 30)
        runs.append(('h%d' % i, s))
    for i in range(3 if ctx.quick else 14):
        k = 4 + i % 4
        s = ['ngen %d %d %d %x %x' % (k, rng.randrange(66000, 70000), rng.getrandbits(60),
                                      rng.choice([2**64 - 1, 0xff0000ff, 0xffff00ff0000, 0xf0f0f0f0f0f0f0f0]), rng.choice([0, 0x100000])),
             'nsort', 'nuniq', 'nbisect %x' % rng.getrandbits(64)]
        runs.insert(i, ('many%d' % i, s))
    ctx.check_runs(exe, runs, 'VecTrace', jobs=7)
