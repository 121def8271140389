"""C08: memory pools."""


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.s = []
        self.nid = 0
        self.nfr = 0
        self.nck = 0
        self.kind = {}
        self.frames = {}
        self.cur = {}
        self.live = {}
        self.ck = {}
        self.dying = set()

    def size(self):
        r = self.r
        k = r.random()
        if k < .05:
            return 0
        if k < .45:
            return r.randint(1, 40)
        if k < .75:
            return r.randint(1, 700)
        if k < .9:
            return r.randint(500, 5000)
        if k < .97:
            return r.choice([4096, 8192, 65536, 4000, 4064, 16384]) + r.randint(-64, 64)
        return r.randint(1, 200000)

    def emit(self, *a):
        self.s.append(' '.join(str(x) for x in a))

    def frame(self, p):
        k = self.kind[p]
        return self.frames[p][-1] if k == 'stack' else self.cur[p] if k == 'ring' else 0

    def can(self, p):
        k = self.kind[p]
        return self.frames[p] if k == 'stack' else self.cur[p] if k == 'ring' else True

    def als(self, p):
        return {'stack': [1, 2, 4, 8, 8, 16, 32, 64, 256], 'ring': [1, 2, 4, 8, 16], 'fifo': [1, 2, 4, 8],
                'libc': [1, 4, 8, 16, 32, 64], 'cl': [1, 8, 64]}[self.kind[p]]

    def forget(self, fr):
        for i in [i for i, a in self.live.items() if a[1] in fr and fr]:
            del self.live[i]

    def alloc(self, p):
        self.nid += 1
        n = self.size()
        self.live[self.nid] = [p, self.frame(p), n]
        self.emit('alloc', p, self.nid, n, self.r.choice(self.als(p)), int(self.r.random() < .4), self.r.randint(1, 255))

    def step(self, p):
        r = self.r
        k = self.kind[p]
        mine = [i for i, a in self.live.items() if a[0] == p]
        x = r.random()
        if x < .12 and self.live:
            self.emit('read', r.choice(list(self.live)))
            return
        if x < .17 and self.live:
            self.emit('write', r.choice(list(self.live)), r.randint(1, 255))
            return
        if x < .55 and self.can(p) and len(self.live) < 60:
            self.alloc(p)
            return
        if x < .72 and self.can(p) and mine:
            c = [i for i in mine if self.live[i][1] == self.frame(p)]
            if c:
                i = max(c) if r.random() < .6 else r.choice(c)
                n = self.live[i][2]
                n2 = r.choice([self.size(), n + r.randint(0, 64), max(0, n - r.randint(0, 64)), n * 2 % 300000, n // 2])
                self.live[i][2] = n2
                self.emit('realloc', i, n2, int(r.random() < .5), r.randint(1, 255))
                return
        if k == 'stack':
            if self.frames[p] and (r.random() < .5 or len(self.frames[p]) > 6):
                f = self.frames[p].pop()
                self.forget({f})
                self.emit('pop', p)
                if not self.frames[p] and r.random() < .3:
                    self.emit('trim', p)
            else:
                self.nfr += 1
                self.frames[p].append(self.nfr)
                self.emit('push', p, self.nfr)
            if r.random() < .1:
                self.emit('attop', p)
        elif k == 'ring':
            self.ring(p)
        else:
            if mine and (r.random() < .8 or len(mine) > 25):
                i = r.choice([min(mine), max(mine), r.choice(mine)])
                del self.live[i]
                self.emit('free', i)
            elif k == 'fifo':
                self.emit('stats', p)

    def ring(self, p):
        r = self.r
        c = self.cur[p]
        fs = self.frames[p]
        x = r.random()
        if c and x < .5:
            self.emit('seal', p)
            self.cur[p] = 0
        elif c and x < .6:
            self.nck += 1
            self.ck[self.nck] = (p, c)
            self.emit('ckpt', p, self.nck)
            self.cur[p] = 0
        elif not c and x < .5:
            self.nfr += 1
            self.cur[p] = self.nfr
            fs.append(self.nfr)
            self.emit('newframe', p, self.nfr)
        elif x < .58 and self.ck:
            ks = [k for k in self.ck if self.ck[k][0] == p]
            if ks:
                k = r.choice(ks)
                f = self.ck[k][1]
                i = fs.index(f)
                gone = set(fs[i + 1:])
                del fs[i + 1:]
                self.forget(gone)
                # checkpoints taken in that frame later are gone too
                self.ck = {j: v for j, v in self.ck.items() if v[1] not in gone and not (v[1] == f and j >= k)}
                for j in [j for j, a in self.live.items() if a[1] == f and a[3:] and a[3] >= k]:
                    del self.live[j]
                self.cur[p] = f
                self.emit('rewind', p, k)
        elif fs and (len(fs) > 12 or x < .92):
            # the active frame may be released without having been sealed
            if r.random() < .5:
                f = fs[0]
            else:
                f = r.choice(fs)
            self.rel(p, f)
            if not fs and r.random() < .4:
                self.emit('trim', p)
        else:
            self.emit('footprint', p)

    def rel(self, p, f):
        if self.cur[p] == f:
            self.cur[p] = 0
        self.frames[p].remove(f)
        self.ck = {j: v for j, v in self.ck.items() if v[1] != f}
        self.forget({f})
        self.emit('release', f)

    def end(self):
        r = self.r
        for i in list(self.live):
            self.emit('read', i)
        for p, k in self.kind.items():
            if k in ('libc', 'cl'):
                continue
            if k == 'stack':
                while self.frames[p]:
                    self.forget({self.frames[p].pop()})
                    self.emit('pop', p)
                self.emit('delete', p)
            elif k == 'ring':
                if self.cur[p]:
                    self.rel(p, self.cur[p])
                keep = r.random() < .5
                if keep:
                    self.emit('delete', p)
                l = list(self.frames[p])
                r.shuffle(l)
                for f in l:
                    self.rel(p, f)
                    if keep and r.random() < .3 and self.live:
                        self.emit('read', r.choice(list(self.live)))
                if not keep:
                    self.emit('delete', p)
            else:
                keep = r.random() < .5
                if keep:
                    self.emit('delete', p)
                m = [i for i, a in self.live.items() if a[0] == p]
                r.shuffle(m)
                for i in m:
                    del self.live[i]
                    self.emit('free', i)
                if not keep:
                    self.emit('stats', p)
                    self.emit('delete', p)
        for i in list(self.live):
            self.emit('free', i)
        self.emit('leaks')

    def edge(self):
        """many small allocations, then one that must fit exactly in a block of its own"""
        r = self.r
        k = self.kind[0] = r.choice(['stack', 'stack', 'ring', 'fifo'])
        self.frames[0] = []
        self.cur[0] = 0
        self.emit('pool', 0, k, r.choice([1, 4096, 8192]))
        hdr = {'stack': 24, 'ring': 32, 'fifo': 32}[k]

        def frame():
            self.nfr += 1
            if k == 'stack':
                self.emit('push', 0, self.nfr)
                return ['pop 0']
            if k == 'ring':
                self.emit('newframe', 0, self.nfr)
                return ['release %d' % self.nfr]
            return []

        def al(n, a):
            self.nid += 1
            self.emit('alloc', 0, self.nid, n, a, int(r.random() < .3), r.randint(1, 255))
            return self.nid
        for rnd in range(r.randint(1, 3)):
            for i in range(2):
                end = frame()
                ids = [al(r.randint(1, 24), 1) for j in range(60)]
                if k == 'fifo':
                    end = ['free %d' % x for x in ids]
                self.s += end
            if k != 'fifo' and r.random() < .5:
                self.emit('trim', 0)
            end = frame()
            a = r.choice(self.als(0))
            l = [al(r.randint(1, 30), r.choice(self.als(0))) for j in range(r.randint(0, 3))]
            b = al(4096 * r.choice([17, 33, 40]) - a * r.choice([0, 1, 1, 2]) - r.choice([0, hdr, hdr, hdr, hdr + 8, 8, 16]) - r.choice([0, 0, 1, 8]), a)
            l += [b] + [al(r.randint(1, 30), 8) for j in range(2)]
            for x in l:
                self.emit('read', x)
            self.s += ['free %d' % x for x in l] if k == 'fifo' else end
        self.emit('delete', 0)
        self.emit('leaks')
        return self.s

    def history(self, kinds, n):
        for p, k in enumerate(kinds):
            self.kind[p] = k
            self.frames[p] = []
            self.cur[p] = 0
            self.emit('pool', p, k, self.r.choice([0, 1, 4096, 8192, 16384, 65536]))
        for i in range(n):
            self.step(self.r.randrange(len(kinds)))
        self.end()
        return self.s


def check(ctx):
    exe = ctx.build('pool', ['pool.c'], variant='asan',
                    ldflags=['-Wl,--wrap=' + w for w in ('malloc', 'calloc', 'memalign', 'aligned_alloc', 'posix_memalign', 'realloc', 'free')])
    rng = ctx.rng
    ctx.model('PoolMC')
    if not ctx.quick:
        ctx.model('PoolMC', 'PoolMCBig.cfg')
    runs = []
    for i in range(28 if ctx.quick else 200):
        s = []
        for j in range(8):
            k = rng.choice([['stack'], ['ring'], ['ring'], ['fifo'], ['stack', 'ring', 'fifo', 'libc', 'cl'], ['ring', 'ring', 'fifo']])
            s += Gen(rng).history(k, rng.choice([40, 150, 400]))
        for j in range(16):
            s += Gen(rng).edge()
        runs.append(('p%d' % i, s))
    ctx.check_runs(exe, runs, 'PoolTrace', jobs=7)
