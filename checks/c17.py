"""C17: files of binary records."""
HDR, MB = 20, 1 << 20


class File:
    """where the records lie, to aim at the interesting bytes"""
    def __init__(self, slot, ver=1):
        self.slot, self.ver, self.recs, self.cur = slot, ver, [], 0

    def at(self, p):
        return self.ver and (p % self.slot == 0 or p == HDR)

    def put(self, n):
        p = self.cur or (HDR if self.ver else 0)
        room = self.slot - p % self.slot
        if room < 4 or (not self.ver and room < n + 4):
            p += room
        h = p + 4 if self.at(p) else p
        p, k = h + 4, n
        while k:
            if self.at(p):
                p += 4
            w = min(k, self.slot - p % self.slot)
            p, k = p + w, k - w
        self.recs.append((h, p, n))
        self.cur = p

    def room(self):
        p = self.cur or (HDR if self.ver else 0)
        r = self.slot - p % self.slot
        return r - 4 if self.at(p) else r


def size(rng, f, big):
    r = f.room()
    aim = [r - 4 + d for d in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4)]
    if f.ver:
        k = rng.randrange(1, 4)
        aim += [r - 4 + k * (f.slot - 4) + d for d in (-4, -3, -2, -1, 0, 1, 4)]
    n = rng.choice([0, 0, 1, 2, 3, 4, 5, 8, 13, 20, 40] + aim * (1 if rng.random() < .5 else 3) +
                   ([rng.randrange(3000), 4096, 5000] if big else [rng.randrange(70)]))
    if n < 0 or (not f.ver and n == 0):
        n = 1
    if not f.ver:
        n = min(n, MB - 4)
    return n


def write(rng, f, out, n, big):
    for _ in range(n):
        x = rng.random()
        if x < .8:
            k = size(rng, f, big)
            out.append('put %d %d' % (k, rng.randrange(1 << 30)))
            f.put(k)
        elif x < .88:
            out.append('flush %d' % (rng.random() < .1))
        elif x < .92 and f.recs:
            i = rng.choice([-1, len(f.recs) - 1, len(f.recs) - 2, rng.randrange(len(f.recs))])
            f.recs = f.recs[:max(i, -1) + 1]
            f.cur = f.recs[-1][1] if f.recs else 0
            out.append('trunc %d' % f.cur)
            if not f.recs:
                f.ver = f.ver
        else:
            out += ['close', 'create %d 0' % (f.slot if f.recs else f.slot)]


def tail(rng, f, out):
    """a reader that follows a file being written, at any byte"""
    mode = rng.random()
    cuts = sorted(set([0, 5, 19, 20, 24] + [p + d for h, e, n in f.recs for p in (h, e) for d in (-1, 0, 1, 2, 3, 4)] +
                      [k * f.slot + d for k in range(1, f.cur // f.slot + 2) for d in (-1, 0, 3, 4, 5)] +
                      [rng.randrange(f.cur + 1) for _ in range(4)]))
    cuts = [c for c in cuts if 0 <= c <= f.cur]
    if not f.ver:
        cuts = [c for c in cuts if c >= 20 or c == 0]
    if mode < .3:
        # each cut seen by a new reader
        for c in rng.sample(cuts, min(len(cuts), 8)):
            out += ['snap %d' % c]
            if 0 < c < 20:
                out += ['open']
                continue
            out += ['open', rng.choice(['all', 'last -1', 'last %d' % rng.randrange(5)]), 'all']
    else:
        first = rng.choice([c for c in cuts if not 0 < c < 20])
        out += ['snap %d' % first, 'open']
        cur = first
        todo = [c for c in cuts if c > cur]
        todo = sorted(rng.sample(todo, min(len(todo), rng.choice([3, 10, 25]))))
        for c in todo:
            out += ['grow %d' % (c - cur), 'refresh']
            cur = c
            out += rng.choice([['all'], ['next'] * rng.randrange(3), ['all', 'next'], ['last %d' % rng.choice([-1, 0, 1, 2, 3, 10])],
                               ['all', 'last %d' % rng.choice([-1, 1, 4])]])
            if rng.random() < .05:
                out.append('rewind')
        out += ['grow -1', 'refresh', 'all', 'last -1', 'next', 'rewind', 'all']


def damage(rng, f, out):
    if not f.recs or not f.ver:
        return
    out += ['snap -1']
    x = rng.random()
    h, e, n = rng.choice(f.recs)
    le = lambda v: ''.join('%02x' % (v >> (8 * i) & 255) for i in range(4))
    if x < .25 and n:
        cand = [p for p in range(h + 4, e) if p % f.slot >= 4]
        out.append('damage %d %02x' % (rng.choice(cand), rng.randrange(256)))
    elif x < .5:
        out.append('damage %d %s' % (h, le(rng.choice([0xffffffff, 0xfffffffc, 0xfffffff0, 0x7fffffff, 0x80000000, 0x60000000,
                                                        rng.randrange(1 << 30, 1 << 32)]))))
    elif x < .8:
        out.append('damage %d %s' % (h, le(rng.randrange(1, f.cur - h + 2))))
    else:
        k = rng.randrange(1, 9)
        p = rng.randrange(0, max(f.cur - k, 1))
        k = min(k, f.cur - p)
        out.append('damage %d %s' % (p, ''.join('%02x' % rng.choice([0, 255, 1, rng.randrange(256)]) for _ in range(k))))
        return out.extend(['open'] if p < 20 else ['open', 'last 5', 'all'])
    out += ['open', 'all']


def history(rng, n, slots, big):
    f = File(rng.choice(slots))
    out = ['reset', 'create %d %d' % (f.slot, rng.randrange(2))]
    for _ in range(n):
        write(rng, f, out, rng.randrange(1, 12), big)
        x = rng.random()
        if x < .4:
            tail(rng, f, out)
        elif x < .8:
            damage(rng, f, out)
        elif not big:
            out.append('image')
    if not big:
        out.append('image')
    tail(rng, f, out)
    return out


def megs(rng, ver):
    """slots of one megabyte"""
    if ver:
        f = File(MB)
        out = ['reset', 'create 0 1']
    else:
        n = rng.randrange(1, 16)
        f = File(MB, 0)
        out = ['reset', 'old %d %d' % (n, rng.randrange(1 << 20)), 'create %d 0' % rng.choice([0, 64])]
        f.put(n)
    for _ in range(rng.randrange(3, 9)):
        d = rng.choice([-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8])
        n = f.room() - 4 - d
        if rng.random() < .4 or n <= 0:
            n = rng.choice([rng.randrange(1, MB - 4), 100])
        if not ver:
            n = min(n, MB - 4)
        out.append('put %d %d' % (n, rng.randrange(1 << 30)))
        f.put(n)
        if rng.random() < .3:
            out += ['close', 'create 0 0']
    out += ['snap -1', 'open', 'all', 'last -1', 'last 2']
    return out


def raws(rng):
    sig = b'IS_binary/v01.0\0'.hex()
    out = ['reset']
    le = lambda v: ''.join('%02x' % (v >> (8 * i) & 255) for i in range(4))
    for _ in range(20):
        slot = rng.choice([0, 1, 3, 4, 8, 19, 20, 24, 27, 28, 30, 64, 1 << 20, 0xffffffff, 0x80000000])
        body = ''.join(le(rng.choice([0, 0, 1, 2, 4, 8, 20, 24, 28, 0xfffffffc, 0xffffffff, rng.randrange(200)]))
                       for _ in range(rng.randrange(60))) + '00' * rng.randrange(4)
        out += ['raw ' + (sig + le(slot) + body), 'open']
        out += ['ifopen all', 'ifopen last 3', 'ifopen last -1', 'ifopen rewind', 'ifopen all']
    return out


def check(ctx):
    exe = ctx.build('filebin', ['filebin.c'], variant='asan')
    rng = ctx.rng
    ctx.model('FileBinMC')
    runs = []
    for i in range(20 if ctx.quick else 140):
        s = []
        for _ in range(24):
            s += history(rng, rng.randrange(1, 6), [28, 29, 30, 31, 32, 33, 36, 40, 48, 64, 100, 128], False)
        runs.append(('s%d' % i, s))
    for i in range(6 if ctx.quick else 30):
        s = []
        for _ in range(10):
            s += history(rng, rng.randrange(1, 5), [28, 64, 100, 512, 1000, 4096, 5000], True)
        runs.append(('b%d' % i, s))
    for i in range(2 if ctx.quick else 12):
        s = []
        for j in range(8):
            s += megs(rng, j % 3 == 0)
        runs.append(('m%d' % i, s))
    for i in range(3 if ctx.quick else 12):
        runs.append(('r%d' % i, raws(rng)))
    ctx.check_runs(exe, runs, 'FileBinTrace', jobs=7)
    ctx.assumptions.append('what a concurrent reader sees of a file is a prefix of what the writer wrote')
