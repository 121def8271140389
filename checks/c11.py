"""C11: linked lists, rings, heaps and ordered trees."""

NN = 24


def dlists(rng, n):
    out = ['dreset']
    L = [[], []]
    few = rng.random() < .5
    nodes = list(range(5 if few else NN))
    free = lambda: [e for e in nodes if e not in L[0] and e not in L[1]]
    for _ in range(n):
        x = rng.random()
        l = rng.randrange(2)
        used = L[0] + L[1]
        fr = free()
        if x < .3 and fr:
            e = rng.choice(fr)
            y = rng.random()
            if y < .3 or not used:
                out.append('dadd %d %d' % (l, e))
                L[l].insert(0, e)
            elif y < .55:
                out.append('dtail %d %d' % (l, e))
                L[l].append(e)
            else:
                p = rng.choice(used)
                k = 0 if p in L[0] else 1
                i = L[k].index(p)
                if y < .8:
                    out.append('dafter %d %d' % (p, e))
                    L[k].insert(i + 1, e)
                else:
                    out.append('dbefore %d %d' % (p, e))
                    L[k].insert(i, e)
        elif x < .42:
            e = rng.choice(nodes)
            out.append('drem %d' % e)
            for k in L:
                if e in k:
                    k.remove(e)
        elif x < .48:
            if L[l]:
                out.append('dpop %d' % l)
                L[l].pop(0)
        elif x < .6:
            if used:
                e = rng.choice(used)
                for k in L:
                    if e in k:
                        k.remove(e)
                if rng.random() < .5:
                    out.append('dmove %d %d' % (l, e))
                    L[l].insert(0, e)
                else:
                    out.append('dmovet %d %d' % (l, e))
                    L[l].append(e)
        elif x < .7:
            if rng.random() < .5:
                out.append('dsplice %d %d' % (l, 1 - l))
                L[l] = L[1 - l] + L[l]
            else:
                out.append('dsplicet %d %d' % (l, 1 - l))
                L[l] = L[l] + L[1 - l]
            L[1 - l] = []
        elif x < .78:
            s = [k for k in (0, 1) if not L[1 - k]]
            if s:
                s = rng.choice(s)
                e = rng.choice(L[s] + [-1])
                i = 0 if e == -1 else L[s].index(e) + 1
                out.append('dcut %d %d %d' % (s, e, 1 - s))
                L[1 - s] = L[s][:i]
                L[s] = L[s][i:]
        elif x < .85:
            out.append('drepair %d' % rng.choice(nodes))
        elif x < .9:
            m = rng.choice([1, 2, 3])
            out.append('dfilter %d %d %d' % (l, rng.randrange(3), m))
            L[l] = [e for e in L[l] if e % m]
        elif L[l]:
            out.append('dwalk %d %d %d' % (l, rng.choice(L[l]), rng.randrange(5)))
    return out


def htlists(rng, n):
    out = ['hreset']
    L = [[], []]
    nodes = list(range(rng.choice([3, 6, NN])))
    for _ in range(n):
        x = rng.random()
        l = rng.randrange(2)
        fr = [e for e in nodes if e not in L[0] and e not in L[1]]
        if x < .4 and fr:
            e = rng.choice(fr)
            y = rng.random()
            if y < .3:
                out.append('hadd %d %d' % (l, e))
                L[l].insert(0, e)
            elif y < .6:
                out.append('htail %d %d' % (l, e))
                L[l].append(e)
            else:
                p = rng.choice(L[l] + [-1])
                out.append('hafter %d %d %d' % (l, p, e))
                L[l].insert(0 if p == -1 else L[l].index(p) + 1, e)
        elif x < .6:
            if L[l]:
                out.append('hpop %d' % l)
                L[l].pop(0)
        elif x < .8:
            if rng.random() < .5:
                out.append('hsplice %d %d' % (l, 1 - l))
                L[l] = L[1 - l] + L[l]
            else:
                out.append('hsplicet %d %d' % (l, 1 - l))
                L[l] = L[l] + L[1 - l]
            L[1 - l] = []
        elif x < .87:
            if rng.random() < .5 or not L[l]:
                out.append('hmove %d %d' % (l, 1 - l))
                L[l], L[1 - l] = L[1 - l], []
        elif x < .9:
            out.append('hclear %d' % l)
            L[l] = []
        elif L[l]:
            out.append('hwalk %d %d' % (l, rng.choice(L[l])))
    return out


def rings(rng, n):
    out = ['rreset %d' % rng.randrange(2)]
    ln = 0
    up = rng.choice([.35, .5, .65])
    front = rng.choice([.1, .5, .9])
    for _ in range(n):
        x = rng.random()
        if x < up:
            # bursts fill the ring to its very size
            for _ in range(rng.choice([1, 1, 1, 3, 8, 20])):
                if ln < 150:
                    out.append('%s %d' % ('runshift' if rng.random() < front else 'rpush', rng.randrange(1, 1000)))
                    ln += 1
        elif x < .85:
            for _ in range(rng.choice([1, 1, 2, 6])):
                out.append(rng.choice(['rshift', 'rpop', 'rshift']))
                ln = max(0, ln - 1)
        elif x < .95:
            k = rng.choice([0, ln, rng.randrange(ln + 1), ln + 1, -1])
            out.append('rskip %d' % k)
            if 0 <= k <= ln:
                ln -= k
        else:
            m = rng.choice([1, 2, 3, 7, 1001])
            out.append('rfilter %d' % m)
    return out


def ring_fill(rng):
    """A ring exactly full (or nearly), at every offset, then filtered, skipped or grown."""
    out = []
    size = 24         # the first allocation
    for _ in range(6):
        out.append('rreset %d' % rng.randrange(2))
        off = rng.randrange(size)
        for _ in range(off):
            out += ['rpush 5', 'rshift']
        k = size - rng.choice([0, 0, 0, 1, 2])
        for i in range(k):
            out.append('rpush %d' % (i + 1))
        out.append(rng.choice(['rfilter 1', 'rfilter 2', 'rfilter 1001', 'rskip %d' % k, 'rskip %d' % (k - 1),
                               'runshift 3', 'rpush 9']))
        for i in range(rng.randrange(30)):
            out.append(rng.choice(['rpush %d' % (100 + i), 'runshift %d' % (200 + i), 'rshift', 'rpop']))
    return out


def heaps(rng, n):
    out = ['preset %d' % rng.randrange(2)]
    inn = set()
    NP = rng.choice([4, 9, 30, 60])
    key = lambda: rng.choice([rng.randrange(6), rng.randrange(-1000, 1000)])
    grow = .5
    for _ in range(n):
        x = rng.random()
        if rng.random() < .05:
            grow = rng.choice([.2, .5, .8])
        fr = [e for e in range(NP) if e not in inn]
        if x < grow and fr:
            e = rng.choice(fr)
            out.append('pins %d %d' % (e, key()))
            inn.add(e)
        elif x < grow + (1 - grow) / 3 and inn:
            out.append('pfix %d %d' % (rng.choice(sorted(inn)), key()))
        elif x < grow + 2 * (1 - grow) / 3 and inn:
            e = rng.choice(sorted(inn))
            out.append('prem %d' % e)
            inn.discard(e)
        elif inn and rng.random() < .06:
            # which one comes out is up to the heap among equals: drain to know again
            k = len(inn)
            out += ['ptake'] * k
            inn = set()
    out += ['ptake'] * len(inn)
    for _ in range(3):
        k = rng.randrange(18)
        signed = k in (0, 1, 4, 5, 8, 9, 12, 13, 16, 17)
        lo, hi = (-128, 128) if signed else (0, 256)
        out.append('psort %d %s' % (k, ' '.join(str(rng.randrange(lo, hi)) for _ in range(rng.choice([0, 1, 5, 20, 80])))))
    return out


def trees(rng, n):
    out = ['treset']
    m = rng.choice([6, 20, 100, 1000])
    mode = rng.random()
    seq = 0
    step = rng.choice([1, 1, -1])
    grow = rng.choice([.4, .55, .7])
    tot = 0
    for _ in range(n):
        x = rng.random()
        if rng.random() < .02:
            grow = rng.choice([.2, .5, .8])
        if x < grow * .85 and tot < 4000:
            tot += 1
            if mode < .35:
                seq += step
                k = seq
            else:
                k = rng.randrange(m)
            out.append('tins %d %d' % (k, rng.randrange(2)))
        elif x < .85:
            k = rng.randrange(m) if mode >= .35 else seq - step * rng.randrange(max(1, abs(seq)) + 1)
            out.append('trem %d %d' % (k, rng.randrange(2)))
        elif x < .95:
            out.append('tfind %d' % (rng.randrange(-2, m + 3) if mode >= .35 else seq - step * rng.randrange(-2, abs(seq) + 3)))
        else:
            out.append('tdump')
        if rng.random() < .2:
            out.append('tdump')
        if rng.random() < .004:
            out.append('tfilter %d' % rng.choice([2, 3, 5]))
    out += ['tdump', 'twipe', 'tdump']
    return out


def all_orders(rng):
    """Every order of insertion of a few keys, removed in a random order, looked at all along."""
    import itertools
    out = []
    for p in rng.sample(list(itertools.permutations(range(6))), 30):
        out.append('treset')
        for k in p:
            out += ['tins %d 0' % k, 'tdump']
        q = list(p)
        rng.shuffle(q)
        for k in q:
            out += ['trem %d 0' % k, 'tdump']
    return out


def check(ctx):
    exe = ctx.build('conts', ['conts.c'], variant='asan')
    rng = ctx.rng
    for k in 'dhrpt':
        ctx.model('ContsMC', 'ContsMC_%s.cfg' % k)
    runs = []
    for i in range(14 if ctx.quick else 140):
        s = []
        for j in range(3):
            for g in (dlists, htlists, rings, heaps, trees):
                s += g(rng, rng.choice([30, 100, 250]))
            s += ring_fill(rng)
            s += heaps(rng, 400)
        s += all_orders(rng)
        runs.append(('h%d' % i, s))
    ctx.check_runs(exe, runs, 'ContsTrace', jobs=7)
