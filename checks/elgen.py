"""Random histories for the event loop driver (drivers/el.c).  The driver ignores
commands that do not apply to the state reached, so the scripts need not track it."""


def timer_cmd(rng, ids, inside):
    i = rng.choice(ids)
    x = rng.random()
    small = lambda: rng.choice([0, 1, 2, 3, 5, 10, 10, 20, 50, 100, 101, 499, 500, 600, 1000, 5000, 7000])
    if x < .4:
        d = small()
        rep = 0 if rng.random() < .5 else max(1, small())
        if inside and d == 0:
            d = 1
        return 'timer %d %d %d %d' % (i, d, rep, rng.choice([0, 0, 0, 1, 1, 2, 3]))
    if x < .6:
        return 'restart %d %d' % (i, rng.choice([0, -1] + [max(1, small())] * 3))
    if x < .78:
        return 'unreg %d' % i
    if x < .92:
        return 'work %d' % rng.choice([1, 2, 5, 9, 10, 20, 50, 99, 250, 1000, 3000])
    if x < .97:
        return 'hold %d %d' % (i, rng.randrange(2))
    return 'unloop' if inside else 'pending'


def any_cmd(rng, ids, inside):
    i = rng.choice(ids)
    k = i % 10
    x = rng.random()
    if x < .10:
        return 'unreg %d' % i
    if x < .14:
        return 'work %d' % rng.choice([1, 10, 50, 200])
    if x < .17:
        return 'hold %d %d' % (i, rng.randrange(2))
    if x < .18:
        return 'unloop'
    if x < .21 and not inside:
        return 'pending'
    if k in (0, 1):
        return timer_cmd(rng, [j for j in ids if j % 10 in (0, 1)], inside)
    if k in (2, 3, 4):
        return rng.choice(['fd %d %d' % (i, rng.choice([1, 1, 1, 4, 5, 0])), 'write %d' % i, 'write %d' % i,
                           'read %d' % i, 'mask %d %d' % (i, rng.choice([0, 1, 1, 4, 5])),
                           'prio %d %d' % (i, rng.randrange(3)), 'mark %d' % i,
                           'watch %d %d %d' % (i, rng.choice([1, 4, 5]), rng.choice([-1, 0, 10, 50, 100]))])
    if k == 5:
        return rng.choice(['before %d', 'idle %d', 'unpark %d', 'wake %d', 'write %d', 'write %d', 'blocker %d']) % i
    if k == 6:
        return rng.choice(['before %d', 'idle %d', 'unpark %d', 'unpark %d', 'before %d']) % i
    if k == 7:
        s = rng.choice([10, 12, 1])
        return rng.choice(['signal %d %d' % (i, s), 'raise %d' % s, 'raise %d' % s])
    if k == 8:
        return rng.choice(['child %d 0' % i, 'child %d 0' % i, 'child %d %d' % (i, rng.choice([1, 7, 0x89])),
                           'die %d %d' % (i, rng.choice([1, 3, 0x89, 0x8f])),
                           'die %d %d' % (i, rng.choice([2, 5, 0x89, 0x8f]))])
    return rng.choice(['proxy %d' % i, 'pset %d %d' % (i, rng.choice([1, 4, 5])), 'pclr %d %d' % (i, rng.choice([1, 4, 5])),
                       'pmask %d %d' % (i, rng.choice([0, 1, 4, 5]))])


def history(rng, cmd, ids, n, nact, maxloop):
    out = []
    for _ in range(nact):
        # what the callbacks do at their k-th run
        i = rng.choice(ids)
        c = cmd(rng, ids, True)
        if rng.random() < .3:
            # the event acts upon itself
            w = c.split()
            if w[0] not in ('work', 'unloop', 'raise', 'pending'):
                w[1] = str(i)
                c = ' '.join(w)
        if c.split()[0] in ('pending',):
            continue
        out.append('on %d %d %s' % (i, rng.choice([0, 0, 0, 1, 1, 2, 3]), c))
    for i in ids:
        # descriptors are read, proxies cleared, after a few times
        if cmd is any_cmd:
            k = i % 10
            if k in (2, 3, 4):
                out.append('on %d %d %s' % (i, rng.choice([-1, -1, 4]), rng.choice(['read %d', 'mask %d 0', 'read %d']) % i))
            if k == 9:
                out.append('on %d %d pclr %d 5' % (i, rng.choice([-1, 1, 3]), i))
    for _ in range(n):
        x = rng.random()
        if x < .35:
            out.append('loop %d' % rng.choice([0, 0, 1, 5, 10, 100, 500, 1000, 10000]))
        elif x < .38 and maxloop:
            out += ['on %d %d unloop' % (rng.choice(ids), rng.randrange(4)), 'timer 500 %d 0 0' % rng.choice([150, 700]),
                    'on 500 -1 unloop', 'run', 'unreg 500']
        else:
            out.append(cmd(rng, ids, False))
    out.append('reset')
    return out


def timers(rng, n):
    ids = list(range(1, rng.choice([2, 4, 8, 20, 40])))
    return history(rng, timer_cmd, ids, n, rng.choice([0, 5, 20, 40]), True)


def mixed(rng, n):
    ids = list(range(1, rng.choice([10, 20, 40])))
    if rng.random() < .6:
        # a few kinds only, met more often
        ks = rng.sample(range(10), rng.choice([2, 3, 4]))
        ids = [i for i in ids if i % 10 in ks] or ids
        if not any(j % 10 in (0, 1) for j in ids):
            ids.append(10)
    elif not any(j % 10 in (0, 1) for j in ids):
        ids.append(10)
    return history(rng, any_cmd, ids, n, rng.choice([0, 10, 40, 80]), True)
