"""C06: modules are loaded after, and released before, what they depend on."""


def script(r, n):
    out = []
    nm = r.randint(2, 8)
    # dependencies go to lower ranks, but ranks are scattered over the modules
    rank = list(range(nm))
    r.shuffle(rank)
    by = sorted(range(nm), key=lambda m: rank[m])
    deps = {m: set() for m in range(nm)}
    below = {}
    for m in by:
        low = [k for k in by if rank[k] < rank[m]]
        d = r.choice(low) if low and r.random() < .5 else -1
        out.append('new %d %d' % (m, d))
        if d >= 0:
            deps[m].add(d)
        for k in r.sample(low, min(len(low), r.choice([0, 0, 1, 1, 2, 3]))):
            if k not in deps[m] or r.random() < .1:
                out.append('dep %d %d' % (m, k))
                deps[m].add(k)
        below[m] = set(deps[m]).union(*[below[k] for k in deps[m]])
    # registering order is not the order of the dependencies
    for m in range(nm):
        for k in range(10):
            if r.random() < .6:
                out.append('impl %d %d' % (m, k))
        if r.random() < .3:
            out.append('arg %d %d' % (m, r.randrange(16)))
        if r.random() < .3:
            out.append('nrun %d 1' % m)
    nest = {m: [] for m in range(nm)}
    if r.random() < .5:
        for m in range(nm):
            low = [k for k in by if rank[k] < rank[m]]
            if low and r.random() < .4:
                for x in r.sample(low, min(len(low), r.choice([1, 1, 2]))):
                    nest[m].append(x)
                    out.append('nest %d %d' % (m, x))
    man = [0] * nm
    failed = False
    for _ in range(n):
        k = r.random()
        m = r.randrange(nm)
        if k < .33:
            man[m] += 1
            out.append('require %d' % m)
        elif k < .68:
            on = [x for x in range(nm) if man[x]]
            if on:
                m = r.choice(on)
                man[m] -= 1
                out.append('release %d' % m)
        elif k < .84:
            out.append('run %d %d' % (r.randrange(7), r.randrange(16)))
        elif k < .87:
            out.append('fork %d' % r.randrange(2))
        elif k < .91:
            out.append('coll ' + ' '.join(map(str, r.sample(range(nm), r.randint(1, nm)))))
        elif k < .94:
            failed = True
            out.append('fail %d %d' % (m, r.choice([0, -1, -1])))
        elif k < .96:
            out.append('dump')
        else:
            # everything is released, more dependencies are added
            for x in range(nm):
                out += ['release %d' % x] * man[x]
                man[x] = 0
            hi, lo = r.choice(by), r.choice(by)
            if rank[lo] < rank[hi] and not failed:
                out.append('dep %d %d' % (hi, lo))
    if not any(nest.values()):
        out.append('destroy')
    else:
        for x in r.sample(range(nm), nm):
            out += ['release %d' % x] * man[x]
        out.append('dump')
    return out


def check(ctx):
    exe = ctx.build('mods', ['mods.c'], variant='asan')
    ctx.model('ModsMC', workers=6)
    if not ctx.quick:
        ctx.model('ModsMC', 'ModsMCBig.cfg', workers=8, timeout=800)
    n, m = (60, 120) if ctx.quick else (600, 400)
    ctx.check_runs(exe, [('r%d' % i, script(ctx.rng, ctx.rng.choice([10, 40, m]))) for i in range(n)], 'ModsTrace')
    ctx.assumptions += ['constructors succeed (a failing one ends the process by design), no dependency cycle (refused by an assertion)',
                        'a forced shutdown is not mixed with modules required by a constructor and released by a destructor']
