"""C09: hash sets and maps behave as partial functions in every history."""
import gen_qhash, graphwalk

MAPS = ['m32', 'm64', 'm128', 'mvec', 'mptr', 'mhptr', 'mlstr', 'mstr']
SETS = ['s32', 's64', 's128', 'svec', 'sptr', 'shptr']
CACHEABLE = {'mvec', 'mptr', 'mlstr', 'mstr', 'svec', 'sptr'}


def pat(kind, rng):
    return rng.choice([0, 1, 2, 4] if kind in ('m32', 's32') else [0, 1, 2, 3, 4])


def reset(kind, rng):
    return 'reset %s %d %d %d %d' % (kind, pat(kind, rng),
                                     int(kind in CACHEABLE and rng.random() < .5),
                                     rng.randrange(2), rng.choice([0, 0, 0, 1, 5, 30]))


def small(kind, rng, nk, n):
    """few keys, all operations: ghosts, small tables"""
    out = [reset(kind, rng)]
    sealed = False
    k = lambda: rng.randrange(nk)
    for _ in range(n):
        x = rng.random()
        if sealed:
            if x < .6:
                out.append('find %d %d' % (rng.choice([1, 3, 5, 7]), k()))
            elif x < .8:
                out.append('iter %d 0 0' % rng.randrange(3))
            else:
                out.append('unseal')
                sealed = False
            continue
        if x < .34:
            out.append('put %d %d %d %d' % (rng.randrange(8), k(), rng.randrange(1, 4), rng.randrange(1, 1000)))
        elif x < .56:
            out.append('find %d %d' % (rng.randrange(8), k()))
        elif x < .82:
            out.append('del %d %d' % (rng.randrange(4), k()))
        elif x < .88:
            out.append('iter %d 0 0' % rng.randrange(3))
        elif x < .92:
            m = rng.randrange(1, 4)
            out.append('iter 0 %d %d' % (m, rng.randrange(m)))
        elif x < .94:
            out.append('minsize %d' % rng.choice([0, 1, 7, 12, 40]))
        elif x < .965:
            out.append('clear' if rng.random() < .4 else 'findr %d 0 %d 1' % (rng.randrange(2), nk - 1))
        elif x < .985:
            out.append('seal')
            sealed = True
        else:
            out.append('putr %d 0 %d %d %d 7' % (rng.randrange(8), nk - 1, rng.randrange(1, 4), rng.randrange(1, 4)))
    return out


def big(kind, rng, n):
    """grow and shrink tables of thousands of slots so that operations meet resizes in progress"""
    out = [reset(kind, rng)]
    nk = 4096
    sizes = [400, 520, 1000, 1030, 2060, 3000, 4000]
    cur = 0
    for _ in range(n):
        hi = rng.choice(sizes) + rng.randrange(-3, 4)
        lo = rng.randrange(0, 20)
        st = rng.choice([1, 1, 1, 2, 3])
        out.append('putr %d %d %d %d %d %d' % (rng.randrange(8), lo, hi, st, rng.randrange(1, 4), rng.randrange(1, 5000)))

        def mixed(m):
            for _ in range(m):
                k = rng.randrange(0, min(hi + 50, nk))
                x = rng.random()
                if x < .3:
                    out.append('find %d %d' % (rng.randrange(8), k))
                elif x < .6:
                    out.append('put %d %d %d %d' % (rng.randrange(8), k, rng.randrange(1, 4), rng.randrange(1, 1000)))
                elif x < .9:
                    out.append('del %d %d' % (rng.randrange(4), k))
                elif x < .95:
                    out.append('iter %d 0 0' % rng.randrange(3))
                elif x < .97:
                    m_ = rng.randrange(2, 9)
                    out.append('iter 0 %d %d' % (m_, rng.randrange(m_)))
                elif x < .98:
                    out.append('minsize %d' % rng.choice([0, 100, 700, 3000]))
                else:
                    out.append('findr %d 0 %d %d' % (1, min(hi + 100, nk - 1), rng.randrange(1, 4)))
        # stop just past a growth threshold, then interleave while the resize is pending
        mixed(rng.randrange(5, 30))
        out.append('findr %d 0 %d 1' % (rng.randrange(2), min(hi + 60, nk - 1)))
        if rng.random() < .5:
            # nearly empty the table: the next insertion shrinks it
            out.append('delr %d 0 %d 1' % (rng.randrange(4), nk - 1 - rng.randrange(3000)))
            out.append('put 0 %d 1 5' % rng.randrange(nk))
            mixed(rng.randrange(5, 20))
            out.append('findr 1 0 %d 1' % (nk - 1))
        if rng.random() < .3:
            out += ['seal', 'find 1 %d' % rng.randrange(nk), 'findr 1 0 %d 2' % (nk - 1), 'iter 2 0 0', 'unseal']
        if rng.random() < .15:
            out.append('clear')
    return out


def check(ctx):
    exe = ctx.build('qhash', [gen_qhash.generate()])
    rng = ctx.rng
    ctx.model('QHashMC')
    # specification -> code: every transition of the small instance, on every kind
    nodes, edges, init = graphwalk.dump(ctx, 'QHashMC', 'QHashGraph.cfg')
    ws, taken, total = graphwalk.walks(nodes, edges, init, rng, 3000)
    ctx.cov['graph_edges_replayed'] = '%d/%d' % (taken, total)

    def line(e):
        op = e['op']
        if op == 'put':
            return 'put %d %d %d %d' % (rng.choice([0, 2, 4, 6]) + int(e['over']), e['k'], e['kv'], e['v'])
        if op == 'putr':
            return 'putr %d %d %d %d %d %d' % (int(e['over']), e['lo'], e['hi'], e['st'], e['kv'], e['v0'])
        if op in ('find', 'del'):
            return '%s %d %d' % (op, rng.choice([1, 3]), e['k'])
        if op in ('findr', 'delr'):
            return '%s 1 %d %d %d' % (op, e['lo'], e['hi'], e['st'])
        if op == 'iter':
            return 'iter 0 %d %d' % (e['mod'], e['rem'])
        if op == 'minsize':
            return 'minsize %d' % rng.choice([0, 3, 30])
        return op
    runs = []
    for i, kind in enumerate(MAPS + SETS):
        script = []
        if kind in MAPS:
            for w in ws[i % 3::3] if ctx.quick else ws:
                script += [reset(kind, rng)] + [line(e) for e in w]
        for _ in range(8 if ctx.quick else 60):
            script += small(kind, rng, rng.choice([4, 9, 20, 60]), 250)
        runs.append((kind + '-small', script))
    ctx.check_runs(exe, runs, 'QHashTrace', 'QHashTraceSmall.cfg', what='history')
    runs = []
    for kind in MAPS + SETS:
        for j in range(1 if ctx.quick else 10):
            runs.append(('%s-big%d' % (kind, j), big(kind, rng, 12 if ctx.quick else 40)))
    ctx.check_runs(exe, runs, 'QHashTrace', what='history')
