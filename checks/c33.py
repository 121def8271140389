"""C33: loggers: levels set by name at any time, and the buffers that capture logs."""
MSG = [b'', b'x', b'hello world', b'a\nb', b'\n', b'a\n', b'\n\n', b'100%', b'%s%d', b'l\nm\nn', b'q' * 300]


def script(r, n):
    out = []
    lg = {}       # id: (parent, name, static)
    nm = r.choice([['a', 'b'], ['a', 'b', 'ab', 'abc'], ['x', 'y1', 'zed', 'x-y']])
    full = lambda i: '' if i < 0 else (full(lg[i][0]) + '/' if lg[i][0] >= 0 else '') + lg[i][1]
    depth = lambda i: 0 if i < 0 else 1 + depth(lg[i][0])
    nb = 0
    early = []    # names used before a logger had them

    def anyname():
        s = anyname1()
        if s != '-' and s not in [full(i) for i in lg]:
            early.append(s)
        return s

    def anyname1():
        k = r.random()
        if k < .2:
            c = [(full(i) + '/' if i >= 0 else '') + x for i in [-1] + list(lg) for x in nm]
            return r.choice(c)
        k = r.random()
        if lg and k < .7:
            s = full(r.choice(list(lg)))
        elif k < .8:
            return '-'
        else:
            s = '/'.join(r.choice(nm) for _ in range(r.randint(1, 4)))
        if r.random() < .1:
            s += '/' + r.choice(nm)
        elif r.random() < .06:
            s = s[:-1]
        if s.endswith('/') or s.startswith('/') or not s:
            return '-'
        return s
    for _ in range(n):
        k = r.random()
        if k < .14 or not lg:
            i = r.choice([x for x in range(16) if x not in lg] or [-1])
            if i < 0:
                continue
            p = r.choice([-1] + list(lg))
            if depth(p) > 4:
                p = -1
            used = [x[1] for x in lg.values() if x[0] == p]
            nn = [x for x in nm if x not in used]
            if not nn:
                continue
            st = r.random() < .4
            c = [(q, e[len(full(q)) + (q >= 0):]) for e in early for q in [-1] + list(lg) if q < 0 or e.startswith(full(q) + '/')]
            c = [(q, x) for q, x in c if x and '/' not in x and x not in [y[1] for y in lg.values() if y[0] == q]]
            if c and r.random() < .7:
                lg[i] = r.choice(c) + (st,)
            else:
                lg[i] = (p, r.choice(nn), st)
            p = lg[i][0]
            early = [e for e in early if e != full(i)]
            out.append('%s %d %d %s %d %d' % ('static' if st else 'new', i, p, lg[i][1], r.choice([-1, -1, -1, 3, 4, 5, 6, 7, 8, 10]), r.choice([0, 0, 4])))
        elif k < .19:
            # a leaf, or a logger with only static ones below
            def under(i):
                return {i}.union(*[under(x) for x in lg if lg[x][0] == i])
            c = [i for i in lg if all(lg[x][2] for x in under(i) - {i})]
            if c:
                i = r.choice(c)
                u = under(i)
                out.append('wipe %d' % i)
                for x in u:
                    del lg[x]
        elif k < .4:
            rec = r.random() < .35
            lv = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]) if rec or r.random() < .8 else r.choice([-1, -2])
            out.append('set %s %d %d' % (anyname(), lv, (1 if rec else 0) | r.choice([0, 0, 0, 4])))
        elif k < .48:
            out.append('reset %s' % anyname())
        elif k < .62:
            out.append('level %d %d' % (r.choice([-1] + list(lg) * 3), r.randint(2, 12)))
        elif k < .67:
            out.append('find %s' % anyname())
        elif k < .92:
            i = r.choice([-1] + list(lg) * 4)
            lv = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 13])
            how = r.randrange(3)
            ms = [r.choice(MSG) for _ in range(r.randint(0, 4) if how == 2 else 1)]
            out.append('log %d %d %d %s' % (i, lv, how, ' '.join(m.hex() or '-' for m in ms)))
        elif k < .96 and nb < 4:
            nb += 1
            out.append('bstart %d %d' % (r.random() < .6, r.choice([-1, -1, 3, 4, 6, 8])))
        elif nb:
            nb -= 1
            out.append('bstop')
    return out + ['bstop'] * nb


def check(ctx):
    exe = ctx.build('logs', ['logs.c'], variant='asan')
    ctx.model('LogMC', workers=6, timeout=200)
    ctx.model('LogMC', 'LogMC2.cfg', workers=6, timeout=200)
    n, m = (60, 300) if ctx.quick else (400, 800)
    ctx.check_runs(exe, [('r%d' % i, script(ctx.rng, ctx.rng.choice([40, m]))) for i in range(n)], 'LogTrace')
    ctx.assumptions += ['names are made of printable characters without / nor !', 'levels are read and set by one thread']
