"""C21: IOP values: copies, comparisons, orders, hashes and visits agree with the value."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import iopschema as S

AGG = [t.name for t in S.TYPES if t.kind != 'enum' and not t.abstract]
BIG = ['Scal', 'Opts', 'Reps', 'Defs', 'Tags', 'Cons', 'Deep', 'Tree', 'Un', 'Base', 'Mid', 'Ra', 'Cf', 'V1', 'V2', 'Priv']
MODES = ['field', 'fieldc', 'fieldf', 'fieldcf', 'st', 'stc', 'stf', 'stcf', 'obj', 'objf']
NUM = ['byte', 'ubyte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'bool', 'double', 'bytes']


def tweak(rng, g, ty, v):
    """A value that differs from v in one place, or v itself."""
    t = S.BY.get(ty)
    if t is None or t.kind == 'enum':
        if ty in S.STRS:
            w = list(v)
            k = rng.randrange(4)
            if k == 0 or not w:
                return w + [97]
            i = rng.randrange(len(w))
            if k == 1:
                return w[:i] + w[i + 1:]
            w[i] = w[i] ^ 32 if chr(w[i]).isalpha() and ty != 'bytes' else 98
            return w
        if ty == 'void':
            return v
        w = list(g.value(ty)) if rng.random() < .6 else list(v)
        if ty == 'double' or ty == 'bool' or t is not None:
            return list(g.value(ty))
        n = S.INTS[ty][0]
        if w == list(v):
            # one byte of the number, kept in range
            x = list(v)
            i = rng.randrange(n)
            x[i] ^= 1 << rng.randrange(8)
            if S.INTS[ty][1]:
                x = x[:n] + [255 if x[n - 1] >= 128 else 0] * (8 - n)
            return x
        return w
    if t.kind == 'union':
        if rng.random() < .3:
            return g.value(ty)
        return [v[0], tweak(rng, g, t.fields[v[0] - 1].ty, v[1])]
    if t.kind == 'class':
        if rng.random() < .2:
            return g.value(ty)
        real = [c for c in S.chain_all(ty) if S.BY[c].id == v[0]][0]
        ls = [list(x) for x in v[1:]]
        cs = [i for i, c in enumerate(S.chain(real)) if S.BY[c].fields]
        i = rng.choice(cs)
        ls[i] = tweak_fields(rng, g, S.BY[S.chain(real)[i]], ls[i])
        return [v[0]] + ls
    return tweak_fields(rng, g, t, v)


def tweak_fields(rng, g, t, v):
    v = list(v)
    if not t.fields:
        return v
    i = rng.randrange(len(t.fields))
    f, fv = t.fields[i], list(v[i])
    if f.rep == 'rep' and rng.random() < .4:
        if fv and rng.random() < .5:
            fv.pop(rng.randrange(len(fv)))
        else:
            fv.append(g.value(f.ty, 3, f))
    elif f.rep == 'opt' and rng.random() < .4:
        fv = [] if fv else [g.value(f.ty, 3, f)]
    elif fv:
        j = rng.randrange(len(fv))
        fv[j] = tweak(rng, g, f.ty, fv[j])
    v[i] = fv
    return v


def script(rng, n):
    g = S.Gen(rng, .9)
    out = []
    for _ in range(n):
        ty = rng.choice(BIG) if rng.random() < .8 else rng.choice(AGG)
        v = g.value(ty)
        k = rng.random()
        put = lambda s, x: out.append('set %d %s %s' % (s, ty, S.text(ty, x)))
        if k < .25:
            put(0, v)
            for _ in range(rng.randint(1, 3)):
                m = rng.choice(MODES)
                skip = rng.choice([0, 0, 0, 1, rng.getrandbits(64), 1 << rng.randrange(64), rng.getrandbits(64) & rng.getrandbits(64) & rng.getrandbits(64)])
                out.append('visit 0 %s %x %d %d %d' % (m, skip, rng.choice([0, 0, 0, 1, 2, 3, rng.randrange(60)]), rng.choice([1, 2, 77]), rng.randrange(2)))
        elif k < .45:
            put(0, v)
            for fl in rng.sample([0, 1, 2, 3, 8, 9, 11], 2):
                out.append('hash 0 %d' % fl)
        elif k < .7:
            w = tweak(rng, g, ty, v) if rng.random() < .85 else v
            x = tweak(rng, g, ty, w)
            put(0, v), put(1, w), put(2, x)
            out += ['eq 0 1', 'eq 1 2', 'cmp 0 1 2', 'cmp 1 2 0', 'cmp 2 2 1']
        elif k < .85:
            put(0, v)
            put(3, v)
            libc = rng.randrange(2)
            fl = 0 if libc else rng.choice([0, 1])
            out += ['dup 0 1 %d %d' % (fl, libc), 'eq 0 1', 'drop 0', 'get 1']
            put(2, tweak(rng, g, ty, v))
            out += ['copy 2 1 %d %d' % (fl, libc), 'drop 2', 'get 1', 'eq 1 3', 'copy 1 4 0 1', 'copy 3 4 0 1', 'get 4', 'hash 4 0']
        elif k < .95:
            m = rng.randint(2, 7)
            for i in range(m):
                put(i, v)
                v = tweak(rng, g, ty, v)
            order = [str(rng.randrange(m)) for _ in range(rng.randint(2, 12))]
            out.append('sort %s - 0 %s' % (rng.choice('xp'), ' '.join(order)))
        else:
            ty = rng.choice(['Scal', 'Opts'])
            fs = [i for i, f in enumerate(S.BY[ty].fields) if f.ty in NUM]
            i = rng.choice(fs)
            f = S.BY[ty].fields[i]
            m = 7
            for j in range(m):
                v = g.value(ty)
                if j and rng.random() < .3:
                    v[i] = last
                last = v[i]
                put(j, v)
            put(7, g.value(ty))
            order = [str(rng.randrange(m)) for _ in range(rng.randint(2, 12))]
            out.append('sort f %s %d %s' % (f.name, rng.randrange(4), ' '.join(order)))
            if f.rep == 'req':
                nv = rng.randint(1, 3)
                out.append('filter %s %d %d %s %s' % (f.name, rng.randrange(2), nv, ' '.join(str(rng.randrange(7)) for _ in range(nv)), ' '.join(order)))
    return out


def long_hash(rng, n):
    """Values longer than the buffer of the hash, cut at any place."""
    g = S.Gen(rng, .9)
    out = []
    for _ in range(n):
        ty = rng.choice(['Leaf', 'Reps', 'Opts', 'Scal', 'Tree', 'Base'])
        v = g.value(ty)
        lens = [500, 511, 512, 513, 900, 1000, 1010, 1015, 1016, 1017, 1018, 1020, 1024, 1025, 1500, rng.randrange(400, 2100)]
        if ty in ('Reps', 'Opts', 'Scal', 'Leaf'):
            ks = [i for i, f in enumerate(S.BY[ty].fields) if f.ty in ('string', 'bytes')]
            for i in ks if rng.random() < .5 else [rng.choice(ks)]:
                x = [rng.choice(b'abcdef') for _ in range(rng.choice(lens))]
                v[i] = [x] * rng.randint(1, 3) if ty == 'Reps' else [x]
        elif ty == 'Tree':
            v[1] = [g.value('Tree', 2) for _ in range(rng.randrange(20, 90))]
        if ty == 'Reps' and rng.random() < .5:
            f = rng.choice([0, 2, 4, 7])
            v[f] = [g.value(S.BY[ty].fields[f].ty) for _ in range(rng.randrange(60, 300))]
        out += ['set 0 %s %s' % (ty, S.text(ty, v)), 'hash 0 %d' % rng.choice([0, 0, 1, 2, 3])]
    return out


def check(ctx):
    exe = ctx.build('iop', ['iop.c'], variant='asan', iops=[os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'vpt.iop')])
    ctx.model('IopValMC', workers=6)
    n, m = (24, 80) if ctx.quick else (200, 250)
    ctx.check_runs(exe, [('r%d' % i, script(ctx.rng, m)) for i in range(n)] + [('l%d' % i, long_hash(ctx.rng, 25)) for i in range(4 if ctx.quick else 30)], 'IopValTrace')
    ctx.assumptions += ['the package drivers/vpt.iop stands for all schemas', 'no NaN and no negative zero; texts of the orders are ASCII']
