"""C19: IOP binary format: what is packed is unpacked equal, across schema versions; any input is decoded per the format or refused."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import iopschema as S

AGG = [t.name for t in S.TYPES if t.kind != 'enum' and not t.abstract]
BIG = ['Scal', 'Opts', 'Reps', 'Defs', 'Tags', 'Cons', 'Deep', 'Tree', 'Un', 'Base', 'Mid', 'Ra', 'Cf', 'V1', 'V2', 'Priv']


def flags(rng):
    return rng.choice([0, 0, 1, 2, 4, 3, 5, 7])


def top(ty, v):
    return S.text(ty, v)


def has_private_class(v, ty):
    t = S.BY.get(ty)
    if t is None or t.kind == 'enum':
        return False
    if t.kind == 'class':
        real = [c for c in S.chain_all(ty) if S.BY[c].id == v[0]][0]
        if S.BY[real].priv:
            return True
        return any(has_private_class(x, f.ty) for c, l in zip(S.chain(real), v[1:]) for f, fv in zip(S.BY[c].fields, l) for x in fv)
    if t.kind == 'union':
        return has_private_class(v[1], t.fields[v[0] - 1].ty)
    return any(has_private_class(x, f.ty) for f, fv in zip(t.fields, v) for x in fv)


def script(rng, n, valid):
    g = S.Gen(rng, valid)
    out = []
    for _ in range(n):
        ty = rng.choice(BIG) if rng.random() < .75 else rng.choice(AGG)
        k = rng.random()
        if k < .3:
            v = g.value(ty)
            fl = flags(rng)
            if has_private_class(v, ty):
                fl &= ~4          # packing a private class without private fields is a misuse
            out.append('set 0 %s %s' % (ty, top(ty, v)))
            if rng.random() < .5:
                out.append('check 0')
            out.append('pack 0 0 %d' % fl)
            out.append('unpack 1 %s 0 %d' % (ty, rng.choice([0, 0, 4, 2, 6])))
            if rng.random() < .3:
                out += ['pack 0 0 0', 'unpack 1 %s 0 4' % ty, 'get 0']
        elif k < .5:
            v = g.value(ty)
            b = g.w_body(ty, v)
            out.append('raw 0 %s' % (b.hex() or '-'))
            out.append('unpack 1 %s 0 %d' % (ty, rng.choice([0, 0, 4, 2])))
        elif k < .75:
            v = g.value(ty)
            b = g.w_body(ty, v)
            out.append('raw 0 %s' % (b.hex() or '-'))
            for _ in range(rng.randint(1, 4)):
                m = rng.choice(['set', 'set', 'add', 'add', 'cut', 'del', 'ins'])
                val = rng.choice([0, 1, 2, 3, 127, 128, 255, rng.randrange(256), rng.randrange(8) * 32 + rng.randrange(8)])
                if m == 'add':
                    val = rng.choice([1, -1, 32, -32, 2])
                out.append('mut 0 %s %d %d' % (m, rng.randrange(4000), val))
                out.append('unpack 1 %s 0 %d' % (ty, rng.choice([0, 4])))
        elif k < .87:
            a, b = rng.choice([('V1', 'V2'), ('V2', 'V1'), ('V1', 'V3'), ('V3', 'V2'), ('V2', 'V3'), ('V3', 'V1'), ('Leaf', 'Opt1'),
                               ('Scal', 'Opts'), ('Opts', 'Reps'), ('Reps', 'Opts'), ('Opts', 'Scal'), ('Tree', 'Leaf'), ('Kid', 'Base'),
                               ('Kid2', 'Base'), ('Base', 'Kid'), ('Kid', 'Mid'), ('Kid2', 'Mid'), ('Opt1', 'Solo'), ('Solo', 'Opt1'),
                               ('Leaf', 'Base'), ('Us', 'Un'), ('Un', 'Us'), ('Cons', 'Opts'), ('Tags', 'Nil'), ('Nil', 'Opt1'),
                               ('Fin', 'Base'), ('Fin', 'Mid')])
            out += ['set 0 %s %s' % (a, top(a, g.value(a))), 'pack 0 0 0', 'unpack 1 %s 0 4' % b]
        elif k < .94:
            for u in range(rng.randint(1, 4)):
                ty = 'Un' if rng.random() < .8 else 'Us'
                if u == 0:
                    t0 = ty
                out.append('set 2 %s %s' % (t0, top(t0, g.value(t0))))
                out.append('pack 2 %d 0' % (0 if u == 0 else 1))
                if u:
                    out.append('cat 0 1')
            if rng.random() < .2:
                out.append('mut 0 %s %d %d' % (rng.choice(['set', 'cut', 'add']), rng.randrange(99), 1))
            out.append('multi %s 0' % t0)
        else:
            # long arrays and strings: 2 and 4 byte lengths
            n1 = rng.choice([127, 128, 255, 256, 257, 300])
            v = g.value('Reps')
            f = rng.choice([0, 1, 2, 3, 4, 7, 8, 10, 14, 15, 17])
            ft = S.BY['Reps'].fields[f]
            v[f] = [g.value(ft.ty, 3, ft) for _ in range(n1)]
            out += ['set 0 Reps %s' % top('Reps', v), 'pack 0 0 %d' % rng.choice([0, 8]), 'unpack 1 Reps 0 4']
    return out


def huge(rng):
    out = []
    for n in (65534, 65535, 65536):
        v = [S.i8(n), [list(b'z' * n)]]
        out += ['set 0 Leaf [[x%s][x%s]]' % (bytes(S.i8(n)).hex(), '7a' * n), 'pack 0 0 0', 'unpack 1 Leaf 0 0']
    # counts that no input can hold
    for cnt in ('00000080', 'ffffffff', '01000010', '00000040', 'ffffff7f', '00000000'):
        for ty, tag in (('Reps', 15), ('Reps', 5), ('Reps', 11), ('Reps', 18), ('Tree', 2)):
            out += ['raw 0 %02x%s8001' % (7 * 32 + tag, cnt), 'unpack 1 %s 0 0' % ty]
    for ln in ('00', ):
        for ty, tag in (('Opts', 11), ('Opts', 12), ('Reps', 11)):
            out += ['raw 0 %02x%s' % (tag, ln), 'unpack 1 %s 0 0' % ty, 'unpack 1 %s 0 4' % ty]
    return out


def threaded(rng, n):
    g = S.Gen(rng, .9)
    out = ['thr 2']
    for _ in range(n):
        v = g.value('Reps')
        for f in (14, 15, 17, 18):
            ft = S.BY['Reps'].fields[f]
            v[f] = [g.value(ft.ty, 3, ft) for _ in range(rng.choice([1, 2, 3, 7, 8, 9, 17, 33, 60]))]
        fl = rng.choice([0, 1, 4, 8])
        out += ['set 0 Reps %s' % top('Reps', v), 'pack 0 0 %d' % fl, 'unpack 1 Reps 0 4']
        t = g.value('Tree')
        t[1] = [g.value('Tree', 1) for _ in range(rng.choice([2, 5, 20]))]
        out += ['set 0 Tree %s' % top('Tree', t), 'pack 0 0 %d' % fl, 'unpack 1 Tree 0 4']
    return out


def check(ctx):
    exe = ctx.build('iop', ['iop.c'], variant='asan', iops=[os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'vpt.iop')])
    ctx.model('IopMC', workers=6)
    runs = [('huge', huge(ctx.rng))]
    n, m = (21, 90) if ctx.quick else (160, 300)
    for i in range(n):
        runs.append(('r%d' % i, script(ctx.rng, m, ctx.rng.choice([1, .95, .8]))))
    ctx.check_runs(exe, runs, 'IopTrace')
    truns = [('t%d' % i, threaded(ctx.rng, 3 if ctx.quick else 12)) for i in range(6 if ctx.quick else 40)]
    ctx.check_runs(exe, truns, 'IopTrace', env={'VP_THR': '1'})
    ctx.assumptions += ['the package drivers/vpt.iop stands for all schemas: every scalar type, every repetition kind, unions, classes, references, constraints, long tags']
