"""C20: IOP text formats: XML written and read exactly, JSON and YAML round trips."""
import base64, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import iopschema as S

AGG = [t.name for t in S.TYPES if t.kind != 'enum' and not t.abstract]
BIG = ['Scal', 'Priv', 'Opts', 'Reps', 'Defs', 'Cons', 'Deep', 'Tree', 'Un', 'Base', 'Mid', 'Ra', 'Cf', 'Priv', 'Cdat', 'Opt1', 'V2']


class Gen(S.Gen):
    blank = True          # texts made of blanks only

    def strv(self, ty, f=None):
        v = super().strv(ty, f)
        r = self.r
        if ty == 'string' and not (f and 'pat' in f.c and r.random() < self.valid):
            k = r.random()
            if k < .15 and v:
                u = r.choice(['é', '€', '😀', 'ß', 'Ω', '\t']).encode()
                i = r.randrange(len(v))
                if not f or not ('mxl' in f.c or 'len' in f.c):
                    v = v[:i] + list(u) + v[i:]
            elif k < .25 and f is not None and f.c.get('cd'):
                v = v + list(r.choice([b']]>', b'x]]]>y', b']]>]]>', b']]', b']>', b'<![CDATA[', b'&amp;']))
        if not self.blank and v and all(c in b' \n\t' for c in v):
            v = [97] + v[1:]
        return v


def real_of(ty, v):
    return [c for c in S.chain_all(ty) if S.BY[c].id == v[0]][0]


# --- elements: [name, type (or None), kind, content] ---------------------------------------------
def num_text(r, ty, v):
    n, sg = S.INTS.get(ty, (4, True))
    x = int.from_bytes(bytes(v), 'little', signed=sg)
    k = r.random()
    if k < .6:
        return str(x)
    s = '-' if x < 0 else r.choice(['', '', '+'])
    a = abs(x)
    t = s + r.choice(['%d' % a, '0x%x' % a, '0X%X' % a, '0%o' % a])
    return r.choice(['', ' ', '\n\t']) + t + r.choice(['', ' ', '  \n'])


def elt(g, f, v):
    r = g.r
    ty, name = f.ty, f.name
    t = S.BY.get(ty)
    if ty in S.INTS:
        return [name, None, 0, num_text(r, ty, v).encode()]
    if ty == 'bool':
        return [name, None, 0, r.choice([[b'0', b'false', b'FALSE', b' 0 ', b'False'], [b'1', b'true', b'TRUE', b'\n1', b'tRuE ']][v[0]])]
    if ty == 'double':
        x = [d for d in S.DBLS if S.d8(d[1]) == list(v)]
        y = r.choice(x) if x and r.random() < .6 else r.choice(S.DBLS)
        return [name, None, 0, (r.choice(['', ' ']) + y[0] + r.choice(['', '\n'])).encode()]
    if ty == 'string':
        if r.random() < .06:
            return [name, None, r.choice([2, 3]), r.choice([b'12', b'x@y', b'12', b'zz'])]
        return [name, None, r.choice([0, 0, 5]), bytes(v)]
    if ty == 'bytes':
        if r.random() < .06:
            return [name, None, r.choice([2, 3]), r.choice([b'12', b'x@y', b'zz'])]
        return [name, None, 0, base64.b64encode(bytes(v))]
    if ty == 'void':
        return [name, None, 4, b''] if r.random() < .7 else [name, None, 1, [['zz', None, 0, b'5']]]
    if t.kind == 'enum':
        x = int.from_bytes(bytes(v), 'little', signed=True)
        nm = [n for n, k in t.vals if k == x]
        return [name, None, 0, nm[0].encode() if nm and r.random() < .5 else num_text(r, 'int', v).encode()]
    ty_attr = None
    if t.kind == 'class':
        real = real_of(ty, v)
        if real != ty or r.random() < .7:
            ty_attr = 'vpt.' + real
    return [name, ty_attr, 1, kids(g, ty, v)]


def fields(g, t, v):
    r = g.r
    out = []
    for f, fv in zip(t.fields, v):
        if f.rep == 'req' and f.ty == 'void' and r.random() < .7:
            continue
        if f.rep == 'def' and fv[0] == f.d and r.random() < .6:
            continue
        out += [elt(g, f, x) for x in fv]
    return out


def kids(g, ty, v):
    t = S.BY[ty]
    if t.kind == 'struct':
        return fields(g, t, v)
    if t.kind == 'union':
        return [elt(g, t.fields[v[0] - 1], v[1])]
    ch = S.chain(real_of(ty, v))
    out = []
    for c, l in reversed(list(zip(ch, v[1:]))):
        out += fields(g, S.BY[c], l)
    return out


BADNUM = [b'-1', b'256', b'-129', b'65536', b'4294967296', b'18446744073709551615', b'18446744073709551616', b'9223372036854775808',
          b'-9223372036854775808', b'-9223372036854775809', b'0x', b'08', b'1z', b'z', b'- 1', b'+-1', b'1 2', b'0xfff', b'-0', b'--5', b'1.5z', b'tru',
          b'truez', b'2', b'-1b', b'00', b'0x8000000000000000', b'0xffffffffffffffff', b'-0x8000000000000000', b'32768', b'-32769', b'2147483648', b'-2147483649']
BADTXT = [b'AAA!', b'####', b'zb', b'A', b'B', b'Z', b'Y', b'']


def walk(x, acc):
    if x[2] == 1:
        for c in x[3]:
            acc.append((x, c))
            walk(c, acc)
    return acc


def mutate(r, root):
    acc = walk(root, [])
    k = r.randrange(12)
    if not acc or k == 0:
        root[3].insert(r.randint(0, len(root[3])), ['qq', None, r.choice([1, 4]), []])
        return
    par, x = r.choice(acc)
    i = [j for j, c in enumerate(par[3]) if c is x][0]
    if k == 1:
        del par[3][i]
    elif k == 2:
        par[3].insert(i, json.loads(json.dumps(enc(x))) and clone(x))
    elif k == 3:
        j = r.randrange(len(par[3]))
        par[3][i], par[3][j] = par[3][j], par[3][i]
    elif k == 4:
        par[3].insert(r.randint(0, len(par[3])), r.choice([['qq', None, 4, b''], ['qq', None, 0, b'5'], ['qq', None, 1, [['a', None, 0, b'5'], ['qq', None, 4, b'']]]]))
    elif k in (5, 6, 7) and x[2] in (0, 5):
        x[3] = r.choice(BADNUM + BADTXT)
        x[2] = 0
    elif k == 8:
        x[1] = r.choice(['vpt.Kid', 'vpt.Base', 'vpt.Abst', 'vpt.Zork', 'vpt.Kid2', 'vpt.Cc', 'vpt.Solo', 'vpt.PrivC', 'vpt.Leaf', 'vpt.Fin'])
    elif k == 9:
        x[0] = r.choice(['qq', 'a', 's', 'b', 'i', 'v', x[0] + 'x', x[0][:-1] or 'q', x[0].upper()])
    elif k == 10:
        x[2], x[3] = r.choice([(4, b''), (1, []), (1, [['qq', None, 4, b'']]), (0, b'')])
    else:
        # another element of the same document moved here
        _, y = r.choice(acc)
        par[3].insert(i + r.randrange(2), clone(y))


def sprinkle(r, x):
    out = []
    for c in x[3]:
        while r.random() < .3:
            out.append(clone(r.choice([['qq', None, 4, b''], ['zz', None, 0, b'5'], ['qq', None, 1, [['a', None, 0, b'5'], ['qq', None, 4, b'']]]])))
        if c[2] == 1:
            sprinkle(r, c)
        out.append(c)
    x[3] = out


def clone(x):
    return [x[0], x[1], x[2], [clone(c) for c in x[3]] if x[2] == 1 else x[3]]


def enc(x):
    return [list(x[0].encode()), [] if x[1] is None else [list(x[1].encode())], x[2],
            [enc(c) for c in x[3]] if x[2] == 1 else list(x[3])]


def esc(r, b):
    out = b''
    for c in b.decode('utf-8'):
        k = r.random()
        if c in '<&' or (c == '>' and k < .9) or (c in '"\'' and k < .3):
            out += {'<': b'&lt;', '&': b'&amp;', '>': b'&gt;', '"': b'&quot;', "'": b'&apos;'}[c] if k < .7 else b'&#x%x;' % ord(c)
        elif k < .04 and ord(c) > 32:
            out += r.choice([b'&#%d;' % ord(c), b'&#x%X;' % ord(c)])
        elif c == '\r':
            out += b'&#13;'
        else:
            out += c.encode()
    return out.replace(b']]>', b']]&gt;')


def ser(r, x, ws, pre, top=False):
    name = (pre + ':' if pre and r.random() < .5 else '').encode() + x[0].encode()
    w = lambda: r.choice([b'', b'', b'\n', b'  ', b'<!-- c -->', b'\n\t<!-- <a/> -->', b'<?pi x?>']) if ws else b''
    at = b''
    if top:
        at += b' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:n="http://n" xmlns:p="http://p"'
    if x[1] is not None:
        at += r.choice([b' xsi:type="n:%s"', b' xsi:type="n:%s"', b' type="%s"', b" xsi:type='n:%s'"]) % x[1].encode()
    if r.random() < .1:
        at += b' z="1"'
    if x[2] == 2:
        return b'<%s%s href="cid:%s"/>' % (name, at, x[3])
    if x[2] == 4:
        return b'<%s%s xsi:nil="true"></%s>' % (name, at, name) if r.random() < .5 else b'<%s%s/>' % (name, at)
    if x[2] == 3:
        body = b'<Include href="cid:%s"/>' % x[3] if r.random() < .5 else b'<n:Include href="cid:%s"/>' % x[3]
    elif x[2] == 5:
        body = b'<![CDATA[' + x[3].replace(b']]>', b']]]]><![CDATA[>') + b']]>' if x[3] else b''
    elif x[2] == 0:
        body = esc(r, x[3])
    else:
        body = w() + b''.join(ser(r, c, ws, pre) + w() for c in x[3])
        if not x[3]:
            body = b''
    if not body and r.random() < .5:
        return b'<%s%s/>' % (name, at)
    return b'<%s%s>%s</%s>' % (name, at, body, name)


def xml_line(g, ty, v, nmut):
    r = g.r
    t = S.BY[ty]
    root = ['root', None, 1, kids(g, ty, v)]
    if t.kind == 'class':
        real = real_of(ty, v)
        if real != ty or r.random() < .7:
            root[1] = 'vpt.' + real
    for _ in range(nmut):
        mutate(r, root)
    fl = r.choice([0, 0, 0, 1, 1, 2, 3])
    if r.random() < .25:
        # unknown elements in many places, to be ignored
        fl = r.choice([1, 1, 3, 3, 0])
        sprinkle(r, root)
    text = r.choice([b'', b'', b'<?xml version="1.0" encoding="UTF-8"?>\n', b'<!-- x -->']) + ser(r, root, r.random() < .4, r.choice(['', '', 'p']), True)
    hp = r.random() < .5
    return 'xunpack 1 %s %d %d %s %s' % (ty, fl, hp, text.hex(), json.dumps(enc(root), separators=(',', ':')))


def has_private_class(v, ty):
    t = S.BY.get(ty)
    if t is None or t.kind == 'enum':
        return False
    if t.kind == 'class':
        real = real_of(ty, v)
        if S.BY[real].priv:
            return True
        return any(has_private_class(x, f.ty) for c, l in zip(S.chain(real), v[1:]) for f, fv in zip(S.BY[c].fields, l) for x in fv)
    if t.kind == 'union':
        return has_private_class(v[1], t.fields[v[0] - 1].ty)
    return any(has_private_class(x, f.ty) for f, fv in zip(t.fields, v) for x in fv)


def script(rng, n, valid):
    g = Gen(rng, valid)
    out = []
    for _ in range(n):
        ty = rng.choice(BIG) if rng.random() < .75 else rng.choice(AGG)
        g.blank = True
        v = g.value(ty)
        k = rng.random()
        if ty == 'Reps' and rng.random() < .5:
            # long arrays
            for _ in range(rng.randint(1, 3)):
                i = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13])
                ft = S.BY['Reps'].fields[i]
                v[i] = [g.value(ft.ty, 3, ft) for _ in range(rng.choice([7, 8, 14, 15, 29, 58, 60, 61, 113, rng.randint(5, 70)]))]
        if k < .3:
            fl = rng.choice([0, 1, 2, 3, 4, 7])
            if has_private_class(v, ty):
                fl &= ~4
            out += ['set 0 %s %s' % (ty, S.text(ty, v)), 'xpack 0 %d %d %d' % (fl, rng.choice([0, 0, 0, 1, 2]), rng.randrange(2))]
        elif k < .75:
            out.append(xml_line(g, ty, v, rng.choice([0, 0, 1, 1, 2])))
        else:
            out.append('set 0 %s %s' % (ty, S.text(ty, v)))
            priv = has_private_class(v, ty)
            fl = 0
            for b in (2, 4, 8, 16, 32, 64, 128, 1024):
                if rng.random() < .4 and not (b == 8 and priv):
                    fl |= b
            out.append('jrt 0 %d' % fl)
            if not priv:
                out.append('yrt 0 %d' % rng.choice([0, 0, 8]))
    return out


def edges(rng, ty):
    """Each scalar field alone, with each odd text."""
    out = []
    for f in S.BY[ty].fields:
        if f.ty in S.INTS or f.ty in ('bool', 'double', 'bytes') or (f.ty in S.BY and S.BY[f.ty].kind == 'enum'):
            for t in BADNUM + BADTXT:
                if f.ty == 'bytes' and t not in BADTXT:
                    continue
                root = ['root', None, 1, [[f.name, None, 0, t]]]
                if ty == 'Reps' and rng.random() < .5:
                    root[3].insert(rng.randrange(2), [f.name, None, 0, b'MTIz' if f.ty == 'bytes' else b'1'])
                out.append('xunpack 1 %s 0 0 %s %s' % (ty, ser(rng, root, False, '', True).hex(), json.dumps(enc(root), separators=(',', ':'))))
    return out


def check(ctx):
    exe = ctx.build('iop', ['iop.c'], variant='asan', iops=[os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'vpt.iop')])
    ctx.model('IopTextMC', workers=6)
    n, m = (24, 130) if ctx.quick else (200, 400)
    ctx.check_runs(exe, [('e' + t, edges(ctx.rng, t)) for t in ('Opts', 'Reps')] + [('r%d' % i, script(ctx.rng, m, ctx.rng.choice([1, .95, .8]))) for i in range(n)], 'IopTextTrace')
    ctx.assumptions += ['libxml2 parses the documents as XML 1.0 says; the generator writes the text of an element tree in various ways (comments, CDATA, entities, prefixes, empty elements)',
                        'texts made of blanks only, and texts split by comments, are left open']
