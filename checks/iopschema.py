"""IOP types used by the IOP checks: one description gives the .iop package compiled by the
repository's own iopc (drivers/vpt.iop), the TLA+ schema (specs/IopSchema.tla) and the
random values of the scripts."""
import struct

INTS = {'byte': (1, True), 'ubyte': (1, False), 'short': (2, True), 'ushort': (2, False),
        'int': (4, True), 'uint': (4, False), 'long': (8, True), 'ulong': (8, False)}
STRS = ('string', 'bytes', 'xml')


def i8(v):
    return list(struct.pack('<q', v) if -2**63 <= v < 2**63 else struct.pack('<Q', v))


def d8(v):
    return list(struct.pack('<d', v))


class F:
    def __init__(self, ty, name, rep='req', ref=False, d=None, tag=None, priv=False, dtext=None, **c):
        self.ty, self.name, self.rep, self.ref, self.d, self.tag, self.priv, self.c = \
            ty, name, rep, ref, d, tag, priv, c
        self.dtext = dtext


class T:
    def __init__(self, kind, name, fields=(), **kw):
        self.kind, self.name, self.fields = kind, name, list(fields)
        self.id = kw.get('id', 0)
        self.parent = kw.get('parent')
        self.abstract = kw.get('abstract', False)
        self.priv = kw.get('priv', False)
        self.vals = kw.get('vals', [])       # enums: [(name, value)]
        self.strict = kw.get('strict', False)
        t = 0
        for f in self.fields:
            if f.tag is None:
                f.tag = t + 1
            t = f.tag


opt = lambda ty, n, **k: F(ty, n, 'opt', **k)
rep = lambda ty, n, **k: F(ty, n, 'rep', **k)
dfl = lambda ty, n, d, text, **k: F(ty, n, 'def', d=d, dtext=text, **k)

TYPES = [
    T('enum', 'En', vals=[('A', 0), ('B', 1), ('C', 5), ('D', 1000)]),
    T('enum', 'Es', vals=[('X', 1), ('Y', 2), ('Z', 10)], strict=True),
    T('struct', 'Leaf', [F('int', 'a'), opt('string', 's')]),
    T('struct', 'Nil', []),
    T('struct', 'Opt1', [opt('int', 'a'), rep('Leaf', 'l'), dfl('string', 's', list(b'dv'), '"dv"'), F('Nil', 'n')]),
    T('union', 'Un', [F('int', 'i'), F('string', 's'), F('Leaf', 'l'), F('double', 'd'),
                      F('void', 'v'), F('ubyte', 'b'), F('Nil', 'n'), F('Es', 'e'), F('bytes', 'x', tag=40)]),
    T('union', 'Us', [F('ubyte', 'a'), F('byte', 'b'), F('bool', 'c')]),
    T('class', 'Base', [F('int', 'b'), opt('string', 'n')], id=0),
    T('class', 'Mid', [rep('ubyte', 'm')], id=2, parent='Base'),
    T('class', 'Kid', [dfl('int', 'k', i8(7), '7'), opt('Leaf', 'l')], id=3, parent='Mid'),
    T('class', 'Kid2', [F('string', 't')], id=300, parent='Base'),
    T('class', 'Abst', [], id=5, parent='Mid', abstract=True),
    T('class', 'Fin', [F('bool', 'f')], id=65535, parent='Abst'),
    T('class', 'Solo', [opt('int', 'a'), dfl('bool', 'b', i8(1), 'true')], id=0),
    T('struct', 'Scal', [F('byte', 'i8'), F('ubyte', 'u8'), F('short', 'i16'), F('ushort', 'u16'),
                         F('int', 'i32'), F('uint', 'u32'), F('long', 'i64'), F('ulong', 'u64'),
                         F('bool', 'b'), F('double', 'd'), F('string', 's'), F('bytes', 'x'),
                         F('void', 'v'), F('En', 'e'), F('Es', 'es'), F('Leaf', 'l'),
                         F('Un', 'u'), F('Leaf', 'lr', ref=True), F('Us', 'ur', ref=True),
                         F('Base', 'o'), F('Opt1', 'p'), F('Opt1', 'pr', ref=True), F('Solo', 'so')]),
    T('struct', 'Opts', [opt('byte', 'i8'), opt('ubyte', 'u8'), opt('short', 'i16'), opt('ushort', 'u16'),
                         opt('int', 'i32'), opt('uint', 'u32'), opt('long', 'i64'), opt('ulong', 'u64'),
                         opt('bool', 'b'), opt('double', 'd'), opt('string', 's'), opt('bytes', 'x'),
                         opt('void', 'v'), opt('En', 'e'), opt('Es', 'es'), opt('Leaf', 'l'),
                         opt('Un', 'u'), opt('Us', 'us'), opt('Mid', 'o'), opt('Opt1', 'p'), opt('Solo', 'so')]),
    T('struct', 'Reps', [rep('byte', 'i8'), rep('ubyte', 'u8'), rep('short', 'i16'), rep('ushort', 'u16'),
                         rep('int', 'i32'), rep('uint', 'u32'), rep('long', 'i64'), rep('ulong', 'u64'),
                         rep('bool', 'b'), rep('double', 'd'), rep('string', 's'), rep('bytes', 'x'),
                         rep('En', 'e'), rep('Es', 'es'), rep('Leaf', 'l'),
                         rep('Un', 'u'), rep('Us', 'us'), rep('Base', 'o'), rep('Opt1', 'p')]),
    T('struct', 'Defs', [dfl('byte', 'i8', i8(-5), '-5'), dfl('ubyte', 'u8', i8(200), '200'),
                         dfl('short', 'i16', i8(-300), '-300'), dfl('ushort', 'u16', i8(60000), '60000'),
                         dfl('int', 'i32', i8(-2**31), '-(1 << 31)'), dfl('uint', 'u32', i8(2**32 - 1), '0xffffffff'),
                         dfl('long', 'i64', i8(-2**40), '-(1 << 40)'),
                         dfl('ulong', 'u64', i8(2**63 + 1), '0x8000000000000001'),
                         dfl('bool', 'b', i8(1), 'true'), dfl('bool', 'bf', i8(0), 'false'),
                         dfl('double', 'd', d8(1.5), '1.5'), dfl('string', 's', list(b'foo'), '"foo"'),
                         dfl('string', 'se', [], '""'), dfl('bytes', 'x', list(b'\x66\x00\x67')[:1], '"f"'),
                         dfl('En', 'e', i8(5), 'EN_C'), dfl('Es', 'es', i8(2), 'ES_Y'),
                         opt('int', 'z', priv=True), dfl('int', 'zd', i8(3), '3', priv=True), rep('int', 'zr', priv=True)]),
    T('struct', 'Tags', [F('int', 't1', tag=1), opt('int', 't29', tag=29), opt('string', 't30', tag=30),
                         rep('int', 't31', tag=31), opt('Leaf', 't254', tag=254), rep('ubyte', 't255', tag=255),
                         opt('double', 't256', tag=256), rep('Leaf', 't257', tag=257), opt('void', 't32767', tag=32767)]),
    T('struct', 'Cons', [F('int', 'mn', min=-10, max=10), opt('ubyte', 'mx', max=200, min=3), rep('long', 'ml', min=-2**40, max=2**40),
                         F('uint', 'nz', nz=True), rep('string', 'ne', ne=True, mno=1, mxo=3), opt('string', 'ln', mnl=2, mxl=4),
                         opt('bytes', 'le', len=3), dfl('string', 'pt', list(b'ab'), '"ab"', pat='[a-c0-9_]*'), opt('string', 'pn', pat='[^\\[\\]xX]*'),
                         opt('En', 'al', allow=['B', 'C']), opt('En', 'da', disallow=['A']), opt('Un', 'ua', allow=['i', 's', 'v']),
                         rep('Es', 'es'), opt('Leaf', 'lp', priv=True), F('ulong', 'um', min=5, max=2**63 + 5)]),
    T('struct', 'Deep', [F('Cons', 'c'), rep('Tree', 't'), opt('Deep', 'd')]),
    T('struct', 'Tree', [F('int', 'v'), rep('Tree', 'kids'), opt('Tree', 'next'), opt('Un', 'u')]),
    # mutually recursive, with a constraint reached only through the cycle
    T('struct', 'Ra', [opt('Rb', 'b'), F('int', 'c', min=1)]),
    T('struct', 'Rb', [opt('Ra', 'a'), opt('int', 'z')]),
    # the constraint is only in a child of the class of the field
    T('class', 'Cb', [opt('int', 'z')], id=0),
    T('class', 'Cc', [F('int', 'm', min=3)], id=1, parent='Cb'),
    T('struct', 'Cf', [F('Cb', 'o')]),
    # two versions of the same structure
    T('struct', 'V1', [F('int', 'a', tag=1), opt('string', 's', tag=2), rep('int', 'r', tag=4), F('short', 'w', tag=6)]),
    T('struct', 'V2', [F('long', 'a', tag=1), rep('string', 's', tag=2), opt('Leaf', 'n', tag=3), opt('int', 'r', tag=4),
                       dfl('int', 'd', i8(9), '9', tag=5), F('int', 'w', tag=6), rep('Tree', 't', tag=7), F('Opt1', 'o', tag=300)]),
    T('struct', 'V3', [F('byte', 'a', tag=1), F('ushort', 'w', tag=6)]),
    T('struct', 'Priv', [F('int', 'a'), opt('PrivC', 'c'), opt('Defs', 'd')]),
    T('struct', 'Cdat', [F('string', 'c', cd=True), rep('string', 'cs', cd=True), F('string', 's')]),
    T('class', 'PrivB', [F('int', 'a')], id=0),
    T('class', 'PrivC', [opt('int', 'b'), opt('int', 'p', priv=True)], id=7, parent='PrivB', priv=True),
]
BY = {t.name: t for t in TYPES}


def chain(name):
    """Class levels from the real class to the root."""
    out = []
    while name:
        out.append(name)
        name = BY[name].parent
    return out


def concrete(name):
    return [t.name for t in TYPES if t.kind == 'class' and name in chain(t.name) and not t.abstract]


def attrs(f):
    c, out = f.c, []
    if f.priv:
        out.append('@private')
    for k, n in (('min', 'min'), ('max', 'max'), ('mnl', 'minLength'), ('mxl', 'maxLength'), ('len', 'length'),
                 ('mno', 'minOccurs'), ('mxo', 'maxOccurs')):
        if k in c:
            out.append('@%s(%d)' % (n, c[k]))
    if c.get('cd'):
        out.append('@cdata')
    if c.get('nz'):
        out.append('@nonZero')
    if c.get('ne'):
        out.append('@nonEmpty')
    if 'pat' in c:
        out.append('@pattern("%s")' % c['pat'])
    for k in ('allow', 'disallow'):
        for a in c.get(k, ()):
            out.append('@%s(%s)' % (k, a))
    return ' '.join(out)


def camel(n):
    return n


def iop_text():
    out = ['/* generated by tools/gen_iop.py from checks/iopschema.py */', 'package vpt;', '']
    for t in TYPES:
        if t.kind == 'enum':
            if t.strict:
                out.append('@strict')
            out.append('enum %s {' % t.name)
            out += ['    %s = %d,' % nv for nv in t.vals]
        else:
            if t.priv:
                out.append('@private')
            if t.kind == 'class':
                h = ('abstract ' if t.abstract else '') + 'class ' + t.name
                if t.parent:
                    h += ' : %d : %s' % (t.id, t.parent)
            else:
                h = '%s %s' % (t.kind, t.name)
            out.append(h + ' {')
            for f in t.fields:
                a = attrs(f)
                suf = {'req': '&' if f.ref else '', 'opt': '?', 'rep': '[]', 'def': ''}[f.rep]
                out.append('    %s%d : %s%s %s%s;' % (a + ' ' if a else '', f.tag, f.ty, suf, f.name,
                                                    ' = ' + f.dtext if f.rep == 'def' else ''))
        out += ['};', '']
    return '\n'.join(out)


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    return '<<' + ', '.join(tla(x) for x in v) + '>>'


def pat_set(p):
    """Bytes matched by [...]* (ranges, escapes, negation)."""
    s = p[1:-2]
    neg = s.startswith('^')
    s = s[1:] if neg else s
    toks, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            toks.append((s[i + 1], True))
            i += 2
        else:
            toks.append((s[i], False))
            i += 1
    ok, i = set(), 0
    while i < len(toks):
        if i + 2 < len(toks) and toks[i + 1] == ('-', False):
            ok |= set(range(ord(toks[i][0]), ord(toks[i + 2][0]) + 1))
            i += 3
        else:
            ok.add(ord(toks[i][0]))
            i += 1
    return set(range(256)) - ok if neg else ok


def field_tla(t, f):
    c = f.c
    al = []
    if 'allow' in c or 'disallow' in c:
        if BY[f.ty].kind == 'enum':
            m = dict(BY[f.ty].vals)
            ids = {n: v for n, v in m.items()}
        else:
            ids = {g.name: i + 1 for i, g in enumerate(BY[f.ty].fields)}
        bad = [v for n, v in ids.items() if ('allow' in c and n not in c['allow']) or n in c.get('disallow', ())]
        al = [set(bad)]
    return ('[tag |-> %d, ty |-> "%s", r |-> "%s", d |-> %s, pr |-> %s, mn |-> %s, mx |-> %s, nz |-> %s, ne |-> %s, '
            'mnl |-> %d, mxl |-> %d, mno |-> %d, mxo |-> %d, cd |-> %s, pat |-> %s, bad |-> %s]' % (
                f.tag, f.ty, f.rep, tla([f.d]) if f.rep == 'def' else '<<>>', tla(f.priv),
                tla([i8(c['min'])]) if 'min' in c else '<<>>', tla([i8(c['max'])]) if 'max' in c else '<<>>',
                tla(bool(c.get('nz'))), tla(bool(c.get('ne'))),
                c.get('len', c.get('mnl', 0)), c.get('len', c.get('mxl', 1000000000)),
                c.get('mno', 0), c.get('mxo', 1000000000), tla(bool(c.get('cd'))),
                '<<%s>>' % tla(pat_set(c['pat'])) if 'pat' in c else '<<>>',
                '<<%s>>' % tla(al[0]) if al else '<<>>'))


def schema_tla():
    out = ['---- MODULE IopSchema ----',
           '\\* generated by tools/gen_iop.py from checks/iopschema.py', 'EXTENDS Integers, Sequences', 'Sch == [']
    rows = []
    for t in TYPES:
        rows.append('  %s |-> [k |-> "%s", id |-> %d, up |-> "%s", abs |-> %s, pr |-> %s, strict |-> %s, vals |-> %s,\n     f |-> <<%s>>]' % (
            t.name, t.kind, t.id, t.parent or '', tla(t.abstract), tla(t.priv), tla(t.strict),
            tla({v for _, v in t.vals}),
            ',\n       '.join(field_tla(t, f) for f in t.fields)))
    out.append(',\n'.join(rows))
    out.append(']')
    b = lambda x: tla(list(x.encode()))
    out.append('\\* names of the types, of their fields (in the same order) and of the values of enumerations')
    out.append('TyName == [' + ',\n  '.join('%s |-> %s' % (t.name, b(t.name)) for t in TYPES) + ']')
    out.append('FdName == [' + ',\n  '.join('%s |-> <<%s>>' % (t.name, ', '.join(b(f.name) for f in t.fields)) for t in TYPES) + ']')
    out.append('EnName == [' + ',\n  '.join('%s |-> <<%s>>' % (t.name, ', '.join('<<%d, %s>>' % (v, b(n)) for n, v in t.vals)) for t in TYPES if t.kind == 'enum') + ']')
    xt = dict(byte='byte', ubyte='unsignedByte', short='short', ushort='unsignedShort', int='int', uint='unsignedInt', long='long',
              ulong='unsignedLong', bool='boolean', double='double', string='string', bytes='base64Binary')
    out.append('\\* texts of the XML form')
    out.append('XsiType == [' + ',\n  '.join('%s |-> %s' % (k, b(' xsi:type="xsd:%s"' % v)) for k, v in xt.items()) + ']')
    out.append('Txt == [' + ',\n  '.join('%s |-> %s' % (k, b(v)) for k, v in dict(
        xn=' xsi:type="n:vpt.', nil=' xsi:nil="true"', cdo='<![CDATA[', cdc=']]>', cdx=']]]]><![CDATA[>', amp='&amp;', lt='&lt;', gt='&gt;',
        ap='&#39;', qu='&#34;', vpt='vpt.', tru='true', fal='false').items()) + ']')
    out.append('B64 == ' + b('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'))
    out.append('\\* texts and values of doubles; whether it is the text written for that value')
    out.append('Dbls == {' + ',\n  '.join('<<%s, %s, %s>>' % (b(t), tla(d8(v)), tla(c)) for t, v, c in DBLS) + '}')
    out += ['====', '']
    return '\n'.join(out)


DBLV = [1.5, 0.5, -1.25, 1e300, -3.0, 1.0, 2.0 ** -1074, 100000.0, 0.1, 2.0 ** 53 - 1, 123456789012345680.0, -(2.0 ** 63), 0.1 + 0.2, 1.7976931348623157e308, 1 / 3, 1e22, 2.0 ** 31, 4294967295.5, -0.000123456789]
DBLS = [('%.17g' % v, v, True) for v in DBLV] + [('INF', float('inf'), True), ('-INF', float('-inf'), True)] + \
    [(t, float(t), False) for t in ('2', '+1e2', '-0.125', '.5', '5.', '1e-3', '12345678.25')]


# --- values -----------------------------------------------------------------------------------
def text(ty, v):
    """Value in the driver's script syntax."""
    if ty in INTS or ty in ('bool', 'double') or ty in STRS or ty == 'void' or BY[ty].kind == 'enum':
        return 'x' + bytes(v).hex()
    t = BY[ty]
    if t.kind == 'struct':
        return '[' + struct_text(t, v) + ']'
    if t.kind == 'union':
        return '(%d%s)' % (v[0], text(t.fields[v[0] - 1].ty, v[1]))
    real = [c for c in chain_all(ty) if BY[c].id == v[0]][0]
    return '{' + real + '!' + ''.join('[' + struct_text(BY[c], l) + ']' for c, l in zip(chain(real), v[1:])) + '}'


def chain_all(ty):
    return [t.name for t in TYPES if t.kind == 'class' and ty in chain(t.name)]


def struct_text(t, v):
    return ''.join('[' + ''.join(text(f.ty, x) for x in fv) + ']' for f, fv in zip(t.fields, v))


class Gen:
    def __init__(self, rng, valid=0.9):
        self.r = rng
        self.valid = valid

    def strv(self, ty, f=None):
        r = self.r
        c = f.c if f else {}
        lo, hi = c.get('len', c.get('mnl', 0)), c.get('len', c.get('mxl', 12))
        if c.get('ne'):
            lo = max(lo, 1)
        n = r.choice([lo, hi, r.randint(lo, hi)]) if c and r.random() < self.valid else \
            r.choice([0, 1, 2, 3, 5, 8, 30]) if r.random() < 0.97 else r.choice([254, 255, 256, 300])
        if 'pat' in c and r.random() < self.valid:
            al = sorted(b for b in pat_set(c['pat']) if 32 <= b < 127)
            return [r.choice(al) for _ in range(n)]
        if ty == 'bytes':
            return [r.randrange(256) for _ in range(n)]
        return [r.choice(b'abcXYZ019_ []<>&"\\\n,') for _ in range(n)]

    def intv(self, ty, f=None):
        r = self.r
        n, sg = INTS[ty]
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << (8 * n)) - 1)
        c = f.c if f else {}
        cl, ch = c.get('min', lo), c.get('max', hi)
        if c and r.random() < self.valid:
            v = r.choice([cl, ch, r.randint(cl, ch)])
            return (v or max(1, cl)) if c.get('nz') else v
        if c:
            return min(hi, max(lo, r.choice([cl - 1, ch + 1, cl, ch, 0])))
        b = r.choice([1 << r.randrange(0, 8 * n), 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1,
                      2**32, 2**63 - 1, 2**63, 2**64 - 1, 5])
        v = r.choice([1, 1, -1]) * b + r.choice([0, 0, -1, 1])
        return min(hi, max(lo, v))

    # a value that is almost the default one
    def near(self, f):
        r = self.r
        if f.ty in STRS:
            return list(r.choice([f.d[:-1], f.d + [r.choice(b'aZ0')], f.d[1:], f.d[::-1], [c ^ 32 if 65 <= c & 95 <= 90 else c for c in f.d]]))
        n, sg = INTS[f.ty]
        v = int.from_bytes(bytes(f.d[:n]), 'little')
        h = 4 * n
        v ^= r.choice([1 << r.randrange(8 * n), r.randrange(1, 1 << h), r.randrange(1, 1 << h) << h, 1 << h, 1 << (8 * n - 1)])
        if sg and v >> (8 * n - 1):
            v -= 1 << (8 * n)
        return i8(v)

    def value(self, ty, depth=0, f=None):
        r = self.r
        if ty in INTS:
            return i8(self.intv(ty, f))
        if ty == 'bool':
            return i8(r.randrange(2))
        if ty == 'double':
            return d8(r.choice(DBLV))
        if ty in STRS:
            return self.strv(ty, f)
        if ty == 'void':
            return []
        t = BY[ty]
        if t.kind == 'enum':
            vs = [v for n, v in t.vals]
            c = f.c if f else {}
            if r.random() < self.valid:
                ok = [v for n, v in t.vals if n not in c.get('disallow', ()) and ('allow' not in c or n in c['allow'])]
                return i8(r.choice(ok))
            return i8(r.choice(vs + [3, -7, 2**31 - 1]))
        if t.kind == 'struct':
            return self.fields(t, depth)
        if t.kind == 'union':
            ks = list(range(1, len(t.fields) + 1))
            if f and 'allow' in f.c and r.random() < self.valid:
                ks = [k for k in ks if t.fields[k - 1].name in f.c['allow']]
            k = r.choice(ks)
            return [k, self.value(t.fields[k - 1].ty, depth + 1, t.fields[k - 1])]
        real = r.choice([c for c in concrete(ty) if not BY[c].priv or r.random() < 0.5] or concrete(ty))
        return [BY[real].id] + [self.fields(BY[c], depth) for c in chain(real)]

    def fields(self, t, depth):
        r = self.r
        out = []
        sparse = r.random() < 0.5
        for f in t.fields:
            if f.rep == 'req':
                out.append([self.value(f.ty, depth + 1, f)])
            elif f.rep == 'def':
                x = r.random()
                out.append([f.d if x < 0.35 else self.near(f) if x < 0.6 and not f.c and (f.ty in INTS or f.ty in STRS)
                            else self.value(f.ty, depth + 1, f)])
            elif f.rep == 'opt':
                p = (0.25 if sparse else 0.7) / (1 + depth)
                out.append([self.value(f.ty, depth + 1, f)] if r.random() < p else [])
            else:
                mx = 4 if depth == 0 else 2 if depth == 1 else 1
                lo, hi = f.c.get('mno', 0), f.c.get('mxo', mx)
                if f.c and r.random() > self.valid:
                    lo, hi = 0, hi + 2
                n = r.choice([lo, r.randint(lo, hi), r.randint(lo, hi)])
                if sparse and r.random() < 0.6:
                    n = lo
                if depth > 2:
                    n = lo
                out.append([self.value(f.ty, depth + 1, f) for _ in range(n)])
        return out

    # --- raw wire data: every legal (and some illegal) way of writing the fields of a type ---
    def w_tag(self, tag, wt):
        r = self.r
        if tag < 30 and r.random() < 0.97:
            return bytes([wt * 32 + tag])
        if tag < 256 and r.random() < 0.95:
            return bytes([wt * 32 + 30, tag])
        return bytes([wt * 32 + 31, tag % 256, tag // 256])

    def w_blk(self, tag, b):
        n = len(b)
        k = 0 if n < 256 else 1
        if self.r.random() < 0.1:
            k = self.r.randrange(k, 3)
        return self.w_tag(tag, k) + n.to_bytes((1, 2, 4)[k], 'little') + b

    def w_int(self, tag, v8, signed=True):
        v = int.from_bytes(bytes(v8), 'little', signed=True)
        for k, n in ((4, 1), (5, 2), (6, 4), (3, 8)):
            if -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)) and self.r.random() < 0.85 or n == 8:
                return self.w_tag(tag, k) + (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')

    def w_val(self, tag, ty, v):
        r = self.r
        if r.random() < 0.01:
            ty, v = 'string', [65, 66]
        if r.random() < 0.01:
            ty, v = 'long', i8(r.choice([0, 1, -1, 200, 2**31, 2**40]))
        if ty == 'double':
            return self.w_tag(tag, 3) + bytes(v)
        if ty in INTS or ty == 'bool' or (ty in BY and BY[ty].kind == 'enum'):
            return self.w_int(tag, v)
        if ty == 'void':
            return self.w_blk(tag, b'') if r.random() < 0.7 else self.w_int(tag, i8(r.choice([0, 77])))
        if ty in STRS:
            return self.w_blk(tag, bytes(v) + b'\0')
        t = BY[ty]
        if t.kind == 'union':
            return self.w_blk(tag, self.w_val(t.fields[v[0] - 1].tag, t.fields[v[0] - 1].ty, v[1]))
        return self.w_blk(tag, self.w_body(ty, v))

    def w_junk(self, tag):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return self.w_blk(tag, bytes(r.randrange(256) for _ in range(r.randrange(6))))
        if k == 1:
            return self.w_int(tag, i8(r.choice([3, -1, 70000, 2**40])))
        if k == 2:
            n = r.randint(1, 3)
            return self.w_tag(tag, 7) + n.to_bytes(4, 'little') + b''.join(self.w_junk1() for _ in range(n))
        if k == 3:
            return self.w_tag(tag, 3) + bytes(8)
        return self.w_tag(tag, 7) + (1).to_bytes(4, 'little') + bytes([7 * 32]) + (1).to_bytes(4, 'little') + bytes([4 * 32, 9])

    def w_junk1(self):
        return self.r.choice([bytes([4 * 32, 5]), bytes([0, 2, 65, 0]), bytes([3 * 32]) + bytes(8)])

    def w_fields(self, t, v):
        r = self.r
        out = b''
        last = 0
        for f, fv in zip(t.fields, v):
            if r.random() < 0.08 and f.tag > last + 1:
                out += self.w_junk(r.randint(last + 1, f.tag - 1))
            last = f.tag
            if r.random() < 0.015:
                continue
            if f.rep == 'def' and fv[0] == f.d and r.random() < 0.6:
                continue
            if f.rep == 'req' and f.ty == 'void' and r.random() < 0.8:
                continue
            if f.rep != 'rep' and fv:
                if r.random() < 0.05:
                    n = r.randint(1, 3)
                    out += self.w_tag(f.tag, 7) + n.to_bytes(4, 'little')
                    out += b''.join(self.w_val(0, f.ty, fv[0] if i == n - 1 else self.value(f.ty, 3, f))[0:] for i in range(n))
                else:
                    out += self.w_val(f.tag, f.ty, fv[0])
            elif fv:
                small = f.ty in ('byte', 'ubyte', 'short', 'ushort', 'bool')
                if len(fv) == 1 and r.random() < 0.7:
                    out += self.w_val(f.tag, f.ty, fv[0])
                elif small and r.random() < 0.7:
                    sz = INTS.get(f.ty, (1, 0))[0]
                    out += self.w_blk(f.tag, b''.join(bytes(x[:sz]) for x in fv))
                else:
                    out += self.w_tag(f.tag, 7) + len(fv).to_bytes(4, 'little') + b''.join(self.w_val(0, f.ty, x) for x in fv)
        if r.random() < 0.08:
            out += self.w_junk(last + r.randint(1, 40))
            if r.random() < 0.3:
                out += self.w_junk(last + r.randint(41, 400))
        return out

    def w_body(self, ty, v):
        r = self.r
        t = BY[ty]
        if t.kind == 'struct':
            return self.w_fields(t, v)
        if t.kind == 'union':
            return self.w_val(t.fields[v[0] - 1].tag, t.fields[v[0] - 1].ty, v[1])
        real = [c for c in chain_all(ty) if BY[c].id == v[0]][0]
        out, first = b'', True
        for c, l in zip(chain(real), v[1:]):
            b = self.w_fields(BY[c], l)
            if first and BY[c].parent is None and r.random() < 0.2 and b:
                return b
            if first or b or r.random() < 0.15:
                cid = BY[c].id
                if r.random() < 0.02:
                    cid = r.choice([0, 2, 3, 300, 5, 77, 65535])
                out += self.w_int(0, i8(cid if cid < 32768 or r.random() < 0.6 else cid - 65536)) if r.random() < 0.99 else \
                    self.w_blk(0, b'\x02')
            out += b
            first = False
        return out
