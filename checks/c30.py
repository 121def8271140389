"""C30: text codecs (quoting, transport encodings, charsets): decode what was encoded, refuse what is malformed, stay in bounds."""


def hx(b):
    return bytes(b).hex() or '-'


def u8(cps):
    out = b''
    for c in cps:
        out += chr(c).encode('utf-8', 'surrogatepass')
    return out


EDGE = [0, 1, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x20ac, 0x394, 0x3a9, 0x192, 0x153]


def chars(rng, n, mx=0x10ffff):
    m = rng.random()
    if m < .3:
        return [rng.randrange(0x20, 0x7f) for _ in range(n)]
    if m < .55:
        return [rng.randrange(0, 0x200) for _ in range(n)]
    if m < .8:
        return [min(rng.choice(EDGE), mx) for _ in range(n)]
    return [rng.choice([rng.randrange(0x80), rng.randrange(0x800), rng.randrange(0x10000), rng.randrange(0x110000)]) & 0x1fffff if mx > 0xffff
            else rng.randrange(0x10000) for _ in range(n)]


def binary(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def text(rng, n, mx=0x10ffff):
    """UTF-8 text, sometimes damaged"""
    t = bytearray(u8(min(c, mx) for c in chars(rng, n, mx)))
    if rng.random() < .3 and t:
        for _ in range(rng.randrange(1, 3)):
            k = rng.randrange(len(t))
            x = rng.random()
            if x < .4:
                t[k] = rng.choice([0x80, 0xbf, 0xc0, 0xc3, 0xdf, 0xe0, 0xe2, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xff, rng.randrange(256)])
            elif x < .7:
                del t[k:]
            else:
                t.insert(k, rng.choice([0x80, 0xc3, 0xe2, 0xf0, 0xff]))
            if not t:
                break
    return bytes(t)


def mix(rng, pieces, n):
    return b''.join(rng.choice(pieces) for _ in range(n))


def size(rng):
    return rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 30, 57, 58, 75, 76, 77, rng.randrange(90)])


XML = [b'a', b' ', b'<', b'>', b'&', b'"', b"'", b'&lt;', b'&gt;', b'&amp;', b'&apos;', b'&quot;', b'&#39;', b'&#x27;', b'&#xe9;', b'&#8364;', b'&#x20AC;',
       b'&#65535;', b'&#xfffff;', b'&#999999;', b'&#x0;', b'<!-- c -->', b'<!---->', b'<![CDATA[<&>]]>', b'<![CDATA[]]>', b';', b'x', b'\xc3\xa9', b'-', b']',
       b'&#x10000;', b'&#1;']
XMLBAD = [b'&', b'&#', b'&#x', b'&#-5;', b'&#xg;', b'&#12a;', b'&;', b'&foo;', b'&l;', b'&ltt;', b'<!--', b'<!-', b'<![CDATA[', b'<![CDATA[x]]', b'<a', b'<!-- -- >',
          b'&#x1g;', b'&am', b'&#;', b'&#x;', b'&# 5;', b'&#+5;', b'&#x110000;', b'&#1114112;', b'&#00000039;', b'&# -3;', b'&quo;', b'&quott;', b'&LT;', b'&#X41;', b'&#x-1;', b'-->', b']]>', b'<!--->', b'<!-- ->']
QP = [b'a', b' ', b'\t', b'=', b'.', b'\r\n', b'\r', b'\n', b'\xe9', b'\x00', b'~', b'\x7f', b'word', b' \r\n', b'.\r\n', b'\r\r\n', b'..', b' ' * 3]
UNQP = [b'a', b'=', b'=3D', b'=e9', b'=E9', b'=\r\n', b'=\r', b'=\n', b'\r\n', b'\r', b'\n', b'=0', b'=zz', b'==', b'=0g', b'\x00', b'word', b'=\r\r\n']
UNQ = [b'a', b'\\', b'\\n', b'\\\\', b'\\"', b"\\'", b'\\a', b'\\b', b'\\e', b'\\t', b'\\v', b'\\f', b'\\r', b'\\0', b'\\7', b'\\12', b'\\377', b'\\400', b'\\37', b'\\40',
       b'\\077', b'\\x41', b'\\xg1', b'\\x4', b'\\x', b'\\u00e9', b'\\u20AC', b'\\u20a', b'\\ug000', b'\\u12g4', b'\\z', b'8', b'1', b'\\8', b'\\u', b'\\uFFFF', b'\x00']
ENVP = [b'$VP_A', b'${VP_A}', b'$VP_E', b'${VP_E}', b'$VP_D', b'${VP_D}', b'\\$', b'\\\\', b'\\', b'x', b' ', b'/', b'}', b'{', b'\\n', b'\\$VP_A', b'\\\\$VP_A', b'-']
ENVBAD = [b'$', b'${', b'${VP_A', b'${}', b'$VP_NONE', b'${VP_NONE}', b'$$', b'$VP_Ax', b'$ ', b'${VP_A }']
DOTS = ['.', '.', '.', '。', '．', '｡']
LBL = ['a', 'b', 'Z', '0', '-', 'é', 'É', 'ß', 'ÿ', 'Ÿ', 'ж', '中', '文', 'İ', '\u0130', '\u00ad', '\u200b', '\ufeff', 'ü', 'Ǆ', '\U00010400', '\u0221',
       '\U0001f600', '\u00a0', '_', '\u2028', '\ue000', '!', 'xn--', 'Xn--', '\x7f', '\ufffd', 'œ', 'ı']


def gsmtext(rng, n):
    pool = "@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞÆæßÉ !\"#¤%&'()*+,-./09:;<=>?¡AZÄÖÑÜ§¿azäöñüà^{}\\[~]|€\f"
    if rng.random() < .4:
        return ''.join(rng.choice(pool) for _ in range(n)).encode()
    if rng.random() < .5:
        return bytes([0x80 + rng.randrange(128) if rng.random() < .2 else rng.choice(b'abcXYZ 09[]') for _ in range(n)])
    return text(rng, n)


def one(rng, op):
    kind = rng.choice('ssmb')
    pre = binary(rng, rng.choice([0, 0, 1, 3, 20, 27, 28, 29, 30, 31]))
    var = rng.choice('aasl')
    n = size(rng)
    args = ''
    if op in ('hex', 'urlenc', 'xmlesc'):
        data = binary(rng, n) if rng.random() < .6 else bytes(rng.choice(b'a%<>&"\'\x00\x1f\x20\x7f\x80') for _ in range(n))
    elif op == 'unhex':
        data = bytes(rng.choice(b'0123456789abcdefABCDEF') for _ in range(n))
        if rng.random() < .3 and data:
            k = rng.randrange(len(data))
            data = data[:k] + rng.choice([b'g', b'G', b'/', b':', b'@', b'`', b'\x00', b'\xff', b' ']) + data[k + 1:]
    elif op in ('urldec', 'urldec_inplace'):
        data = mix(rng, [b'%41', b'%e9', b'%', b'%4', b'%zz', b'%%', b'a', b'+', b'%2', b'%25', b'%00', b'x', b'%4%41', b'%fF'], rng.randrange(12))
        if op == 'urldec_inplace':
            pre = pre if rng.random() < .3 else b''
    elif op == 'xmlunesc':
        pool = XML if rng.random() < .6 else XML + XMLBAD
        data = mix(rng, pool, rng.randrange(8))
        if rng.random() < .1 and data:
            data = data[:rng.randrange(len(data))]
    elif op == 'qpe':
        if rng.random() < .5:
            data = mix(rng, QP, rng.randrange(60))
        else:
            # around the width of a line
            data = b'x' * rng.randrange(66, 80) + mix(rng, QP, rng.randrange(1, 6)) + b'y' * rng.choice([0, 1, rng.randrange(80)])
    elif op == 'unqpe':
        data = mix(rng, UNQP, rng.randrange(14))
    elif op == 'unquoted':
        data = mix(rng, UNQ, rng.randrange(12))
    elif op == 'expandenv':
        data = mix(rng, ENVP if rng.random() < .7 else ENVP + ENVBAD, rng.randrange(9))
    elif op in ('b64', 'b64url'):
        data = binary(rng, rng.choice([n, rng.randrange(200)]))
        var = rng.choice('aaslu')
        w = rng.choice([0, 0, -1, -1, 4, 5, 7, 8, 12, 19, 64, 76, 77, 80, 100])
        args = '%d' % w
        if var == 'u':
            args += ' %d' % rng.choice([0, len(data), 1000])
            for _ in range(rng.randrange(8)):
                args += ' %d' % rng.choice([0, 1, 1, 2, 3, 4, 5, 57, rng.randrange(100)])
    elif op in ('unb64', 'unb64url'):
        import base64
        d = binary(rng, rng.randrange(40))
        t = bytearray(base64.urlsafe_b64encode(d) if op == 'unb64url' else base64.b64encode(d))
        for _ in range(rng.choice([0, 0, 1, 3])):
            t.insert(rng.randrange(len(t) + 1), rng.choice(b' \t\r\n\x0b\x0c'))
        if rng.random() < .4 and t:
            for _ in range(rng.randrange(1, 3)):
                k = rng.randrange(len(t) + 1)
                x = rng.random()
                if x < .5:
                    t.insert(k, rng.choice(b'=A+/-_!\x00\xff,@[`{.'))
                elif t and k < len(t):
                    del t[k]
        data = bytes(t)
    elif op == 'csv':
        sep = rng.choice([44, 59, 9, 124, 0, 255])
        data = bytes(rng.choice([97, 98, 32, 34, 10, 13, sep, 44]) if rng.random() < .5 else 97 for _ in range(rng.randrange(20)))
        args = str(sep)
    elif op in ('slashes', 'unslashes'):
        a = rng.choice([b'"', b'"\n', b'\n\t"', b'\\', b'ab', b'\xff', b'', b'a\\', b'aa'])
        b = bytes(rng.choice(b'"nta\\z') if rng.random() < .85 else 0 for _ in a)
        data = bytes(rng.choice(bytes(a) + b + b'\\\\ax"n') for _ in range(rng.randrange(24)))
        args = '%s %s' % (hx(a), hx(b))
        var = rng.choice('as')
    elif op == 'punyvec':
        c = [x & 0x1fffff for x in chars(rng, rng.randrange(30))]
        data = b''.join(x.to_bytes(4, 'big') for x in c)
        var = 'a'
    elif op == 'punystr':
        data = text(rng, rng.randrange(40))
    elif op == 'idna':
        f = rng.randrange(8)
        args = str(f)
        labels = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            x = rng.random()
            k = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .85 else rng.choice([40, 60, 61, 62, 63, 64])
            if x < .4:
                labels.append(''.join(rng.choice(LBL[:16]) for _ in range(k or 1)))
            elif x < .7:
                labels.append(''.join(rng.choice('abcXYZ019-') for _ in range(k)))
            else:
                labels.append(''.join(rng.choice(LBL) for _ in range(k)))
        s = ''
        for i, lab in enumerate(labels):
            s += lab + (rng.choice(DOTS) if i < len(labels) - 1 or rng.random() < .05 else '')
        data = s.encode()
        if rng.random() < .03:
            data = data[:-1]
    elif op in ('fromlatin1', 'fromlatin9'):
        data = binary(rng, n) if rng.random() < .5 else text(rng, n)
    elif op == 'tolatin1':
        data = text(rng, n, rng.choice([0xff, 0x10ffff, 0x1ff]))
        args = str(rng.choice([-1, 0, 63, 255]))
    elif op.startswith('toucs2') or op in ('lower', 'upper'):
        data = text(rng, n, rng.choice([0xffff, 0xffff, 0xffff, 0x10ffff]))
    elif op == 'normalize':
        data = text(rng, n, rng.choice([0xffff, 0x1ff, 0x10ffff]))
        args = str(rng.randrange(2))
    elif op.startswith('fromucs2'):
        data = b''.join(b'%04X' % min(c, 0xffff) for c in chars(rng, rng.choice([n, rng.randrange(40)]), 0xffff))
        if rng.random() < .2:
            data = data.lower()
        if rng.random() < .3 and data:
            x = rng.random()
            if x < .5:
                data = data[:len(data) - rng.randrange(1, 5)]
            else:
                k = rng.randrange(len(data))
                data = data[:k] + rng.choice([b'g', b' ', b'\x00', b'x']) + data[k + 1:]
    elif op == 'fromgsm':
        plan = rng.randrange(3)
        args = str(plan)
        if plan == 2:
            data = mix(rng, [b'_Oa', b'_L-', b'_e`', b"_e'", b'_gd', b'_--', b'_XX_!!', b'_XX_gl', b'_XXe', b'_XX(', b'_XX\n', b'_XX', b'_X', b'_', b'_zz', b'_XX_', b'_XX_a',
                             b'a', b'@', b']', b'}', b'[', b'\\', b'^', b'{', b'|', b'~', b'`', b'\x80', b'\xff', b'\x00', b'$', b'"', b'_u"', b'_??', b'_ss', b'_XXx', b'_O/', b'_??'], rng.randrange(14))
        else:
            data = bytes(rng.choice([27, 27, rng.randrange(128), rng.randrange(256), 0x65, 0x0a, 0x3c]) if rng.random() < .6 else rng.randrange(128) for _ in range(rng.randrange(40)))
    elif op == 'fromgsmhex':
        data = b''.join(b'%02X' % (rng.choice([27, rng.randrange(128), rng.randrange(128), 0x65]) if rng.random() < .95 else rng.randrange(256)) for _ in range(rng.randrange(20)))
        if rng.random() < .2 and data:
            data = data[:-1] if rng.random() < .5 else b'g' + data[1:]
    elif op in ('togsm', 'togsmhex', 'tocimd'):
        data = gsmtext(rng, n)
    elif op == 'gsmok':
        pool = 'abc09@£ÀÇ'
        data = gsmtext(rng, rng.randrange(6)) if rng.random() < .5 else ''.join(rng.choice(pool + '[€Δ') for _ in range(rng.randrange(8))).encode()
        args = str(rng.randrange(2))
    elif op == 'togsm7':
        kind = rng.choice('sbm')
        h = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15])
        st = rng.choice([0, 0, 1, 5])
        pre = binary(rng, st + h)
        t = gsmtext(rng, rng.randrange(40)).decode('utf-8', 'ignore') if rng.random() < .95 else None
        data = t.encode().replace(b'\x00', b'') if t is not None else gsmtext(rng, 9).replace(b'\x00', b'')
        args = '%d %d %d %d' % (st, rng.choice([46, 46, -1]), rng.randrange(2), rng.choice([-1, -1, -1, rng.randrange(40)]))
    elif op == 'fromgsm7':
        ns = rng.randrange(40)
        h = rng.choice([0, 0, 0, 1, 2, 3, 5, 6, 7, 8, 14])
        ns = max(ns, (8 * h + 6) // 7)
        bits = 0
        for i in range(ns):
            v = rng.choice([27, rng.randrange(128), rng.randrange(128), 0x65, 0x3c])
            bits |= v << (7 * i)
        data = bits.to_bytes((7 * ns + 7) // 8, 'little')
        args = '%d %d' % (ns, h)
        kind = 'm'
    elif op == 'uchr':
        data = b''
        args = str(rng.choice(EDGE + [rng.randrange(0x110000)]))
    elif op == 'utf8':
        data = text(rng, rng.randrange(20)) if rng.random() < .6 else bytes(rng.choice([0x41, 0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xe2, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xff, 0x82]) for _ in range(rng.randrange(8)))
    elif op in ('hexc', 'hexd'):
        data = binary(rng, rng.randrange(12)) if op == 'hexc' else bytes(rng.choice(b'0123456789abcdefABCDEF' + (b'g/:@`' if rng.random() < .3 else b'')) for _ in range(rng.randrange(14)))
        args = str(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 24, 25, 26]))
        var = rng.choice('as') if op == 'hexd' else 'a'
    elif op == 'cmp':
        pool = ['a', 'A', 'b', 'é', 'E', 'e', 'œ', 'oe', 'Œ', 'OE', 'o', 'ß', 'ss', 's', 'S', ' ', ' ', 'æ', 'ae', 'ÿ', 'ж', '中', 'ǆ', 'dz', 'd', 'z', 'ĳ', 'Ø', '0', '\x00', 'þ', 'Þ']
        k = rng.randrange(8)
        a = ''.join(rng.choice(pool) for _ in range(k))
        if rng.random() < .6:
            b = a
            for _ in range(rng.randrange(3)):
                p = rng.randrange(len(b) + 1)
                b = b[:p] + rng.choice(pool) + b[p + rng.randrange(2):]
            if rng.random() < .3:
                b = b.swapcase()
            if rng.random() < .3:
                b += ' ' * rng.randrange(3)
        else:
            b = ''.join(rng.choice(pool) for _ in range(rng.randrange(8)))
        pre, data = a.encode(), b.encode()
        if rng.random() < .1 and data:
            data = data[:-1] + b'\xe9'
        if rng.random() < .5:
            pre, data = data, pre
    return '%s %s %s %s %s %s' % (op, kind, hx(pre), hx(data), var, args)


OPS = ['hex', 'unhex', 'slashes', 'unslashes', 'expandenv', 'unquoted', 'urlenc', 'urldec', 'urldec_inplace', 'xmlesc', 'xmlunesc', 'qpe', 'unqpe', 'b64', 'b64url',
       'unb64', 'unb64url', 'csv', 'punyvec', 'punystr', 'idna', 'fromlatin1', 'fromlatin9', 'tolatin1', 'toucs2le', 'toucs2be', 'toucs2hex', 'fromucs2be', 'fromucs2le',
       'lower', 'upper', 'normalize', 'uchr', 'togsm', 'togsmhex', 'gsmok', 'fromgsm', 'fromgsmhex', 'tocimd', 'togsm7', 'fromgsm7', 'utf8', 'hexc', 'hexd', 'cmp']


def systematic():
    """every byte through every byte codec, every code point of the tables, every position in a line"""
    out = []
    for c in list(range(0x400)) + [0x20ac, 0x2028, 0xffff, 0x10000]:
        out.append('chartab m - - a %d' % c)
    for op in ('hex', 'urlenc', 'xmlesc', 'qpe', 'unqpe', 'unquoted', 'fromlatin1', 'fromlatin9', 'togsm', 'togsmhex', 'tocimd', 'unb64', 'unb64url', 'utf8'):
        for c in range(256):
            pad = {'unb64': b'AAA', 'unb64url': b'AAA', 'unquoted': b'\\'}.get(op, b'')
            out.append('%s m - %s a' % (op, hx(pad + bytes([c]))))
    for c in range(256):
        out.append('unhex m - %s a' % hx(bytes([0x30, c])))
        out.append('fromgsm m - %s a 0' % hx(bytes([c])))
        out.append('fromgsm m - %s a 1' % hx(bytes([0x1b, c])))
        out.append('fromgsm m - %s a 2' % hx(bytes([c])))
        out.append('b64 m - %s a -1' % hx(bytes([c, 255 - c, (7 * c) & 255])))
        out.append('csv m - %s a %d' % (hx(bytes([97, c])), 44))
    for c in range(0, 0x200):
        for op in ('lower', 'upper', 'normalize'):
            out.append('%s m - %s a 0' % (op, hx(u8([c]))))
        out.append('normalize m - %s a 1' % hx(u8([c])))
    for w in (0, 4, 8, 76, 80):
        for n in range(0, 64):
            out.append('b64 %s - %s a %d' % ('sm'[n & 1], hx([n] * n), w))
    for n in range(70, 80):
        for t in (b'\xe9', b'.', b' ', b' \r\n', b'\r\n', b'=', b'z', b'\t', b'..', b'.\r\n', b'x\xe9', b' \xe9', b'\r', b'\n'):
            out.append('qpe m - %s a' % hx(b'x' * n + t))
            out.append('qpe m - %s a' % hx(b'x' * 75 + b'y' * n + t))
    for n in range(0, 18):
        for h in range(0, 9):
            out.append('togsm7 m %s %s a 0 46 1 -1' % (hx([0xff] * h), hx(b'a' * n)))
            out.append('togsm7 m %s %s a 0 46 1 -1' % (hx([0xff] * h), hx(b'a' * n + b'[')))
            ns = (8 * h + 6) // 7 + n
            out.append('fromgsm7 m - %s a %d %d' % (hx([0xff] * h + [(37 * n + i) & 255 for i in range((7 * ns + 7) // 8 - h)]) if (7 * ns + 7) // 8 >= h else '-', ns, h))
    return out


def nameprep(rng, n):
    """labels around the borders of the string preparation tables"""
    import os
    import re
    tabs = {}
    for line in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs/CodecTables.tla')):
        m = re.match(r'(TabB1|TabProhibited|TabUnassigned) == (.*)', line)
        if m:
            tabs[m.group(1)] = [tuple(map(int, x)) for x in re.findall(r'<<(\d+),(\d+)>>', m.group(2))]
    cps = set()
    for t in tabs.values():
        for a, b in t:
            cps |= {a - 1, a, (a + b) // 2, b, b + 1}
    cps = sorted(c for c in cps if 0x80 <= c < 0x110000)
    if n and n < len(cps):
        cps = rng.sample(cps, n)
    return ['idna m - %s a %d' % (hx(u8([97, c, 98, 46, 99])), rng.choice([0, 1, 2, 3])) for c in cps]


def check(ctx):
    exe = ctx.build('codecs', ['codecs.c'], variant='asan')
    ctx.model('CodecMC')
    rng = ctx.rng
    per = 120 if ctx.quick else 1500
    runs = []
    sys_ = systematic()
    for i in range(0, len(sys_), 500):
        runs.append(('sys%02d' % (i // 500), sys_[i:i + 500]))
    np_ = nameprep(rng, 500 if ctx.quick else 0)
    for i in range(0, len(np_), 250):
        runs.append(('nameprep%02d' % (i // 250), np_[i:i + 250]))
    lines = [one(rng, op) for op in OPS for _ in range(per)]
    rng.shuffle(lines)
    for i in range(0, len(lines), 350):
        runs.append(('rnd%03d' % (i // 350), lines[i:i + 350]))
    ctx.check_runs(exe, runs, 'CodecTrace')
    ctx.assumptions += ['base 64 line widths of one to three characters are excluded (no group fits)',
                        'the string preparation of domain names follows the subset the code documents: no normalisation, no bidirectional checks']
