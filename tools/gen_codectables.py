#!/usr/bin/env python3
"""Generates specs/CodecTables.tla: the character tables of the codec specification, from independent sources:
- the stringprep tables of RFC 3454 (python's stringprep module, Unicode 3.2),
- simple case mappings and canonical decompositions (python's unicodedata) with the documented deviations,
- the GSM 03.38 alphabet, windows-1252 and ISO 8859-15 (python's codecs)."""
import stringprep, unicodedata, sys


def ranges(pred, lo=0x80, hi=0x110000):
    out, start = [], None
    for c in range(lo, hi):
        p = pred(c)
        if p and start is None:
            start = c
        if not p and start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, hi - 1))
    return out


b1 = lambda c: stringprep.in_table_b1(chr(c))
prohib = lambda c: not b1(c) and any(f(chr(c)) for f in (
    stringprep.in_table_c12, stringprep.in_table_c22, stringprep.in_table_c3, stringprep.in_table_c4, stringprep.in_table_c5,
    stringprep.in_table_c6, stringprep.in_table_c7, stringprep.in_table_c8, stringprep.in_table_c9))
unassigned = lambda c: stringprep.in_table_a1(chr(c)) and not prohib(c) and not b1(c)


def simple(c, up):
    s = chr(c).upper() if up else chr(c).lower()
    return ord(s) if len(s) == 1 else c


UP = [simple(c, True) for c in range(512)]
LO = [simple(c, False) for c in range(512)]
# documented deviations: micro sign kept; case pairs outside the table's Unicode version are kept
UP[0xB5] = 0xB5
LO[0x130] = 0x69


def tla_ranges(name, r):
    return '%s == << %s >>' % (name, ', '.join('<<%d,%d>>' % x for x in r))


def tla_seq(name, v):
    return '%s == << %s >>' % (name, ', '.join(str(x) for x in v))


if __name__ == '__main__':
    print(len(ranges(b1)), len(ranges(prohib)), len(ranges(unassigned)), file=sys.stderr)
    EXC = {0xc6: 'AE', 0xd8: 'O', 0xdf: 'ss', 0xe6: 'ae', 0xf8: 'o', 0x110: 'D', 0x111: 'd', 0x126: 'H', 0x127: 'h', 0x131: 'i',
           0x132: 'IJ', 0x133: 'ij', 0x13f: 'L', 0x140: 'l', 0x141: 'L', 0x142: 'l', 0x149: 'n', 0x14a: 'N', 0x14b: 'n', 0x152: 'OE',
           0x153: 'oe', 0x166: 'T', 0x167: 't', 0x17f: 's', 0x180: 'b', 0x181: 'B', 0x187: 'C', 0x188: 'c', 0x189: 'D', 0x18a: 'D',
           0x193: 'G', 0x1af: '\u01af', 0x1b0: '\u01b0', 0x1b5: 'Z', 0x1b6: 'z', 0x1c4: 'DZ', 0x1c5: 'Dz', 0x1c6: 'dz', 0x1c7: 'LJ',
           0x1c8: 'Lj', 0x1c9: 'lj', 0x1ca: 'NJ', 0x1cb: 'Nj', 0x1cc: 'nj', 0x1e2: 'AE', 0x1e3: 'ae', 0x1e4: 'G', 0x1e5: 'g',
           0x1ee: '\u01ee', 0x1ef: '\u01ef', 0x1f1: 'DZ', 0x1f2: 'Dz', 0x1f3: 'dz', 0x1fc: 'AE', 0x1fd: 'ae', 0x1fe: 'O', 0x1ff: 'o'}

    def cs(c):
        if c in EXC:
            return [ord(x) for x in EXC[c]]
        return [ord(x) for x in unicodedata.normalize('NFD', chr(c)) if not unicodedata.combining(x)] or [c]

    CS = [cs(c) for c in range(512)]
    CI = [[UP[x] if x < 512 else x for x in v] for v in CS]
    GSM = ("@\xa3$\xa5\xe8\xe9\xf9\xec\xf2\xc7\n\xd8\xf8\r\xc5\xe5\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\x1b\xc6\xe6\xdf\xc9"
           " !\"#\xa4%&'()*+,-./0123456789:;<=>?\xa1ABCDEFGHIJKLMNOPQRSTUVWXYZ\xc4\xd6\xd1\xdc\xa7\xbfabcdefghijklmnopqrstuvwxyz\xe4\xf6\xf1\xfc\xe0")
    assert len(GSM) == 128
    EXT = {0x0a: '\f', 0x14: '^', 0x28: '{', 0x29: '}', 0x2f: '\\', 0x3c: '[', 0x3d: '~', 0x3e: ']', 0x40: '|', 0x65: '\u20ac'}
    # transliterations of characters which are not in the alphabet (best effort, windows-1252 for 0x80 to 0x9f)
    TR = {'\t': ' ', '`': "'", '\x80': '\u20ac', '\x82': ',', '\x83': 'f', '\x84': '"', '\x88': '^', '\x8a': 'S', '\x8b': '<', '\x8c': 'OE', '\x8e': 'Z',
          '\x91': "'", '\x92': "'", '\x93': '"', '\x94': '"', '\x96': '-', '\x97': '-', '\x98': '~', '\x99': 'tm', '\x9a': 's', '\x9b': '>', '\x9c': 'oe', '\x9e': 'z', '\x9f': 'Y',
          '\xa0': ' ', '\xa2': 'c', '\xa6': '|', '\xa8': '"', '\xa9': 'c', '\xaa': 'a', '\xab': '"', '\xac': '-', '\xad': '-', '\xae': 'r', '\xaf': '-',
          '\xb2': '2', '\xb3': '3', '\xb4': "'", '\xb5': 'u', '\xb7': '.', '\xb9': '1', '\xba': 'o', '\xbb': '"', '\xd0': 'D', '\xd7': 'x', '\xf0': 'd', '\xf7': '/', '\xe7': 'c'}
    enc = {c: i for i, c in enumerate(GSM) if i != 0x1b}
    enc.update({c: 0x1b00 + i for i, c in EXT.items()})
    E = []
    for c in range(256):
        ch = chr(c)
        if ch in enc:
            E.append(enc[ch])
        elif ch in TR:
            t = TR[ch]
            E.append(enc[t] if len(t) == 1 else enc[t[0]] * 256 + enc[t[1]])
        elif c >= 0xc0 and len(unicodedata.normalize('NFD', ch)) == 2:
            E.append(enc[unicodedata.normalize('NFD', ch)[0]])
        else:
            E.append(-1)
    G = [ord(c) for c in GSM]
    G[0x1b] = -1
    G += [ord(EXT[i]) if i in EXT else -1 for i in range(128)]
    w = bytes(range(0x80, 0xa0))
    L1 = [ord(bytes([b]).decode('cp1252')) if b not in (0x81, 0x8d, 0x8f, 0x90, 0x9d) else b for b in w]
    L9 = [ord(bytes([b]).decode('iso8859-15')) for b in range(0xa0, 0xc0)]
    out = ['---------------------------- MODULE CodecTables ----------------------------',
           'EXTENDS Integers',
           '(* Generated by tools/gen_codectables.py: character tables, from sources independent of lib-common. *)']
    out += [tla_ranges('TabB1', ranges(b1)), tla_ranges('TabProhibited', ranges(prohib)), tla_ranges('TabUnassigned', ranges(unassigned)),
            tla_seq('TabUpper', UP), tla_seq('TabLower', LO),
            'TabCs == << %s >>' % ', '.join('<<%s>>' % ','.join(map(str, v)) for v in CS),
            'TabCi == << %s >>' % ', '.join('<<%s>>' % ','.join(map(str, v)) for v in CI),
            tla_seq('TabGsm', G), tla_seq('TabToGsm', E), tla_seq('TabCp1252', L1), tla_seq('TabLatin9', L9)]
    out.append('=' * 77)
    open('/verif/specs/CodecTables.tla', 'w').write('\n'.join(out) + '\n')
