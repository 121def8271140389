"""Instantiates the driver template once per key kind."""
import os, re
import build


def generate():
    d = os.path.join(build.VERIF, 'drivers')
    tmpl = open(os.path.join(d, 'qhash-kind.in.h')).read()
    out, kind = [], None
    for line in open(os.path.join(d, 'qhash.c')):
        m = re.match(r'#define KIND (\w+)', line)
        if m:
            kind = m.group(1)
        if '#include "qhash-kind.in.h"' in line:
            out.append(re.sub(r'\bKIND\b', kind, tmpl).replace('#undef ' + kind, '#undef KIND'))
        else:
            out.append(line)
    dst = os.path.join(build.B, 'gen', 'qhash_gen.c')
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    build.write_if_changed(dst, ''.join(out))
    return dst
