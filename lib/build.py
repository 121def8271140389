#!/usr/bin/env python3
"""Builds lib-common from /repo's working tree into /verif/.build.

A tree of symbolic links (.build/tree) mirrors the non-ignored files of
/repo/src; generated sources (IOP, tokens, gperf, flex, farch, HPACK tables)
are written into that tree, never into /repo.  Every object is cached under
the *contents* of all the files it was compiled from, so mtimes do not matter:
a change in /repo's working tree is always seen.
"""
import hashlib, os, subprocess, sys, json, shutil, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get('VP_BUILD', os.path.join(VERIF, '.build'))
TREE = os.path.join(B, 'tree')
JOBS = int(os.environ.get('VP_JOBS', '8'))

CC = 'clang'
BASE = ['-std=gnu11', '-fblocks', '-funsigned-char', '-fno-strict-aliasing',
        '-fwrapv', '-march=x86-64-v2', '-Dindex(s,c)=index__(s,c)',
        '-D_GNU_SOURCE', '-DHAS_LIBCOMMON_REPOSITORY=0', '-D__gcc_has_no_ifunc',
        '-DHAVE_LIBXML=1', '-DHAVE_OPENSSL=1', '-DHAVE_ZLIB=1', '-w',
        '-fno-omit-frame-pointer']
INC = ['-I' + TREE, '-I' + TREE + '/src/compat', '-I/usr/include/libxml2']
VARIANTS = {
    'std': ['-O1'],
    'sched': ['-O1', '-DVP_SCHED=1', '-I' + VERIF + '/drivers/sched',
              '-include', VERIF + '/drivers/sched/pre.h'],
    'asan': ['-O1', '-g', '-fsanitize=address'],
    'tsan': ['-O1', '-g', '-fsanitize=thread'],
}
# sources instrumented in the 'sched' variant: the others are taken from 'std'
SCHED_ONLY = ('core/thr', 'core/el.')
SCHED_WRAP = ['-Wl,--wrap=' + f for f in (
    'syscall', 'sched_yield', 'epoll_wait', 'usleep', 'pthread_mutex_lock', 'dlsym',
    'gettimeofday', 'clock_gettime')]
LIBS = ['-lxml2', '-lssl', '-lcrypto', '-lz', '-lpthread', '-ldl', '-lm', '-lrt']


class BuildError(Exception):
    pass


_hcache = {}
_hlock = threading.Lock()


def fhash(p):
    with _hlock:
        h = _hcache.get(p)
    if h is not None:
        return h
    try:
        with open(p, 'rb') as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = 'missing'
    with _hlock:
        _hcache[p] = h
    return h


def forget(p):
    with _hlock:
        _hcache.pop(p, None)


def run(cmd, cwd=None, what=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%s failed (%d):\n%s\n%s' % (
            what or cmd[0], r.returncode, ' '.join(cmd)[:600],
            r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout


def ensure_dir(p):
    os.makedirs(p, exist_ok=True)


GEN_SUFF = ('.iop.c', '.iop.h', '.blk.c', '.blkk.cc', '.fc.c', 'tokens.c', 'tokens.h',
            '.iop.json', '.iop.ts', '.so', '.o', '.pyx.c')


def repo_files():
    try:
        out = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files',
                              '-co', '--exclude-standard', 'src', 'build', 'tests/iop'],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        files = out.decode().split('\n')
    except Exception:
        files = []
        for top in ('src', 'build', 'tests/iop'):
            for d, _, fs in os.walk(os.path.join(REPO, top)):
                for f in fs:
                    if not f.endswith(GEN_SUFF) or f.startswith('iopctokens'):
                        files.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(f for f in files if f and os.path.lexists(os.path.join(REPO, f)))


def sync_tree():
    """Mirror /repo's sources as symlinks; drop links to files that are gone."""
    ensure_dir(TREE)
    lk = os.path.join(TREE, 'lib-common')
    if not os.path.islink(lk):
        os.symlink('src', lk)
    want = set(repo_files())
    manifest = os.path.join(B, 'tree.json')
    have = set()
    if os.path.exists(manifest):
        have = set(json.load(open(manifest)))
    for f in have - want:
        try:
            os.unlink(os.path.join(TREE, f))
        except OSError:
            pass
    for f in want:
        dst = os.path.join(TREE, f)
        src = os.path.join(REPO, f)
        if os.path.islink(dst):
            if os.readlink(dst) == src:
                continue
            os.unlink(dst)
        elif os.path.exists(dst):
            os.unlink(dst)
        ensure_dir(os.path.dirname(dst))
        os.symlink(src, dst)
    json.dump(sorted(want), open(manifest, 'w'))
    return want


def stamp_ok(stamp, cmd_key):
    try:
        d = json.load(open(stamp))
    except Exception:
        return False
    if d.get('cmd') != cmd_key:
        return False
    for p, h in d['deps'].items():
        if fhash(p) != h:
            return False
    for p in d['outs']:
        if not os.path.exists(p):
            return False
    return True


def stamp_write(stamp, cmd_key, deps, outs):
    ensure_dir(os.path.dirname(stamp))
    json.dump({'cmd': cmd_key, 'deps': {p: fhash(p) for p in deps}, 'outs': outs},
              open(stamp, 'w'))


STATS = {'compiled': 0, 'cached': 0}


def compile_one(src, obj, flags):
    """src: absolute path in the tree or in /verif."""
    cmd = [CC] + BASE + flags + INC + ['-x', 'c', '-c', src, '-o', obj,
                                       '-MD', '-MF', obj + '.d']
    key = ' '.join(cmd)
    stamp = obj + '.stamp'
    if stamp_ok(stamp, key):
        STATS['cached'] += 1
        return obj
    ensure_dir(os.path.dirname(obj))
    run(cmd, cwd=TREE, what='compile ' + src)
    STATS['compiled'] += 1
    deps = []
    txt = open(obj + '.d').read().replace('\\\n', ' ')
    for w in txt.split(':', 1)[1].split():
        if not w.startswith('/usr'):
            deps.append(w if w.startswith('/') else os.path.join(TREE, w))
    stamp_write(stamp, key, deps, [obj])
    return obj


def obj_path(variant, rel):
    return os.path.join(B, 'obj', variant, rel.replace('/', '__') + '.o')


def rule(name, cmd, deps, outs, cwd=None):
    stamp = os.path.join(B, 'stamps', name.replace('/', '__'))
    key = json.dumps(cmd)
    if stamp_ok(stamp, key):
        return
    for o in outs:
        ensure_dir(os.path.dirname(o))
        if os.path.lexists(o):
            os.unlink(o)
    if callable(cmd):
        cmd()
    else:
        run(cmd, cwd=cwd or TREE, what=name)
    for o in outs:
        forget(o)
    stamp_write(stamp, key, deps, outs)


def write_if_changed(p, content):
    try:
        if open(p).read() == content:
            return
    except OSError:
        pass
    ensure_dir(os.path.dirname(p))
    if os.path.lexists(p):
        os.unlink(p)
    open(p, 'w').write(content)
    forget(p)


def parse_sources():
    """Read the source lists of the static libraries from the wscripts."""
    res = {}

    class Dummy:
        def __getattr__(self, n):
            return Dummy()

        def __call__(self, *a, **k):
            return Dummy()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Ctx(Dummy):
        def stlib(self, target=None, source=None, **k):
            res[target] = [source] if isinstance(source, str) else list(source)
            return Dummy()

    for f, pre in (('src/wscript_build', ''), ('src/iopc/wscript_build', 'iopc/')):
        before = set(res)
        exec(compile(open(os.path.join(REPO, f)).read(), f, 'exec'), {'ctx': Ctx()})
        for t in set(res) - before:
            res[t] = [pre + s for s in res[t]]
    return res


def pmap(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(fn, *it) for it in items]
        err = None
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err


def src(p):
    return os.path.join(TREE, 'src', p)


def ar(path, objs):
    key = hashlib.sha1(('\n'.join(o + fhash(o + '.stamp') for o in objs)).encode()).hexdigest()
    st = path + '.key'
    if os.path.exists(path) and os.path.exists(st) and open(st).read() == key:
        return path
    if os.path.exists(path):
        os.unlink(path)
    ensure_dir(os.path.dirname(path))
    run(['ar', 'crsT' if False else 'crs', path] + objs)
    open(st, 'w').write(key)
    forget(path)
    return path


def gen_iop(iopc, iopfile, class_range=None):
    """iopfile: path relative to the tree (e.g. src/core/core.iop)."""
    full = os.path.join(TREE, iopfile)
    base = full[:-4]
    outs = [base + '.iop.c', base + '.iop.h', base + '-tdef.iop.h', base + '-t.iop.h']
    d = os.path.dirname(full)
    cmd = [iopc, '-l', 'c', '--c-resolve-includes', '--Wextra',
           '-I', d, '-I', TREE + '/src', '-I', TREE + '/src/core', '-I', TREE + '/src/iop']
    if class_range:
        cmd += ['--class-id-range=' + class_range]
    cmd += [full]
    deps = [iopc] + [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.iop')]
    rule('iop_' + iopfile, cmd, deps, outs)
    return outs[0]


def build_lib(variant='std', log=lambda s: None):
    """Returns the list of archives of lib-common in the given variant."""
    ensure_dir(B)
    lockf = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        return _build_lib(variant, log)
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN)
        lockf.close()


def _build_lib(variant, log):
    t0 = time.time()
    _hcache.clear()
    sync_tree()
    libs = parse_sources()
    vflags = VARIANTS['std']

    write_if_changed(src('core-version.c'),
                     'char const libcommon_id[] = "x";\n'
                     'char const libcommon_git_revision[] = "verif";\n'
                     'char const libcommon_git_sha1[] = "verif";\n')
    for a, b in (('core/str-l-obfuscate-default.c', 'core/str-l-obfuscate.c'),
                 ('iop/ic-key-default.pem', 'iop/ic-key.pem'),
                 ('iop/ic-cert-default.pem', 'iop/ic-cert.pem')):
        write_if_changed(src(b), open(src(a)).read())

    # generated sources that need no tool of lib-common
    bd = os.path.join(TREE, 'build')
    rule('flex', [bd + '/flex.sh', src('iopc/iopc-lex.l'), src('iopc/iopc-lex.c')],
         [src('iopc/iopc-lex.l'), bd + '/flex.sh'], [src('iopc/iopc-lex.c')])
    for ext in ('c', 'h'):
        o = src('net/httptokens.' + ext)
        rule('tokens' + ext, [bd + '/tokens.sh', src('net/http.tokens'), o],
             [src('net/http.tokens'), bd + '/tokens.sh'], [o])
    perf = src('net/http-hdr.c')
    rule('gperf', ['gperf', '--language=ANSI-C', '--output-file=' + perf, src('net/http-hdr.perf')],
         [src('net/http-hdr.perf')], [perf])
    for k in ('encoding', 'decoding'):
        o = src('net/hpack-huffman-%s-table.c' % k)
        rule('hpack' + k, ['python3', src('net/hpack-generate-huffman-tables.py'), 'for-' + k,
                           '--rfc', src('net/rfc7541-tables.txt'), '--out', o],
             [src('net/hpack-generate-huffman-tables.py'), src('net/rfc7541-tables.txt')], [o])

    def cobj(rel, var='std'):
        return obj_path(var, rel)

    # phase A: minimal library, farchc, iopc
    minimal = libs['libcommon-minimal']
    items = [(src(s), cobj(s), vflags) for s in minimal]
    iopc_srcs = [s for s in libs['libiopc'] if not s.endswith('.fc')]
    iopc_srcs = [s[:-2] + '.c' if s.endswith('.l') else s for s in iopc_srcs]
    early = [s for s in iopc_srcs if 'iopc-dso' not in s]
    items += [(src(s), cobj(s), vflags) for s in early + ['iopc/iopc.c', 'tools/farchc.c']]
    pmap(compile_one, items)
    min_objs = [ar(os.path.join(B, 'lib', 'std', 'libminimal.a'), [cobj(s) for s in minimal])]

    farchc = os.path.join(B, 'bin', 'farchc')
    iopc = os.path.join(B, 'bin', 'iopc')
    ensure_dir(os.path.join(B, 'bin'))

    def link(out, objs, extra=()):
        cmd = [CC, '-o', out] + list(objs) + list(extra) + LIBS
        deps = [o for o in objs]
        for o in objs:
            forget(o)
        rule('link_' + os.path.basename(out), cmd, deps, [out])

    link(farchc, [cobj('tools/farchc.c')] + min_objs)
    for fc in ('iopc/iopc.fc', 'iop/rpc-channel.fc'):
        deps = [farchc, src(fc)]
        lines = [l.strip() for l in open(src(fc)) if l.strip() and l[0] != '#'][1:]
        deps += [os.path.join(os.path.dirname(src(fc)), l) for l in lines]
        rule('fc_' + fc, [farchc, '-c', '-o', src(fc + '.c'), src(fc)], deps, [src(fc + '.c')])
    compile_one(src('iopc/iopc-dso.c'), cobj('iopc/iopc-dso.c'), vflags)
    bootlib = ar(os.path.join(B, 'lib', 'std', 'libiopcboot.a'), [cobj(s) for s in iopc_srcs])
    link(iopc, [cobj('iopc/iopc.c'), bootlib] + min_objs)

    # phase B: IOP packages and the full library
    iop_c = []
    for s in libs['libcommon-iop']:
        gen_iop(iopc, 'src/' + s, '1-499')
        iop_c.append(s + '.c')
    gen_iop(iopc, 'src/iopc/iopsq.iop')

    full = []
    for s in libs['libcommon']:
        if s.endswith('.fc'):
            continue
        if s.endswith('.perf'):
            s = s[:-5] + '.c'
        if s.endswith('.tokens'):
            s = s[:-7] + 'tokens.c'
        full.append(s)
    iopsq = ['iopc/iopc-iopsq.c', 'iopc/iopsq.iop.c']
    vf = VARIANTS[variant]
    allsrc = list(minimal) + iop_c + full

    def vof(s):
        if variant == 'sched' and not s.startswith(SCHED_ONLY):
            return 'std'
        return variant
    pmap(compile_one, [(src(s), cobj(s, vof(s)), VARIANTS[vof(s)]) for s in allsrc + iopsq +
                       [x for x in iopc_srcs]])
    lib = ar(os.path.join(B, 'lib', variant, 'libcommon.a'),
             [cobj(s, vof(s)) for s in allsrc])
    libiopc = ar(os.path.join(B, 'lib', variant, 'libiopc.a'),
                 [cobj(s, vof(s)) for s in iopsq + iopc_srcs])
    log('lib-common[%s]: %d compiled, %d cached, %.1fs' % (
        variant, STATS['compiled'], STATS['cached'], time.time() - t0))
    return lib, libiopc, iopc


def build_driver(name, sources, variant='std', iops=(), flags=(), ldflags=(), extra_objs=(),
                 use_iopc=False, log=lambda s: None):
    """Compile /verif/drivers sources (and IOP packages) and link with lib-common."""
    lib, libiopc, iopc = build_lib(variant, log)
    lockf = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        items = []
        objs = []
        dflags = VARIANTS[variant] + list(flags) + ['-I' + VERIF + '/drivers', '-I' + B + '/iop/' + name]
        for i in iops:
            # IOP packages of the harness live in /verif/drivers/iop
            dst = os.path.join(B, 'iop', name, os.path.basename(i))
            ensure_dir(os.path.dirname(dst))
            if not os.path.islink(dst):
                os.symlink(i, dst)
            rel = os.path.relpath(dst, TREE)
            c = gen_iop(iopc, rel)
            o = obj_path(variant, 'drv__%s__%s' % (name, os.path.basename(c)))
            items.append((c, o, dflags))
            objs.append(o)
        for s in sources:
            p = s if s.startswith('/') else os.path.join(VERIF, 'drivers', s)
            o = obj_path(variant, 'drv__%s__%s' % (name, os.path.basename(s)))
            items.append((p, o, dflags))
            objs.append(o)
        if variant == 'sched':
            o = obj_path('std', 'drv__vpsched')
            items.append((os.path.join(VERIF, 'drivers', 'sched', 'vpsched.c'), o, VARIANTS['std']))
            objs.append(o)
            ldflags = list(ldflags) + SCHED_WRAP
        pmap(compile_one, items)
        out = os.path.join(B, 'bin', name)
        san = [f for f in VARIANTS[variant] if f.startswith('-fsanitize')]
        cmd = [CC, '-o', out] + san + objs + list(extra_objs) + list(ldflags)
        if use_iopc:
            cmd += [libiopc]
        cmd += ['-Wl,--whole-archive', lib, '-Wl,--no-whole-archive'] + LIBS
        key = json.dumps([cmd, [fhash(o + '.stamp') for o in objs], open(lib + '.key').read(),
                          open(libiopc + '.key').read() if use_iopc else ''])
        kf = out + '.key'
        if not (os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key):
            run(cmd, what='link ' + name)
            open(kf, 'w').write(key)
        return out
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN)
        lockf.close()


if __name__ == '__main__':
    for v in (sys.argv[1:] or ['std']):
        build_lib(v, print)
