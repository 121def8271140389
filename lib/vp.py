"""Runner shared by every check: builds the driver, runs it on scripts, has TLC
validate the recorded traces against the TLA+ specification and model-check the
specification itself, and writes the evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
import build  # noqa: E402

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPECS = os.path.join(VERIF, 'specs')


class CheckError(Exception):
    """The machinery failed: neither verdict."""


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        m = re.search(r'The depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0 and 'No error has been found' in self.out


def tlc(spec_dir, module, cfg, workdir, env=None, workers=1, timeout=600, extra=(), heap='2g',
        fast=True):
    meta = tempfile.mkdtemp(prefix='meta-', dir=workdir)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
    if fast:
        cmd += ['-XX:TieredStopAtLevel=1']
    cmd += ['-XX:CICompilerCount=2' if not fast else '-XX:CICompilerCount=1',
            '-DTLA-Library=' + SPECS + '/lib',
            '-cp', JARS, 'tlc2.TLC', '-config', cfg, '-metadir', meta,
            '-workers', str(workers), '-noGenerateSpecTE', '-nowarning'] + list(extra) + [module]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors='replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b'').decode(errors='replace') + '\nTIMEOUT'
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out)


class Ctx:
    def __init__(self, prop, level='model_checking', spec=None):
        self.prop = prop
        self.level = level
        self.spec = spec
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.t0 = time.time()
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.notes = {}

    def log(self, s):
        print('[%s %6.1fs] %s' % (self.prop, time.time() - self.t0, s), flush=True)

    # ---- building -----------------------------------------------------
    def build(self, name, sources, **kw):
        try:
            return build.build_driver(name, sources, log=self.log, **kw)
        except build.BuildError as e:
            raise CheckError(str(e))

    # ---- model checking -------------------------------------------------
    def model(self, module, cfg=None, workers=4, timeout=600, extra=(), heap='6g', min_distinct=2,
              count=True):
        """Exhaustive check of the specification itself.  A failure here is a
        failure of the model, not of the code: an error of the check."""
        r = tlc(SPECS, module + '.tla', cfg or module + '.cfg', self.work, workers=workers,
                timeout=timeout, extra=extra, heap=heap, fast=False)
        if not r.ok:
            raise CheckError('model %s/%s failed (rc %d):\n%s' % (module, cfg, r.rc, r.out[-3000:]))
        if r.distinct < min_distinct:
            raise CheckError('model %s is vacuous: %d states' % (module, r.distinct))
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        self.log('model %s %s: %d distinct states, %d transitions' % (
            module, cfg or '', r.distinct, r.generated))
        self.notes.setdefault('models', []).append(
            {'module': module, 'cfg': cfg or module + '.cfg', 'distinct': r.distinct,
             'generated': r.generated, 'depth': r.depth})
        return r

    # ---- driving the code -----------------------------------------------
    def drive(self, exe, script, tag, args=(), timeout=120, env=None, cwd=None):
        """Runs the driver on a script (text lines on stdin); it writes ndjson
        events on the file named by VP_OUT.  Returns the trace path."""
        sp = os.path.join(self.work, tag + '.script')
        tp = os.path.join(self.work, tag + '.ndjson')
        with open(sp, 'w') as f:
            f.write(script if isinstance(script, str) else '\n'.join(script) + '\n')
        e = dict(os.environ)
        e.update({'VP_OUT': tp, 'VP_SEED': str(self.seed),
                  'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'})
        e.update(env or {})
        scratch = cwd or tempfile.mkdtemp(prefix='run-', dir=self.work)
        res = {'tag': tag, 'script': sp, 'trace': tp, 'rc': None, 'err': '', 'args': list(args),
               'exe': exe, 'env': env or {}}
        try:
            with open(sp) as fin:
                p = subprocess.run([exe] + list(args), stdin=fin, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, cwd=scratch, env=e, timeout=timeout)
            res['rc'] = p.returncode
            res['err'] = p.stdout.decode(errors='replace')[-3000:]
        except subprocess.TimeoutExpired as ex:
            res['rc'] = 'timeout'
            res['err'] = (ex.stdout or b'').decode(errors='replace')[-3000:]
        if not cwd:
            shutil.rmtree(scratch, ignore_errors=True)
        return res

    # ---- trace validation -------------------------------------------------
    def validate(self, module, trace, cfg=None, timeout=600, heap='3g', env=None, workers=1):
        """Returns (accepted, n_events, detail)."""
        n = 0
        with open(trace) as f:
            for _ in f:
                n += 1
        if n == 0:
            raise CheckError('empty trace ' + trace)
        e = {'VP_TRACE': trace}
        e.update(env or {})
        r = tlc(SPECS, module + '.tla', cfg or module + '.cfg', self.work, env=e,
                timeout=timeout, heap=heap, workers=workers)
        if r.ok:
            if r.distinct < 2:
                raise CheckError('trace spec %s took no step' % module)
            return True, n, r, ''
        out = r.out
        if 'TraceAccepted' in out or 'TraceFollowed' in out or 'is violated' in out or 'Postcondition' in out:
            return False, n, r, out
        if r.rc == -1:
            raise CheckError('TLC timed out on %s' % trace)
        if 'ndDeserialize' in out:
            raise CheckError('malformed trace %s:\n%s' % (trace, out[-1500:]))
        # evaluation error at a trace line: a value the specification has no meaning for
        if 'Semantic error' in out or 'Parse' in out and 'Parsing or semantic analysis failed' in out:
            raise CheckError('specification error in %s:\n%s' % (module, out[-3000:]))
        if 'java.lang.OutOfMemory' in out or 'StackOverflow' in out or 'GC overhead' in out:
            raise CheckError('TLC resources on %s:\n%s' % (module, out[-2000:]))
        if re.search(r'Error: (Evaluating|The|In|Attempted|TLC threw|Assumption)', out) or 'attempted' in out.lower():
            return False, n, r, out
        raise CheckError('TLC failed on %s (rc %s):\n%s' % (module, r.rc, out[-3000:]))

    def check_runs(self, exe, runs, module, cfg=None, args=(), jobs=6, drive_timeout=120,
                   validate_timeout=600, what='history', env=None, heap='3g', sample=True, post=None,
                   variants=None):
        """runs: list of (tag, script).  Drive each, validate each; a crash, hang or
        rejection that repeats is a violation."""
        def one(item):
            tag, script = item[0], item[1]
            a = list(args) + list(item[2] if len(item) > 2 else ())
            for attempt in (0, 1):
                r = self.drive(exe, script, tag + ('' if attempt == 0 else '.again'), a,
                               drive_timeout, env)
                bad = None
                if r['rc'] == 3:
                    raise CheckError('driver refused the script %s: %s' % (tag, r['err']))
                if r['rc'] != 0:
                    bad = 'driver ended with %s: %s' % (r['rc'], r['err'][-800:])
                    n = 0
                    tr = None
                else:
                    if post:
                        post(r)
                    acc, n, tr, detail = self.validate(module, r['trace'], cfg, validate_timeout, heap)
                    if not acc:
                        bad = 'trace rejected: ' + self.explain(r['trace'], tr, detail)
                if bad is None:
                    return r, n, tr, None
            return r, n, tr, bad

        with ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, runs))
        for r, n, tr, bad in results:
            if bad:
                self.violation(r, bad, module, what)
            else:
                self.traces += 1
                self.events += n
                self.transitions += tr.generated
                self.states += tr.distinct
                if sample and len(self.samples) < 4:
                    with open(r['trace']) as f:
                        head = [next(f).strip()[:300] for _ in range(min(n, 6))]
                    self.samples.append({'run': r['tag'], 'events': n, 'head': head})
            if not bad and os.path.exists(r['trace']):
                self.account(r['trace'])
                os.unlink(r['trace'])
        self.log('%d runs against %s, %d events, %d violations' % (
            len(runs), module, self.events, len(self.violations)))

    def account(self, trace):
        ops = self.notes.setdefault('events_by_op', {})
        with open(trace) as f:
            for line in f:
                m = re.match(r'\{"op":"([^"]+)"', line)
                if m:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1

    def explain(self, trace, tr, detail):
        k = None
        m = re.findall(r'VPLINE (\d+)', detail)
        if m:
            k = max(int(x) for x in m)
        if k is None:
            k = max(tr.depth - 1, 0) + 1 if tr.depth else None
        lines = open(trace).read().split('\n')
        s = ''
        if k is not None and 0 < k <= len(lines):
            s = 'line %d: %s' % (k, lines[k - 1][:700])
        if not s:
            m = re.search(r'Error: .*', detail)
            s = m.group(0) if m else detail[-400:]
        return s

    def violation(self, r, text, module, what='history'):
        d = os.path.join(VERIF, 'replays', '%s-%s-%d' % (self.prop, self.tier, len(self.violations)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        info = {'property': self.prop, 'what': text, 'spec': module, 'seed': self.seed}
        if r:
            for k in ('script', 'trace'):
                if r.get(k) and os.path.exists(r[k]):
                    shutil.copy(r[k], d)
            info.update({'driver': r.get('exe'), 'args': r.get('args'), 'env': r.get('env'),
                         'rc': r.get('rc')})
        json.dump(info, open(os.path.join(d, 'violation.json'), 'w'), indent=1)
        self.violations.append(d)
        self.log('violating %s: %s' % (what, text[:1200]))
        print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)

    # ---- the end ----------------------------------------------------------
    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or [{'note': 'none: no run was accepted'}],
               'events_validated': self.events}
        cov.update(self.cov)
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.log('states %d, transitions %d, traces %d, events %d, violations %d' % (
            self.states, self.transitions, self.traces, self.events, len(self.violations)))


def main(prop, fn, level='model_checking'):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
        if not ctx.violations and ctx.traces == 0:
            raise CheckError('nothing was validated')
        ctx.finish()
        rc = 1 if ctx.violations else 0
    except CheckError as e:
        print('CHECK-ERROR %s: %s' % (prop, e), flush=True)
        if ctx.violations:
            ctx.finish()
            rc = 1
        else:
            rc = 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)
