"""C13: tries are sorted maps."""
import qpsgen


def check(ctx):
    exe = qpsgen.build(ctx)
    rng = ctx.rng
    ctx.model('HatMC')
    if not ctx.quick:
        ctx.model('HatMC', 'HatMCBig.cfg')
    runs = []
    for i in range(28 if ctx.quick else 140):
        s = []
        for j in range(4):
            s += qpsgen.objects(rng, 'h', True, 120)
        for j in range(6):
            s += qpsgen.objects(rng, 'h', False, 150)
        for j in range(12):
            s += qpsgen.tiny(rng, 'h', 60)
        runs.append(('h%d' % i, s))
    ctx.check_runs(exe, runs, 'HatTrace', jobs=7)
