"""C14: stored bitmaps."""
import qpsgen


def check(ctx):
    exe = qpsgen.build(ctx)
    rng = ctx.rng
    ctx.model('HatMC')
    if not ctx.quick:
        ctx.model('HatMC', 'HatMCBig.cfg')
    runs = []
    for i in range(21 if ctx.quick else 140):
        s = []
        for j in range(4):
            s += qpsgen.objects(rng, 'b', True, 150)
        for j in range(8):
            s += qpsgen.objects(rng, 'b', False, 200)
        for j in range(12):
            s += qpsgen.tiny(rng, 'b', 60)
        runs.append(('b%d' % i, s))
    ctx.check_runs(exe, runs, 'HatTrace', jobs=7)
