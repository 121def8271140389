"""C12: the paged store survives crashes."""
import qpsgen


def check(ctx):
    exe = qpsgen.build(ctx)
    rng = ctx.rng
    ctx.model('HatMC', 'HatMCSnap.cfg')
    if not ctx.quick:
        ctx.model('HatMC', 'HatMCBig.cfg')
    runs = []
    for i in range(35 if ctx.quick else 210):
        s = []
        for j in range(3):
            s += qpsgen.store(rng, 20)
        runs.append(('s%d' % i, s))
    ctx.check_runs(exe, runs, 'HatTrace', jobs=7)
