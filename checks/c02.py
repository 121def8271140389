"""C02: serial queues run their jobs one at a time, in order, each once."""
import thrgen
FOCUS = 'queue'


def check(ctx, focus=None, models=(('ThrQueueMC', None),)):
    focus = focus or FOCUS
    exe = ctx.build('thrjob', ['thrjob.c'], variant='sched')
    for m, c in models:
        ctx.model(m, c, workers=7)
    runs = []
    nr, nprog, nsched = (14, 25, 16) if ctx.quick else (70, 40, 25)
    for i in range(nr):
        ls = []
        for l in thrgen.lines(ctx.rng, focus, nprog):
            ls.append(l)
            ls += thrgen.reseed(ctx.rng, l, nsched if ' r2' not in l and ' r3' not in l else 1)
        runs.append(('%s-%d' % (focus, i), ls))
    ctx.check_runs(exe, runs, 'ThrJobsTrace', drive_timeout=600, jobs=7)
    ctx.assumptions += ['sequentially consistent interleavings only; time is virtual',
                        'programs respect the locking order documented in checks/thrgen.py (a job only '
                        'blocks on queues above its own)']
