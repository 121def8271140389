"""C01: lock-free queues deliver every item once, in order, to one consumer."""


def check(ctx):
    exe = ctx.build('mpsc', ['mpsc.c'], variant='sched')
    for cfg in (['Comb', 'PopbS', 'PopnS'] if ctx.quick else ['Comb', 'Comb3', 'Popb', 'Popn', 'Popb3']):
        ctx.model('MPSCImpl', 'MPSCImpl%s.cfg' % cfg, workers=7)
    runs = []
    q = ctx.quick
    kinds = ['comb', 'thr', 'popb', 'popn', 'mix']
    for k in kinds:
        for n, prods in enumerate(['1 1', '2 1', '2 2', '1 1 1'] + ([] if q else ['2 2 1', '3 2', '1 1 1 1'])):
            pre = (4 if prods == '1 1' else 3) + (0 if q else 1)
            runs.append(('sys-%s-%d' % (k, n), 'sys %d %d %s %s' % (pre, 20000 if q else 150000, k, prods)))
    runs.append(('sys-spsc', '\n'.join('sys %d %d spsc %d' % (5 if q else 6, 20000 if q else 150000, n)
                                       for n in ([2, 3, 5] if q else [2, 3, 4, 6]))))
    for i in range(1 if q else 12):
        for k in kinds:
            s = ctx.rng.randrange(10**9)
            runs.append(('rnd-%s-%d' % (k, i), '\n'.join('rnd %d %d %s %s' % (s, 700 if q else 2500, k, p)
                                                       for p in ('4 4', '3 2 3', '2 2 2 2', '1 6'))))
        runs.append(('rnd-spsc-%d' % i, '\n'.join('rnd %d %d spsc %d' % (ctx.rng.randrange(10**9), 400, n)
                                                  for n in (6, 12, 23))))
    ctx.check_runs(exe, runs, 'MPSCTrace', drive_timeout=300, jobs=7)
    ctx.assumptions += ['sequentially consistent interleavings only: reorderings that x86 allows beyond '
                        'them (store buffering) are not explored',
                        'the drain protocol of the documentation is followed by the callers']
