"""C04: timers."""
import elgen
LD = ['-Wl,--wrap=clock_gettime', '-Wl,--wrap=epoll_wait']


def check(ctx, gen=elgen.timers, nh=(60, 1200), n=(60, 90)):
    exe = ctx.build('el', ['el.c'], ldflags=LD)
    ctx.model('ELMC', 'ELMC.cfg' if ctx.quick else 'ELMCBig.cfg', workers=7)
    nr = 7 if ctx.quick else 28
    runs = []
    for i in range(nr):
        s = []
        for _ in range(nh[0] if ctx.quick else nh[1] // 4):
            s += gen(ctx.rng, ctx.rng.randrange(10, n[0] if ctx.quick else n[1]))
        runs.append(('h%d' % i, s))
    ctx.check_runs(exe, runs, 'ELTrace', jobs=7)
    ctx.assumptions += ['virtual clock: time passes only in a sleep or where the script says so',
                        'single thread, no nested loop']
