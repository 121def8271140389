"""C03: unordered jobs run once; waiting for a group waits for all of it."""
import c02


def check(ctx):
    c02.check(ctx, 'syn', (('ThrDeque', 'ThrDeque.cfg' if ctx.quick else 'ThrDequeBig.cfg'), ('ThrSyn', None)))
