"""C05: event loop."""
import c04, elgen


def check(ctx):
    c04.check(ctx, elgen.mixed, nh=(260, 3000))
