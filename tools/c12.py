"""C12: see xchg.py and specs/Exchange.tla."""
import xchg

LEVEL = "model_checking"


def run(ctx):
    xchg.run(ctx, "C12", "request", ctx.pick(1600, 24000), ctx.pick(300, 4000))
