"""C02: see xchg.py and specs/Exchange.tla."""
import xchg

LEVEL = "model_checking"


def run(ctx):
    xchg.run(ctx, "C02", "data", ctx.pick(1600, 24000))
