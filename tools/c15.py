"""C15: however a query ends, its remote work and state are released. See life.py and specs/Query.tla."""
import life

LEVEL = "model_checking"


def run(ctx):
    life.run(ctx, ctx.pick(1200, 20000), list(life.FAULTS), lambda c, w: w.startswith("clean") or not c["g"]["faults"], mt=ctx.pick(150, 3000))
