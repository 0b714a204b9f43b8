"""C14: a failure anywhere fails the query with its cause. See life.py and specs/Query.tla."""
import life

LEVEL = "model_checking"


def run(ctx):
    life.run(ctx, ctx.pick(1200, 20000), list(life.FAULTS), lambda c, w: w.startswith("fail"), mt=ctx.pick(150, 3000))
