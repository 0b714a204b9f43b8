"""C06: stages and task counts. Random plans with declared task counts, judged by Plans.tla."""
import plans

LEVEL = "model_checking"


def run(ctx):
    plans.run(ctx, plans.randoms(ctx, ctx.pick(6000, 60000), True, 5, 10), lambda w: w.split(":")[0] in ("plan", "exec", "rows", "slice"))
