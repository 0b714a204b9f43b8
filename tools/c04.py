"""C04: isolated unions. Every small union and random nested ones, judged by Plans.tla."""
import plans

LEVEL = "model_checking"
DECLS = ["", "d1", "d2", "d5", "m1", "m2", "m3"]


def run(ctx):
    ctx.model("UnionSplit", ctx.pick("UnionSplit.cfg", "UnionSplit2.cfg"))
    plans.refuted(ctx, "UnionSplit", "UnionSplitOver.cfg")
    cases = plans.unions(ctx, ctx.pick("1, 2, 3", "1, 2, 3, 4"), DECLS, ctx.pick("1, 2, 3, 5", "1, 2, 3, 4, 5, 7"), ctx.pick("1, 3", "1, 2, 3"))
    cases += [c for c in plans.randoms(ctx, ctx.pick(3000, 40000), True, 5, 9) if "union" in str(c["plan"])]
    plans.run(ctx, cases, lambda w: w.split(":")[0] in ("slice", "rows", "exec"))
