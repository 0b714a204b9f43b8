"""C10: leaves fed with work units. Environments from WorkUnitsGen, histories judged by WorkUnits (and Query)."""
import json
import life
import lib

LEVEL = "model_checking"
EAGER = ["scan", "filter", "count", "agg", "agg2", "order", "window", "union", "unionagg"]


def expand(g, i, rng, mt):
    g = dict(g, p0=g["pp"], again="again" if g["again"] else "")
    if g["mode"] == "endless" and not (g["shape"] in ("limit", "limitunion") and not g["faults"]):
        # nothing else ends with such a feed
        if g["end"] != "drop":
            g["mode"] = "ends"
    if g["mode"] == "endless":
        g["rows"] = 4
    if g["faults"] and rng.random() < 0.4:
        g["faults"] = [dict(g["faults"][0], kind="chan", nth=rng.randrange(3), after=rng.randrange(4))] + g["faults"][1:]
    c = life.expand(g, i, rng, mt)
    for j in (0, 1):
        l = c["leaves"][j]
        l["wuf"] = g["feeds"][j]
        if not l["wuf"]:
            continue
        if g["burst"]:
            for s in l["streams"]:
                s += [[]] * rng.choice([100, 255, 256, 257, 600])
        c["leaves"][j] = l = life.spread(l)
        if g["mode"] != "ends":
            l["take"] = rng.choice([[-2], [-2], [-2, -1], [-1, -2, -2]]) if g["mode"] == "stop" else []
            for v in [l["parts"]] + list(l["splits"].values()):
                fs = [p for x in v for p in x] if v is not l["parts"] else v
                for f, p in enumerate(fs):
                    if not l["take"] or l["take"][f % len(l["take"])] == -2:
                        p.append("forever")
    return c


MAP = {"feed": "feed", "feed_put": "put", "feed_end": "fend", "wu_open": "open", "wu_get": "get", "wu_end": "uend", "wu_stop": "ustop", "wu_err": "uerr"}


def trace(c, log, full):
    g = c["g"]
    ev = []
    for e in log:
        k = MAP.get(e["ev"])
        if k:
            ev.append({"k": k, "l": e["leaf"], **{x: e[x] for x in ("f", "n", "ti", "tc", "p", "u") if x in e}})
        elif e["ev"] == "q_pend" and e["q"] == 0:
            ev.append({"k": "pend"})
        else:
            ev += life.trace(c, [e], full)["ev"]
    t = life.trace(c, [], full)
    t.update(ev=ev, p=[l["p"] for l in c["leaves"]], eager=g["shape"] in EAGER and not g["budget"] and not c["mt"])
    return t


def models(ctx):
    for c in ctx.pick(["WorkUnitsMC", "WorkUnitsMC1"], ["WorkUnitsMC", "WorkUnitsMC1", "WorkUnitsMC2", "WorkUnitsMC3"]):
        ctx.model("WorkUnitsMC", c + ".cfg")
    # WorkUnitsSibling: the finding c10-sibling-end; the others: rules the protocol needs
    for c in ("WorkUnitsSibling", "WorkUnitsNoRace", "WorkUnitsOneQueue", "WorkUnitsSilent"):
        r = ctx.tlc("WorkUnitsMC", c + ".cfg", workers=4, ok_codes=(12, 13))
        if not any(x in r.stdout for x in ("is violated", "was violated", "were violated")):
            raise lib.ToolError(f"{c} should be refuted\n{r.stdout[-1500:]}")


def run(ctx):
    kinds = [k for k in life.FAULTS if k != "encode"]
    gen = ("WorkUnitsGen", "USpec", "UEmit")
    life.run(ctx, ctx.pick(1200, 20000), kinds, lambda c, w: True, mt=ctx.pick(150, 3000), expand=expand, trace=trace, spec="WorkUnitsTrace", gen=gen, models=models)
