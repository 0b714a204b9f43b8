"""C07: joins and row limits mean what Joins.tla says, however the plan is cut into stages."""
import json
from concurrent.futures import ThreadPoolExecutor
import lib, c01, plans

LEVEL = "model_checking"


def lower(x, n=[0]):
    """A plan of Joins.tla -> a physical plan."""
    op = x["op"]
    if op == "leaf":
        return x
    if op == "gather":      # placed by the user
        return {"op": "ngather", "tasks": x["tasks"], "consumers": 1, "in": lower(x["in"])}
    if op == "union":
        return {"op": "union", "ins": [lower(y) for y in x["ins"]]}
    one = lambda y: y if y["op"] in ("coalesce", "spm", "glimit") or (y["op"] == "sort" and not y["each"]) else {"op": "coalesce", "in": y}
    if op == "cross":
        return {"op": "cross", "l": one(lower(x["l"])), "r": lower(x["r"])}
    if op == "join":
        l, r = lower(x["l"]), lower(x["r"])
        j = {"type": x["type"], "filt": x["filt"], "null_aware": x["na"]}
        hsh = lambda y: {"op": "hash", "n": x["n"], "in": y}
        srt = lambda y: {"op": "sort", "col": 0, "each": True, "in": hsh(y)}
        if x["how"] == "part":
            return dict(j, op="hj", mode="part", l=hsh(l), r=hsh(r))
        if x["how"] == "smj":
            return dict(j, op="smj", l=srt(l), r=srt(r))
        if x["how"] == "nlj":
            return dict(j, op="nlj", l=one(l), r=r)
        return dict(j, op="hj", mode="collect", l=one(l), r=r)
    i = lower(x["in"])
    if op in ("tap", "hash", "rr"):
        return dict(x, **{"in": i})
    if op == "order":
        c = x["col"] - 1
        return {"op": "spm", "col": c, "in": {"op": "sort", "col": c, "each": True, "in": i}}
    s, f = x["skip"], x["fetch"]
    end = None if f < 0 else s + f
    g = lambda y: {"op": "glimit", "skip": s, "fetch": None if f < 0 else f, "in": y}
    if op == "limit":
        if x["form"] == 1 and end is not None:
            return g({"op": "coalesce", "fetch": end, "in": {"op": "llimit", "fetch": end, "in": i}})
        if x["form"] >= 2 and s == 0:
            return {"op": "coalesce", "fetch": f, "in": i}
        return g(one(i))
    c = x["col"] - 1
    sort = lambda fe, y: {"op": "sort", "col": c, "each": True, "fetch": fe, "in": y}
    spm = lambda fe, y: {"op": "spm", "col": c, "fetch": fe, "in": y}
    if x["form"] == 1:
        return g(spm(None, sort(None, i)))
    if x["form"] == 2 and s == 0:
        return spm(f, sort(f, i))
    if x["form"] == 3:
        return g({"op": "sort", "col": c, "each": False, "in": one(i)})
    return g(spm(end, sort(end, i)))


def placed(g, x, rng):
    """Some of the limits and orders right above a leaf get a network boundary that the user places between them."""
    if x["op"] == "leaf":
        return x
    x = {k: [placed(g, y, rng) for y in v] if k == "ins" else placed(g, v, rng) if k in ("in", "l", "r") else v for k, v in x.items()}
    if x["op"] in ("limit", "olimit", "order") and x["in"]["op"] == "leaf" and rng.random() < 0.6:
        if x["op"] == "olimit" and x["fetch"] > 0:      # enough rows for the limit to matter within a task
            g["leaves"][x["in"]["i"]]["keys"] += [rng.randint(-1, 4) for _ in range(rng.randint(0, 6))]
        x["in"] = {"op": "gather", "tasks": rng.randint(1, g["workers"]), "in": x["in"]}
    return x


def num(rows):
    return [[-1 if v is None else int(v) for v in r] for r in rows]


def case(g, i, rng):
    plan = g["stack"][0]["x"]
    plain = lower(plan)
    if not g["dyn"]:
        plan = placed(g, plan, rng)
    leaves = []
    for j, l in enumerate(g["leaves"]):
        rows = [[None if k < 0 else k, 10 * (j + 1) + m] for m, k in enumerate(l["keys"])]
        parts = [[[r] for m, r in enumerate(rows) if m % l["p"] == q] for q in range(l["p"])]
        leaves.append({"name": f"t{j}", "cols": ["k:i?", "id:i?"], "count": l["decl"], "parts": parts, "split_parts": l["p"], "place": rng.choice(["", "first", "last", "block", "rev"])})
    cfg = {"workers": g["workers"], "max_tasks": g["max"], "ciu": g["ciu"], "bcast": g["bcast"], "factor": [1.0, 0.5, 2.0][g["factor"]], "dyn": g["dyn"], "grpc": g["grpc"], "batch": g["batch"], "metrics": False}
    return {"id": f"j{i}", "driver": "sql", "plan": lower(plan), "cfg": cfg, "leaves": leaves, "plain": True, "plain_plan": plain, "g": g}


def data(g):
    return [[[k, 10 * (j + 1) + m] for m, k in enumerate(l["keys"])] for j, l in enumerate(g["leaves"])]


def run(ctx):
    ctx.model("JoinsSplit", "JoinsSplitBc.cfg")
    ctx.model("JoinsSplit", "JoinsSplitHash.cfg")
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda k: plans.refuted(ctx, "JoinsSplit", f"JoinsSplit{k}.cfg"), ["NA", "BcLeft", "BcFull", "BcLeftSemi", "BcLeftAnti", "BcLeftMark"]))
    direct(ctx)
    for b in ("joins", "limits"):
        c01.run_sql(ctx, ctx.pick(500, 8000), b, name=b)


def direct(ctx):
    cfg = f"SPECIFICATION Spec\nCONSTANTS\nMaxLeaves = 3\nMaxSteps = {ctx.pick(8, 9)}\nMaxRows = 4\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    gs = list({lib.ctup(g): g for g in ctx.generate("JoinsGen", ("JoinsGen_run.cfg", cfg), ctx.pick(10000, 80000), 60, procs=8)}.values())
    cases = [case(g, i, ctx.rng) for i, g in enumerate(gs)]
    res = ctx.run_cases(cases, name="joins")
    traces, skipped, dist, refused, shapes = [], 0, 0, {}, {}
    for c in cases:
        r = res[c["id"]]
        p = r.get("plain", {})
        if r.get("phase") == "build" or ("plain" in r and "rows" not in p):
            skipped += 1          # DataFusion itself refuses or fails
            k = str(r.get("err") if r.get("phase") else p)[:70]
            refused[k] = refused.get(k, 0) + 1
            continue
        if "rows" not in r:
            ctx.violate("join: the query failed although it has an answer: " + str({k: r[k] for k in r if k != "log"})[:300], c, r)
            continue
        dist += bool(r["distributed"])
        t = {"data": data(c["g"]), "plan": c["g"]["stack"][0]["x"]}
        traces.append(dict(t, id=c["id"], rows=num(r["rows"])))
        traces.append(dict(t, id=c["id"] + "/plain", rows=num(p["rows"])))
    v = ctx.accept("JoinsTrace", traces, procs=8)
    oracle, by, ws = 0, {c["id"]: c for c in cases}, {}
    for t in traces:
        if t["id"].endswith("/plain") or not v[t["id"]]["w"]:
            continue
        w = v[t["id"]]["w"]
        if v[t["id"] + "/plain"]["w"]:
            oracle += 1           # plain DataFusion gives no answer of the model either
            if oracle <= 3:
                ctx.log("oracle disagreement", json.dumps(by[t["id"]]["plan"])[:400], w)
            continue
        ws[w] = ws.get(w, 0) + 1
        ctx.violate(f"{w}: {str(t['rows'])[:150]}", by[t["id"]], {"trace": t, "result": res[t["id"]]}, key=w)
    ctx.log("plans", len(cases), "skipped", skipped, "distributed", dist, "oracle", oracle, ws, refused)
    ctx.note("traces_validated_against_impl", len(traces) // 2 - oracle)
    ctx.note("distributed_plans", dist)
    ctx.note("oracle_disagreements", oracle)
    ctx.cov["refused_by_datafusion"] = refused
    ctx.cov["samples"] += [{"plan": c["g"]["stack"][0]["x"], "cfg": c["cfg"]} for c in cases[:2]]
    if dist < len(cases) * 0.3 or skipped > len(cases) * 0.4:
        raise lib.ToolError("vacuous: too few plans were distributed")
    if oracle > max(3, len(cases) * 0.02):
        raise lib.ToolError("Joins.tla disagrees with plain DataFusion")
