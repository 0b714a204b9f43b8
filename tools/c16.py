"""C16: dynamic planning. Sampled chains (Sampler.tla), random plans (Plans.tla) and SQL (Query/Relational) under it."""
import json
import lib
import c01
import plans

LEVEL = "model_checked_conformance"
HANG = 3600


def expand(g, i, rng):
    nid = [0]

    def item(v):
        if v in (-1, -5):
            return {"sleep": rng.choice([1, 1, 2, 5])}
        if v == -2:
            return {"sleep": rng.choice([40, 700])}
        if v == -3:
            return {"err": "boom"}
        if v == -4:
            return {"yield": 1}
        rows = []
        for _ in range(v):
            nid[0] += 1
            rows.append([rng.randrange(g["keys"]), nid[0]])
        return rows
    parts = [[item(v) for v in p] for p in g["parts"]]
    leaf = {"name": "t0", "cols": ["k:i", "id:i"], "count": g["decl"], "stats": g["stats"], "place": g["place"], "parts": parts, "split_parts": len(parts)}
    node, xs, decl, width = {"op": "leaf", "i": 0}, [], g["decl"], len(parts)
    lim = g["max"] or g["workers"]

    def cap(d):
        return min([lim] + ([int(d[1:])] if d.startswith("m") else []))
    for x in g["xs"] + [{"kind": "merge", "decl": ""}]:
        n = len(xs) + 1
        xs.append({"kind": x["kind"], "cap": cap(decl), "P": width, "solo": x["kind"] == "merge" or (x["N"] == 1 and g["batch"] == 1 and cap(x["decl"]) == 1)})
        width = 1 if x["kind"] == "merge" else x["N"]
        node = {"op": "tap", "label": f"b{n}", "in": node}
        node = {"op": "hash", "n": x["N"], "in": node} if x["kind"] == "shuffle" else {"op": "coalesce", "in": node}
        node = {"op": "tap", "label": f"a{n}", "mode": x["decl"], "in": node}
        decl = "m1" if x["kind"] == "merge" else x["decl"]
    if g["fetch"]:
        node = {"op": "glimit", "fetch": g["fetch"], "in": node}
    cfg = {"workers": g["workers"], "max_tasks": g["max"], "grpc": g["grpc"], "dyn": True, "dyn_bytes": g["bytes"], "parts": 2, "metrics": rng.random() < 0.3}
    if g["batch"]:
        cfg["batch"] = cfg["shuffle_batch"] = g["batch"]
    return {"id": f"d{i}", "driver": "sql", "verbose": True, "cfg": cfg, "leaves": [leaf], "plan": node, "g": g, "xs": xs, "rows": [r for p in parts for b in p if isinstance(b, list) for r in b]}


def trace(c, r):
    top = {}
    for e in r["log"]:
        if e["ev"] == "set_plan":
            top[e["stage"]] = max([int(t[1:]) for t in e["taps"] if t[0] == "b"] + [top.get(e["stage"], 0)])
    num = {x: s for s, x in top.items()}
    order = sorted(num)
    pos = {x: j + 1 for j, x in enumerate(order)}
    xs = [c["xs"][x - 1] for x in order]
    ev = []
    for e in r["log"]:
        k = e["ev"]
        if k in ("set_plan", "load", "load_eos") and top.get(e["stage"]):
            s = pos[top[e["stage"]]]
            if k == "set_plan":
                ev.append({"k": "plan", "s": s, "t": e["task"], "tc": e["tc"]})
            elif k == "load":
                ev.append({"k": "load", "s": s, "t": e["task"], "p": e["p"], "rows": e["rows"], "eos": e["eos"]})
            else:
                ev.append({"k": "leos", "s": s, "t": e["task"]})
        elif k == "tap" and e["at"][0][0] == "a":
            if e["at"][0][1:].isdigit() and int(e["at"][0][1:]) in pos:
                ev.append({"k": "req", "s": pos[int(e["at"][0][1:])], "t": 0})
        elif k in ("tap_rows", "tap_end", "tap_err"):
            l, ti, tc, p = e["at"]
            s = pos.get(int(l[1:]))
            if not s:
                continue
            d = {"s": s, "t": ti, "p": p}
            if k == "tap_rows":
                ev += [dict(d, k="out" if l[0] == "b" else "in", row=row[1]) for row in e["rows"]]
            else:
                ev.append(dict(d, k={"tap_end": ("oend", "iend"), "tap_err": ("oerr", "ierr")}[k][l[0] == "a"]))
    ans = "hang" if r.get("hang") else "err" if "err" in r else "some" if c["g"]["fetch"] else "all"
    return {"id": c["id"], "xs": xs, "ev": ev, "answer": ans, "got": [x[1] for x in r.get("rows", [])], "exp": [x[1] for x in c["rows"]],
            "atmost": c["g"]["fetch"] or len(c["rows"]), "boom": any(-3 in p for p in c["g"]["parts"])}


def chains(ctx, num):
    gs = {lib.ctup(g): g for g in ctx.generate("SamplerGen", "SamplerGen.cfg", num, 30)}
    cases = [expand(g, i, ctx.rng) for i, g in enumerate(gs.values())]
    res = ctx.run_cases(cases, name="dyn")
    by, traces, kinds = {}, [], {}
    for c in cases:
        r = res[c["id"]]
        by[c["id"]] = c
        if "log" not in r:
            ctx.violate("no answer: " + str(r)[:200], c, r, key="no answer")
            continue
        traces.append(trace(c, r))
    v = ctx.accept("SamplerTrace", traces)
    n, ws = 0, {}
    for t in traces:
        x = v[t["id"]]
        n += x["n"]
        ws[x["w"]] = ws.get(x["w"], 0) + 1
        if x["w"].startswith("harness"):
            raise lib.ToolError(f"{t['id']}: {x}")
        if x["w"]:
            ctx.violate(f"exchange {x['at']}: {x['w']} (event {x['n'] + 1})", by[t["id"]], {"trace": t, "verdict": x}, key=x["w"])
        for e in t["ev"]:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    ctx.note("traces_validated_against_impl", len(traces))
    ctx.note("events_judged", n)
    ctx.log("chains", len(cases), ws, kinds, {a: sum(t["answer"] == a for t in traces) for a in ("all", "some", "err", "hang")})
    ctx.cov["samples"] += [{"g": c["g"], "plan": c["plan"]} for c in cases[:2]]
    for k in ("plan", "load", "leos", "req", "out", "oerr", "in", "iend", "ierr"):
        if not kinds.get(k):
            raise lib.ToolError(f"vacuous: no event {k}")


def dynamic_plans(ctx, num):
    gs = list({lib.ctup(g): g for g in ctx.generate("PlansGen", ("PlansGen_dyn.cfg", "SPECIFICATION Spec\nCONSTANTS\nMaxLeaves = 5\nMaxSteps = 9\nJoins = TRUE\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"), num, 60)}.values())
    cases = []
    for i, g in enumerate(gs):
        c = plans.plan_case(g, i, ctx.rng)
        c["cfg"].update(dyn=True, dyn_bytes=ctx.rng.choice([1, 20, 200, 100000]), grpc=ctx.rng.random() < 0.3)
        for l in c["leaves"]:
            l["stats"] = ctx.rng.choice(["", "exact", "small", "huge"])
        cases.append(dict(c, id="y" + c["id"], sent_trees=True))
    plans.run(ctx, cases, lambda w: True)


def model(ctx, t, p, n, bug=""):
    cfg = (f"SamplerImpl_{t}{p}{n}{bug}.cfg", f'SPECIFICATION Spec\nCONSTANTS\nT = {t}\nP = {p}\nMaxLen = {n}\nBug = "{bug}"\nINVARIANTS Allowed Finished\nCHECK_DEADLOCK FALSE\n')
    if bug:
        plans.refuted(ctx, "SamplerImpl", cfg)
    else:
        ctx.model("SamplerImpl", cfg)


def run(ctx):
    model(ctx, 1, 2, 3)
    model(ctx, 2, 1, 3)
    for b in ("lost", "silent", "peek"):
        model(ctx, 1, 2, 2, b)
    if ctx.tier == "thorough":
        model(ctx, 1, 3, 2)
        model(ctx, 2, 2, 1)
    chains(ctx, ctx.pick(2500, 25000))
    dynamic_plans(ctx, ctx.pick(1500, 15000))
    c01.run_sql(ctx, ctx.pick(600, 6000), "all", mods={"dyn": True}, name="dynsql")
