"""Plans of the real planner and their executions, judged by Plans.tla (C04, C06)."""
import json
import lib


def rows_of(l, n, base):
    """n rows, dealt to the leaf's partitions."""
    parts = [[] for _ in range(l["p"])]
    for i in range(n):
        parts[i % l["p"]].append([[i % 3, base + i]])
    return parts


def leaf(l, i):
    return {"name": f"t{i}", "cols": ["k:i", "id:i"], "count": l["decl"], "parts": rows_of(l, l["rows"], 1000 * (i + 1)), "split_parts": l["p"], "place": ["", "first", "last", "block", "rev"][i % 5]}


def joins(v):
    if isinstance(v, dict):
        return v.get("op") in ("hj", "nlj", "cross") or any(joins(x) for x in v.values())
    return isinstance(v, list) and any(joins(x) for x in v)


def union_case(g, i, rng):
    leaves = [{"decl": d, "p": 1 + (g["p"] + j) % 2 if g["p"] == 3 else g["p"], "rows": rng.choice([1, 3, 5])} for j, d in enumerate(g["b"])]
    plan = {"op": "coalesce", "in": {"op": "union", "ins": [{"op": "leaf", "i": j} for j in range(len(leaves))]}}
    if len(leaves) == 1:
        plan = {"op": "coalesce", "in": {"op": "tap", "label": "t", "mode": "", "in": {"op": "leaf", "i": 0}}}
    return case(g, f"u{i}", plan, leaves, {"workers": 3, "max_tasks": g["cap"], "ciu": True}, g["cap"])


def case(g, id, plan, leaves, cfg, cap):
    cfg = dict(cfg, metrics=False)
    return {"id": id, "driver": "sql", "plan": plan, "cfg": cfg, "leaves": [leaf(l, j) for j, l in enumerate(leaves)], "want_tree": True, "plain": True, "cap": cap, "g": g}


def plan_case(g, i, rng):
    cap = g["max"] or g["workers"]
    return case(g, f"p{i}", g["stack"][0], g["leaves"], {"workers": g["workers"], "max_tasks": g["max"], "ciu": g["ciu"], "bcast": g["bcast"], "factor": [1.0, 0.5, 2.0][g["factor"]]}, cap)


def merged(a, b):
    """The plans of two tasks of a stage: branches of isolated unions that belong to the other task are left out."""
    if a is None or a["op"] == "EmptyExec":
        return b
    return a if b["op"] == "EmptyExec" or len(a["kids"]) != len(b["kids"]) else dict(a, kids=[merged(x, y) for x, y in zip(a["kids"], b["kids"])])


def grown(c, r):
    """The plan of a query that was sized while it ran, put together from what was sent to the workers."""
    node = {"op": "head", "p": 1, "leaf": -1, "decl": "", "dn": 0, "v": -1, "stage": 0, "tasks": 0}
    trees, used = {}, set()
    for e in r["log"]:
        if e["ev"] == "tree":
            trees[e["stage"]] = merged(trees.get(e["stage"]), e["tree"])
    tc = {e["stage"]: e["tc"] for e in r["log"] if e["ev"] == "set_plan"}

    def fill(x):
        if x["stage"]:
            used.add(x["stage"])
        kids = [trees[x["stage"]]] if x["stage"] in trees else x["kids"]
        return dict(x, kids=[fill(k) for k in kids])

    def leaves(x):
        return {x["leaf"]} | {l for k in x["kids"] for l in leaves(k)}
    full = {s: fill(t) for s, t in trees.items()}
    kids = [dict(node, op="exchange", stage=s, tasks=tc[s], kids=[t]) for s, t in full.items() if s not in used]
    have = {l for k in kids for l in leaves(k)}
    for i, l in enumerate(c["leaves"]):
        if i not in have:
            kids.append(dict(node, op="ScriptExec", leaf=i, p=len(l["parts"]), kids=[], decl=l["count"][:1], dn=int(l["count"][1:] or 0)))
    return dict(node, kids=kids)


def trace(c, r):
    ev = []
    if c.get("sent_trees"):
        t = grown(c, r)
        r = dict(r, tree=t, dist=any(e["ev"] == "set_plan" for e in r["log"]), same=True)
    for e in r["log"]:
        if e["ev"] == "set_plan":
            ev.append({"k": "plan", "stage": e["stage"], "task": e["task"], "tc": e["tc"]})
        elif e["ev"] == "leaf":
            ev.append({"k": "leaf", "l": e["leaf"], "ti": e["ti"], "tc": e["tc"], "of": e["of"], "slice": e["slice"], "p": e["p"]})
    ev.append({"k": "end", "rows": [json.dumps(x) for x in r["rows"]]} if "rows" in r else {"k": "err", "msg": str(r.get("err") or r.get("hang"))})
    return {"id": c["id"], "cap": c["cap"], "tree": r["tree"], "dist": r["dist"], "same": r["same"], "dyn": bool(c["cfg"].get("dyn")), "full": not joins(c["plan"]), "exp": [json.dumps(x) for x in r["plain"]["rows"]], "ev": ev}


def run(ctx, cases, want):
    res = ctx.run_cases(cases, name="plans")
    by = {c["id"]: c for c in cases}
    traces, skipped, dist, refused = [], 0, 0, {}
    for c in cases:
        r = res[c["id"]]
        if "plain" not in r and r.get("phase") != "build":
            ctx.violate("no answer: " + str(r)[:200], c, r, key="no answer")
            continue
        if "rows" not in r.get("plain", {}):
            # plans DataFusion itself does not accept
            skipped += 1
            k = str(r.get("err") or r.get("plain"))[:60]
            refused[k] = refused.get(k, 0) + 1
            continue
        dist += r["dist"]
        traces.append(trace(c, r))
    v = ctx.accept("PlansTrace", traces)
    n = 0
    for t in traces:
        x, c = v[t["id"]], by[t["id"]]
        n += x["n"]
        if x["w"].startswith("harness"):
            raise lib.ToolError(f"{t['id']}: {x}")
        if x["w"] and want(x["w"]):
            ctx.violate(f"{x['w']} (event {x['n'] + 1}: {str(t['ev'][x['n']])[:100]})", c, {"trace": t, "verdict": x}, key=x["w"])
    ctx.note("traces_validated_against_impl", len(traces))
    ctx.note("events_judged", n)
    ctx.cov["distributed_plans"] = ctx.cov.get("distributed_plans", 0) + dist
    ctx.cov["refused_by_datafusion"] = refused
    ws = {}
    for x in v.values():
        ws[x["w"]] = ws.get(x["w"], 0) + 1
    ctx.log("plans", len(cases), "skipped", skipped, "distributed", dist, ws, refused)
    ctx.cov["samples"] += [{"plan": c["plan"], "cfg": c["cfg"]} for c in cases[:2]]
    if dist * 2 < len(traces):
        raise lib.ToolError("too few distributed plans")
    return v


def unions(ctx, branches, decls, caps, parts):
    cfg = f"SPECIFICATION Spec\nCONSTANTS\nBranches = {{{branches}}}\nDecls = {{{', '.join(json.dumps(d) for d in decls)}}}\nCaps = {{{caps}}}\nParts = {{{parts}}}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    r = ctx.tlc("UnionGen", ("UnionGen_run.cfg", cfg), workers=1)
    gs = lib.tagged(r.stdout, "CASE")
    return [union_case(g, i, ctx.rng) for i, g in enumerate(gs)]


def randoms(ctx, num, joins, leaves=5, steps=9):
    cfg = f"SPECIFICATION Spec\nCONSTANTS\nMaxLeaves = {leaves}\nMaxSteps = {steps}\nJoins = {'TRUE' if joins else 'FALSE'}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    gs = list({lib.ctup(g): g for g in ctx.generate("PlansGen", ("PlansGen_run.cfg", cfg), num, 60)}.values())
    return [plan_case(g, i, ctx.rng) for i, g in enumerate(gs) if not g["dyn"]]


def refuted(ctx, spec, cfg):
    r = ctx.tlc(spec, cfg, workers=4, ok_codes=(12, 13))
    if not any(x in r.stdout for x in ("is violated", "was violated", "were violated")):
        raise lib.ToolError(f"{cfg} should be refuted\n{r.stdout[-1500:]}")
