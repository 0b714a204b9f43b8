"""C09: metrics. The collection protocol (MetricsImpl), and executed queries judged by Metrics.tla."""
import re
import c01
import lib
import plans

LEVEL = "model_checking"
TAP = re.compile(r"TapExec: (\w+)(?:, metrics=\[(.*)\])?\s*$")
SLICE = re.compile(r"t\d+: ScriptExec: leaf=(\d+) of=(\d+) task=(\d+)[^,]*(?:, metrics=\[(.*)\])?\s*$")


def tapped(x, n):
    """The plan with a labelled tap above every operator that is not an exchange."""
    if isinstance(x, list):
        return [tapped(y, n) for y in x]
    if not isinstance(x, dict) or "op" not in x:
        return x
    y = {k: tapped(v, n) if k in ("in", "ins", "l", "r") else v for k, v in x.items()}
    if x["op"] == "tap":
        y["label"] = f"n{len(n)}"
        n.append(y["label"])
        return y
    if x["op"] in ("hash", "rr", "coalesce", "glimit"):
        return y
    n.append(f"n{len(n)}")
    return {"op": "tap", "label": n[-1], "mode": "", "in": y}


def rows_in(text):
    """output_rows of a printed metrics set: {task: rows}, -1 for the sum"""
    if not text:
        return {}
    m = re.search(r"output_rows=(\{[^}]*\}|\d+)", text)
    if not m:
        return {}
    if m[1][0] != "{":
        return {-1: int(m[1])}
    return {int(a): int(b) for a, b in re.findall(r"(\d+):(\d+)", m[1])}


def printed(text):
    taps, slices, stage = {}, {}, 0
    for line in text.split("\n"):
        if m := re.search(r"── Stage (\d+) ──", line):
            stage = int(m[1])
        elif m := TAP.search(line):
            taps[m[1]] = rows_in(m[2])
        elif m := SLICE.search(line):
            slices[tuple(int(m[i]) for i in (1, 2, 3))] = (stage, rows_in(m[4]))
    return taps, slices


def nodes(x, out):
    if x["label"]:
        out[x["label"]] = x
    for k in x["kids"]:
        nodes(k, out)
    return out


def state(v):
    return "hang" if "hang" in v else "err" if "err" in v else "ok"


def trace(c, r):
    mx, log = r["mx"], r["log"]
    streams, read = {}, {}
    for e in log:
        if e["ev"] == "tap":
            l, _, _, p = e["at"]
            streams.setdefault((str(e["at"]), e["task"]), {"label": l, "t": e["task"], "p": p, "b": []})
    by_at = {}
    for (at, t), s in streams.items():
        by_at.setdefault(at, []).append(s)
    # an instance may go on after the answer is complete, and its task reports before its end
    over = {}
    for i, e in enumerate(log):
        if e["ev"] in ("c2w_end", "answered"):
            over.setdefault((e.get("stage", 0), e.get("task", 0)), i)
        if e["ev"] in ("tap_rows", "tap_end"):
            # the instances of the branches of a union that run in different tasks have different positions in their own
            s = by_at[str(e["at"])][0]
            if e["ev"] == "tap_rows":
                s["b"].append(len(e["rows"]))
            else:
                s["end"] = i
        elif e["ev"] == "leaf":
            read.setdefault((e["leaf"], e["of"], e["slice"]), {"rows": 0, "open": 0, "end": 0, "by": e["task"] if "task" in e else -1})["open"] += 1
        elif e["ev"] == "leaf_batch":
            read[tuple(e["at"][:3])]["rows"] += e.get("n", len(e["rows"]))
        elif e["ev"] == "leaf_end":
            read[tuple(e["at"][:3])]["open"] -= 1
            read[tuple(e["at"][:3])]["end"] = i
    if any(len(v) > 1 for v in by_at.values()):
        raise lib.ToolError(f"{c['id']}: ambiguous instances")
    # a task ran if its worker answered a request for it (a request that ends with the query may never have arrived, and
    # sampling a task to plan the next stage is not running it)
    def before(x, stage, task):
        return x.get("end", len(log)) < over.get((stage, task if stage else 0), len(log))
    stage = {l: x["stage"] for l, x in nodes(mx["pt"]["tree"], {}).items()} if state(mx["pt"]) == "ok" else {}
    for s in streams.values():
        s["ended"] = before(s, stage.get(s["label"], 0), s["t"])
        s.pop("end", 0)
    ran = {(e["stage"], e["task"]) for e in log if e["ev"] == "exec_got"}
    t = {"id": c["id"], "collect": bool(c["cfg"]["metrics"]), "probe": c["probe"], "answer": "ok" if "rows" in r else "hang" if r.get("hang") else "err",
         "tasks": [[e["stage"], e["task"]] for e in log if e["ev"] == "set_plan"], "ran": sorted(map(list, ran)), "reports": [[e["stage"], e["task"]] for e in log if e["ev"] == "metrics"],
         "pt": state(mx["pt"]), "ag": state(mx["ag"]), "labels": c["labels"], "streams": list(streams.values()), "nodes": [], "slices": []}
    if t["pt"] == "ok" and t["ag"] == "ok":
        pt, ag = nodes(mx["pt"]["tree"], {}), nodes(mx["ag"]["tree"], {})
        (tpt, spt), (tag, _) = printed(mx["pt"]["text"]), printed(mx["ag"]["text"])
        for l, x in pt.items():
            below, k = [], x["kids"][0] if len(x["kids"]) else None
            if k and not k["label"] and k["op"] not in ("BroadcastExec", "SamplerExec"):
                sums = {}
                for name, _, task, v in k["ms"]:
                    if name == "output_rows":
                        sums[task] = sums.get(task, 0) + v
                below = sorted(map(list, sums.items()))
            t["nodes"].append({"label": l, "stage": x["stage"], "pt": x["ms"], "ag": ag[l]["ms"], "sums": ag[l]["sums"] if c["probe"] else {"x": 0}, "below": below,
                               "op": k["op"] if k else "", "txt": sorted(map(list, tpt.get(l, {}).items())), "txtsum": tag.get(l, {}).get(-1, -1)})
        for k, v in read.items():
            if k in spt:
                st, p = spt[k]
                if st and [st, v["by"]] not in t["reports"]:
                    continue        # sampled for the plan, never run
                t["slices"].append({"rows": v["rows"], "ended": v["open"] == 0 and before(v, st, v["by"]), "printed": sum(p.values()), "task": min(p) if p else -1, "by": v["by"]})
    return t


def cases_of(ctx, num):
    cfg = ("PlansGen_mx.cfg", "SPECIFICATION Spec\nCONSTANTS\nMaxLeaves = 4\nMaxSteps = 8\nJoins = TRUE\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    gs = list({lib.ctup(g): g for g in ctx.generate("PlansGen", cfg, num, 60)}.values())
    out = []
    for i, g in enumerate(gs):
        c = plans.plan_case(g, i, ctx.rng)
        rng, labels = ctx.rng, []
        plan = tapped(c["plan"], labels)
        stop = rng.random()
        if stop < 0.25:
            plan = {"op": "glimit", "skip": 0, "fetch": rng.choice([0, 1, 2, 4]), "in": {"op": "coalesce", "in": plan}}
        c["cfg"].update(metrics=rng.random() < 0.9, dyn=g["dyn"], dyn_bytes=rng.choice([1, 50, 100000]), grpc=rng.random() < 0.4, bcast=True)
        if rng.random() < 0.15:
            l = rng.choice(c["leaves"])
            l["parts"][0] = l["parts"][0][:1] + [{"err": "boom"}]
        elif rng.random() < 0.05:
            c["faults"] = [{"at": rng.choice(["set_plan", "exec", "w2c", "session", "decode"]), "nth": rng.choice([0, 1, 2]), "kind": "err", "msg": "injected-fault"}]
        c.update(id=f"m{i}", plan=plan, labels=labels, mx=True, probe=rng.random() < 0.3, verbose=True, plain=False, want_tree=False)
        out.append(c)
    return out


def judge(ctx, cases, name):
    res = ctx.run_cases(cases, name=name)
    by = {c["id"]: c for c in cases}
    traces, refused = [], {}
    for c in cases:
        r = res[c["id"]]
        if "mx" not in r:
            k = str(r.get("err") or r)[:60]
            if r.get("phase") == "build":
                refused[k] = refused.get(k, 0) + 1
            else:
                ctx.violate("no answer: " + str(r)[:200], c, r, key="no answer")
            continue
        if not r["distributed"]:
            continue
        traces.append(trace(c, r))
    v = ctx.accept("MetricsTrace", traces)
    ws, ops, seen = {}, {}, {"collect": 0, "off": 0, "err": 0, "unran": 0, "open": 0, "nodes": 0, "slices": 0, "streams": 0, "grpc": 0, "dyn": 0}
    for t in traces:
        w, c = v[t["id"]]["w"], by[t["id"]]
        ws[w] = ws.get(w, 0) + 1
        if w:
            ctx.violate(w, c, {"trace": t, "verdict": w, "mx": res[t["id"]]["mx"]}, key=w)
        seen["collect" if t["collect"] else "off"] += 1
        seen["err"] += t["answer"] == "err"
        seen["unran"] += len(t["ran"]) < len(t["tasks"])
        seen["open"] += any(not s["ended"] for s in t["streams"])
        seen["nodes"] += len(t["nodes"])
        seen["streams"] += len(t["streams"])
        seen["slices"] += len(t["slices"])
        seen["grpc"] += bool(c["cfg"]["grpc"])
        seen["dyn"] += bool(c["cfg"]["dyn"])
        for n in t["nodes"]:
            if n["below"]:
                ops[n["op"]] = ops.get(n["op"], 0) + 1
    ctx.note("traces_validated_against_impl", len(traces))
    ctx.cov["seen"] = seen
    ctx.cov["operators_compared"] = ops
    ctx.log(name, len(cases), "traces", len(traces), ws, seen, ops, refused)
    ctx.cov["samples"] += [{"plan": c["plan"], "cfg": c["cfg"]} for c in cases[:2]]
    for k, n in seen.items():
        if not n:
            raise lib.ToolError(f"vacuous: {k}")


def model(ctx, t, p, n, bug=""):
    cfg = (f"MetricsImpl_{t}{p}{n}{bug}.cfg", f'SPECIFICATION Spec\nCONSTANTS\nT = {t}\nP = {p}\nN = {n}\nBug = "{bug}"\nINVARIANTS OneReport Exact Complete NotStarted\nPROPERTY Returns\nCHECK_DEADLOCK FALSE\n')
    if bug:
        plans.refuted(ctx, "MetricsImpl", cfg)
    else:
        ctx.model("MetricsImpl", cfg)


def run(ctx):
    model(ctx, 2, 2, 1)
    for b in ("early", "each", "forget", "rush"):
        model(ctx, 2, 2, 1, b)
    if ctx.tier == "thorough":
        model(ctx, 2, 2, 2)
        model(ctx, 3, 1, 2)
    judge(ctx, cases_of(ctx, ctx.pick(2200, 30000)), "metrics")
