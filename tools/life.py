"""The life of queries: environments drawn from QueryGen, run on the real code, histories judged by Query."""
import json
import lib

SHAPES = {
    "scan": ("select k, id from t0", -1),
    "filter": ("select id from t0 where k > 0", -1),
    "count": ("select count(*), sum(id) from t0", -1),
    "agg": ("select k, count(*), sum(id) from t0 group by k", -1),
    "agg2": ("select c, count(*) from (select k, count(*) c from t0 group by k) x group by c", -1),
    "join": ("select t0.id a, t1.id b from t0 join t1 on t0.k = t1.k", -1),
    "joinagg": ("select t0.k, count(t1.id), sum(t0.id) from t0 left join t1 on t0.k = t1.k group by t0.k", -1),
    "semi": ("select id from t0 where k in (select k from t1)", -1),
    "nlj": ("select t0.id a, t1.id b from t0 join t1 on t0.id < t1.id", -1),
    "union": ("select id from t0 union all select id from t1", -1),
    "unionagg": ("select k, sum(id) from (select k, id from t0 union all select k, id from t1) x group by k", -1),
    "order": ("select id from t0 order by id", -1),
    "topk": ("select id from t0 order by id limit 2", 2),
    "limit": ("select id from t0 limit 2", 2),
    "limitunion": ("select id from (select id from t0 union all select id from t1) x limit 3", 3),
    "limitjoin": ("select t0.id a, t1.id b from t0 join t1 on t0.k = t1.k limit 2", 2),
    "limitin": ("select count(*) from (select id from t0 limit 2) x", -1),
    "window": ("select id, row_number() over (partition by k order by id) from t0", -1),
    "values": ("select 1 as a union all select 2", -1),
}
# every request of these is read to its end
WHOLE = ["scan", "filter", "count", "agg", "agg2", "order", "window", "union", "unionagg", "values"]
FAULTS = {
    "leaf_err": None, "leaf_panic": None, "leaf_xerr": None, "leaf_xpanic": None,
    "connect": {"at": "connect"}, "set_plan": {"at": "set_plan"}, "exec": {"at": "exec"}, "lost": {"at": "exec", "kind": "lost"},
    "exec_stream": {"at": "exec_stream"}, "exec_panic": {"at": "exec_stream", "kind": "panic"}, "w2c": {"at": "w2c"}, "chan": {"at": "chan"},
    "session": {"at": "session"}, "session_panic": {"at": "session", "kind": "panic"},
    "decode": {"at": "decode"}, "decode_panic": {"at": "decode", "kind": "panic"}, "encode": {"at": "encode"}, "route": {"at": "route"}, "cut": None,
}


def leaf(name, t, p, rows, per, gated, rng, base):
    """t * p streams of items; `spread` deals them to the tasks."""
    n, streams = base, []
    for _ in range(t * p):
        items, rs = [], []
        for _ in range(rows):
            n += 1
            rs.append([rng.randrange(3), n])
        for j in range(0, len(rs), per):
            if gated:
                items.append({"gate": "g", "n": j // per + 1})
            items.append(rs[j:j + per])
        streams.append(items)
    return {"name": name, "cols": ["k:i", "id:i"], "count": f"m{t}", "limits": rng.random() < 0.5, "t": t, "p": p, "streams": streams}


def spread(l):
    """The leaf in as many tasks as the planner may choose."""
    def deal(n):
        out = [[] for _ in range(n * l["p"])]
        for j, x in enumerate(l["streams"]):
            out[j % len(out)] += x
        return [out[i * l["p"]:(i + 1) * l["p"]] for i in range(n)]
    return dict(l, parts=deal(1)[0], splits={str(n): deal(n) for n in range(1, l["t"] + 1)})


def plain(l):
    """The same leaf without gates and failures (for the comparison)."""
    return {"name": l["name"], "cols": l["cols"], "parts": [[i for x in l["streams"] for i in x if isinstance(i, list)]]}


def expand(g, i, rng, mt):
    lv = [leaf("t0", g["t0"], g["p0"], g["rows"], g["per"], g["gated"], rng, 0), leaf("t1", g["t1"], 1, g["rows"], g["per"], g["gated"], rng, 100)]
    # the same tables for the queries that run meanwhile or afterwards, without gates and failures
    for j in (0, 1):
        lv.append(dict(lv[j], name=f"u{j}", streams=[[x for x in s if isinstance(x, list)] for s in lv[j]["streams"]]))
    faults, cut = [], None
    for n, f in enumerate(g["faults"]):
        msg = f"injected-{i}-{n}-{f['kind']}"
        d = FAULTS[f["kind"]]
        if d:
            faults.append(dict(d, nth=f["nth"], after=f["after"] if f["kind"] != "w2c" else 0, msg=msg))
        elif f["kind"] == "cut":
            cut = f["nth"]
        else:
            l = rng.choice(lv[:2])
            part = rng.choice(l["streams"])
            if f["kind"].startswith("leaf_x"):
                part.insert(0, {f["kind"][5:]: msg})
            else:
                part.insert(min(len(part), f["after"] * 2), {f["kind"][5:]: msg})
    sql, lim = SHAPES[g["shape"]]
    usql = sql.replace("t0", "u0").replace("t1", "u1")
    rerun = g["again"] == "rerun" and not g["faults"] and g["end"] != "drop"
    script, n = [{"do": "start", "q": 0, "sql": sql}], 1
    for s in g["steps"]:
        if s == "poll":
            script.append({"do": "poll", "q": 0})
        elif s == "gate":
            script.append({"do": "gate", "n": 0})
        elif s == "wait":
            script.append({"do": "wait", "ms": rng.choice([0, 1, 3, 20])})
        elif s == "other" and n < 4:
            script += [{"do": "start", "q": n, "sql": usql}, {"do": "all", "q": n}]
            n += 1
        elif s == "bg" and n < 4:
            script += [{"do": "start", "q": n, "sql": usql}, {"do": "bg", "q": n}]
            n += 1
    if cut is not None:
        script.insert(rng.randrange(1, len(script) + 1), {"do": "cut", "w": cut})
    if g["end"] == "drop":
        script.append({"do": "drop", "q": 0})
    else:
        script += [{"do": "gate", "n": 999}, {"do": "all", "q": 0}]
    script += [{"do": "join", "q": q} for q in range(1, n)]
    script.append({"do": "gate", "n": 999})
    script.append({"do": "quiet"})
    if g["again"] and cut is None:
        script += [dict({"do": "start", "q": n}, sql=sql if rerun else usql), {"do": "all", "q": n}, {"do": "quiet"}]
        n += 1
    cfg = {"workers": g["workers"], "grpc": g["grpc"] or cut is not None, "parts": g["parts"], "dyn": g["dyn"], "metrics": g["metrics"], "max_tasks": 0, "bcast": rng.random() < 0.6,
           "route": [rng.randrange(g["workers"]) for _ in range(7)]}
    if g["local"] >= 0:
        cfg["local"] = 0
    if g["budget"]:
        cfg["budget"] = 64
    return {"id": f"{'m' if mt else 'l'}{i}", "driver": "life", "mt": mt, "cfg": cfg, "leaves": [spread(l) for l in lv], "faults": faults, "script": script, "g": g, "n": n, "skew": rng.choice([0, 0, 7, -7, 3600])}


def trace(c, log, full):
    sql, lim = SHAPES[c["g"]["shape"]]
    causes = [f["msg"] for f in c["faults"]] + [list(i.values())[0] for l in c["leaves"] for p in l["streams"] for i in p if isinstance(i, dict) and "gate" not in i]
    ev = []
    for e in log:
        k = e["ev"]
        if k == "fault" and e["at"] == "chan":
            # nobody but the worker gets to know it when it answered all it had to
            ev += [{"k": "cut"}, {"k": "fire", "c": e["msg"]}]
        elif k == "fault":
            ev.append({"k": "fire", "c": e["msg"]})
        elif k == "cut":
            ev.append({"k": "cut"})
        elif k == "quiet":
            ev.append({"k": "quiet", "tasks": e["tasks"], "live": e["live"], "open": e["open"], "plans": e["plans"]})
        elif k == "q_rows":
            ev.append({"k": "rows", "q": e["q"] + 1, "rows": [json.dumps(r) for r in e["rows"]]})
        elif k == "q_err":
            ev.append({"k": "err", "q": e["q"] + 1, "has": [x for x in causes if x in e["msg"]]})
        elif k in ("q_start", "q_end", "q_hang", "q_drop"):
            ev.append({"k": k[2:], "q": e["q"] + 1})
    return {"id": c["id"], "exp": [{"rows": [json.dumps(r) for r in full], "lim": lim}] * c["n"], "whole": c["g"]["shape"] in WHOLE, "ev": ev}


def models(ctx):
    """The protocol itself, and that each of its rules is needed (a negative control of the specification)."""
    for c in ctx.pick(["QueryMC"], ["QueryMC", "QueryMC2", "QueryMC3"]):
        ctx.model("QueryMC", c + ".cfg")
    for c in ("QueryNoWatch", "QueryNoPanic", "QueryNoCancel"):
        r = ctx.tlc("QueryMC", c + ".cfg", workers=4, ok_codes=(12, 13))
        if "is violated" not in r.stdout and "was violated" not in r.stdout:
            raise lib.ToolError(f"{c} should be refuted\n{r.stdout[-1500:]}")


def run(ctx, num, kinds, want, mt=0, shapes=None, expand=expand, trace=trace, spec="QueryTrace", gen=("QueryGen", "Spec", "Emit"), models=models):
    """want(case, verdict): whether this verdict concerns the property."""
    models(ctx)
    shapes = shapes or list(SHAPES)
    cfg = f"SPECIFICATION {gen[1]}\nCONSTANTS\nShapes = {{{', '.join(json.dumps(s) for s in shapes)}}}\nMaxSteps = 8\nFaultKinds = {{{', '.join(json.dumps(k) for k in kinds)}}}\nINVARIANT {gen[2]}\nCHECK_DEADLOCK FALSE\n"
    gs = list({lib.ctup(g): g for g in ctx.generate(gen[0], (f"{gen[0]}_run.cfg", cfg), num + mt, 28)}.values())
    cases = [expand(g, i, ctx.rng, i >= num) for i, g in enumerate(gs)]
    # what the queries have to deliver: the same query on plain DataFusion, nothing failing
    singles, full = [], {}
    for c in cases:
        sql, lim = SHAPES[c["g"]["shape"]]
        singles.append({"id": "s" + c["id"], "driver": "single", "sql": sql.split(" limit ")[0] if lim >= 0 and c["g"]["shape"] != "topk" else sql, "leaves": [plain(l) for l in c["leaves"]], "cfg": {}})
    sres = ctx.run_cases(singles, name="single")
    for c in cases:
        r = sres["s" + c["id"]]
        if "rows" not in r:
            raise lib.ToolError(f"no expected rows: {r}")
        full[c["id"]] = r["rows"]
    by = {c["id"]: c for c in cases}
    res = ctx.run_cases([c for c in cases if not c["mt"]], name="life")
    if mt:
        res.update(ctx.run_cases([c for c in cases if c["mt"]], name="life-mt", threads=4))
    traces = []
    for c in cases:
        r = res[c["id"]]
        if "log" not in r:
            ctx.violate("no answer: " + str(r)[:300], c, r)
            continue
        traces.append(trace(c, r["log"], full[c["id"]]))
    v = ctx.accept(spec, traces)
    n, ends, fired = 0, {}, {}
    for t in traces:
        x, c = v[t["id"]], by[t["id"]]
        n += x["n"]
        if x["w"].startswith("harness"):
            raise lib.ToolError(f"{t['id']}: {x}")
        if x["w"] and want(c, x["w"]):
            e = res[t["id"]]["log"]
            ctx.violate(f"{c['g']['shape']}: {x['w']} (event {x['n'] + 1}: {str(t['ev'][x['n']])[:80]})", c, {"trace": t, "verdict": x, "log": e}, key=x["w"])
        for e in t["ev"]:
            if e["k"] in ("end", "err", "drop", "hang"):
                ends[e["k"]] = ends.get(e["k"], 0) + 1
            if e["k"] == "fire":
                k = e["c"].split("-")[-1]
                fired[k] = fired.get(k, 0) + 1
    ctx.note("traces_validated_against_impl", len(traces))
    ctx.note("events_judged", n)
    ctx.cov["outcomes"] = ends
    ctx.cov["failures_fired"] = fired
    ctx.cov["verdicts"] = {w: sum(1 for x in v.values() if x["w"] == w) for w in {x["w"] for x in v.values()}}
    ctx.log("verdicts", ctx.cov["verdicts"], ends, fired)
    ctx.cov["samples"] += [{"g": c["g"], "script": c["script"]} for c in cases[:2]]
    return cases, res, v
