"""C05: splitting a leaf over the tasks of a stage covers its data exactly once (Leaves.tla, LeafSplit.tla)."""
import os, shutil
import lib, plans

LEVEL = "model_checking"
SQL = {"all": "select k, id, {h} from t0", "cnt": "select count(*) from t0", "grp": "select {c}, count(*), sum(id) from t0 group by {c}", "dist": "select distinct {c} from t0",
       "join": "select a.id, b.id from t0 a join t1 b on a.{c} = b.{c}", "jbig": "select a.id, b.id from t0 a join b b on a.k = b.k", "ord": "select id from t0 order by id limit 3",
       "un": "select id from t0 union all select id from b", "un2": "select id from t0 union all select id from t1",
       "jgrp": "select a.{c}, count(*) from t0 a join t1 b on a.{c} = b.{c} group by a.{c}"}


def case(ctx, g, i):
    c, tabs, sets, n = g["cfg"], [], [], 0
    for j, t in enumerate(c["tabs"]):
        files, rows = [], []
        for f in t["files"]:
            rs = []
            for _ in range(f["n"]):
                n += 1
                rs.append([n % 3, n])
            files.append({"h": f["h"], "rows": rs, "rg": f["rg"]})
            rows += [r + [f["h"] if t["hive"] else 0] for r in rs]
        tabs.append({"name": f"t{j}", "fmt": t["fmt"], "hive": t["hive"], "sorted": t["sorted"], "stat": t["stat"], "files": files})
        sets.append(rows)
    big = [[q % 3, 1000 + q] for q in range(g["nbig"])]
    hive = tabs[0]["hive"] and (tabs[1]["hive"] or c["shape"] not in ("join", "jgrp"))
    col = ctx.rng.choice(["h", "h", "k"]) if hive else "k"
    sql = SQL[c["shape"]].format(c=col, h="h" if tabs[0]["hive"] else "0 as h")
    opts = {"datafusion.optimizer.preserve_file_partitions": "1" if c["preserve"] else "0"}
    if c["minsize"]:
        opts["datafusion.optimizer.repartition_file_min_size"] = "0"
    if c["part"]:
        opts.update({"datafusion.optimizer.hash_join_single_partition_threshold": "0", "datafusion.optimizer.hash_join_single_partition_threshold_rows": "0"})
    id = f"f{i}"
    return {"id": id, "driver": "files", "mt": True, "dir": ctx.path("files", id), "tables": tabs, "sql": sql, "want_plan": True,
            "leaves": [{"name": "b", "cols": ["k:i", "id:i"], "count": g["big"], "parts": [[[r] for r in big[:2]], [[r] for r in big[2:]]], "split_parts": 2}],
            "cfg": {"workers": c["workers"], "parts": c["parts"], "file_bytes": c["bytes"], "max_tasks": c["max"], "grpc": c["grpc"], "ciu": c["ciu"], "bcast": c["bcast"], "dyn": c["dyn"], "metrics": False, "opts": opts},
            "q": {"shape": c["shape"], "c": 3 if col == "h" else 1, "n": 3, "t0": sets[0], "t1": sets[1], "big": [r + [0] for r in big]}}


def user_case(g, i):
    rows = [[n % 3, n] for n in range(9)]
    leaf = {"name": "t0", "cols": ["k:i", "id:i"], "count": g["decl"], "parts": [[[r] for r in rows[:5]], [[r] for r in rows[5:]]], "split_parts": 2, "vary": g["k"], "uneven": g["uneven"]}
    l = {"op": "leaf", "i": 0}
    plan = {"agg": {"op": "coalesce", "in": {"op": "hash", "n": 2, "in": l}}}.get(g["how"], {"op": "coalesce", "in": l})
    return {"id": f"u{i}", "driver": "sql", "plan": plan, "leaves": [leaf], "rows": rows, "g": g, "want_tree": True,
            "cfg": {"workers": g["workers"], "grpc": g["how"] == "grpc", "max_tasks": g["workers"], "metrics": False}}


def tasks_of(t, tasks=1):
    """The number of tasks the leaf 0 of a tree is run in (None: a branch of an isolated union)."""
    if t["leaf"] == 0:
        return tasks
    for k in t["kids"]:
        r = tasks_of(k, t["tasks"] if t["tasks"] else tasks)
        if r is not None:
            return r
    return None


def users(ctx):
    r = ctx.tlc("UserLeafGen", ("UserLeafGen_run.cfg", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"), workers=1)
    cases = [user_case(g, i) for i, g in enumerate(lib.tagged(r.stdout, "CASE"))]
    res = ctx.run_cases(cases, name="users")
    traces = []
    for c in cases:
        r, g = res[c["id"]], c["g"]
        tc = tasks_of(r["tree"]) if "tree" in r else 1
        out = "rows" if "rows" in r else "err" if "err" in r and "panic" not in r["err"] else "down"
        traces.append({"id": c["id"], "shape": "user", "k": g["k"], "uneven": g["uneven"], "tc": tc, "out": out, "rows": r.get("rows", []), "all": c["rows"]})
    v = ctx.accept("LeavesTrace", traces)
    ws = {}
    for t, c in zip(traces, cases):
        w = v[c["id"]]["w"]
        ws[w] = ws.get(w, 0) + 1
        if w:
            ctx.violate(f"{w}: {c['g']} in {t['tc']} tasks: {str(res[c['id']].get('err') or t['rows'])[:150]}", c, {"trace": t, "result": res[c["id"]]}, key=w)
    ctx.log("user splits", len(cases), ws, {k: sum(1 for t in traces if t["out"] == k) for k in ("rows", "err", "down")})
    ctx.note("traces_validated_against_impl", len(cases))


def run(ctx):
    ctx.model("LeafSplit", "LeafSplit_groups.cfg")
    ctx.model("LeafSplit", "LeafSplit_bytes.cfg")
    plans.refuted(ctx, "LeafSplit", "LeafSplit_nopad.cfg")
    plans.refuted(ctx, "LeafSplit", "LeafSplit_files.cfg")
    users(ctx)
    files(ctx)


def files(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS\nMaxFiles = 7\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    gs = list({lib.ctup(g): g for g in ctx.generate("LeavesGen", ("LeavesGen_run.cfg", cfg), ctx.pick(3000, 40000), 60)}.values())
    cases = [case(ctx, g, i) for i, g in enumerate(gs)]
    os.makedirs(ctx.path("files"), exist_ok=True)
    res = ctx.run_cases(cases, name="files")
    shutil.rmtree(ctx.path("files"), ignore_errors=True)
    traces, skipped, split, dist = [], 0, 0, 0
    for c in cases:
        r = res[c["id"]]
        if not all("rows" in r.get(k, {}) for k in ("one", "same")):
            skipped += 1
            continue
        if "rows" not in r:
            ctx.violate("leaf: the query fails although it has an answer: " + str(r.get("err") or r)[:300], c, r, key="leaf: refused")
            continue
        dist += r["dist"]
        split += any(len(s["variants"]) > 1 for s in r["scans"])
        sc = [{"tasks": s["tasks"], "orig": s["orig"], "variants": s["variants"], "bare": s.get("bare", False)} for s in r["scans"]]
        traces.append(dict(c["q"], id=c["id"], scans=sc, rows=r["rows"]))
        traces.append(dict(c["q"], id=c["id"] + "/same", scans=[], rows=r["same"]["rows"]))
        traces.append(dict(c["q"], id=c["id"] + "/one", scans=[], rows=r["one"]["rows"]))
    v = ctx.accept("LeavesTrace", traces, procs=8)
    oracle, ws = 0, {}
    for c in cases:
        if c["id"] not in v or not v[c["id"]]["w"]:
            continue
        w = v[c["id"]]["w"]
        if w == "leaf: wrong answer" and (v[c["id"] + "/same"]["w"] or v[c["id"] + "/one"]["w"]):
            oracle += 1
            continue
        ws[w] = ws.get(w, 0) + 1
        ctx.violate(f"{w}: {c['sql']}: {str(res[c['id']]['rows'])[:150]}", c, res[c["id"]], key=w)
    bad = sum(1 for t in traces if t["id"].endswith("/one") and v[t["id"]]["w"])
    ctx.log("files", len(cases), "skipped", skipped, "distributed", dist, "split", split, "same-settings disagreements", oracle, "single", bad, ws)
    ctx.note("traces_validated_against_impl", len(traces) // 3 - oracle)
    ctx.note("split_scans", split)
    ctx.cov["samples"] += [{"sql": c["sql"], "cfg": c["cfg"], "tables": c["tables"]} for c in cases[:2]]
    if split < len(cases) * 0.12 or skipped > len(cases) * 0.2 or bad:
        raise lib.ToolError(f"vacuous or wrong: split {split}, skipped {skipped}, wrong single-node answers {bad}")
