"""C13: routing and handlers. Chains of Handlers.tla on the real cluster; every call, plan, request and running task judged by HandlersTrace."""
import os
import lib
import plans

LEVEL = "model_checked_conformance"
LABELS = ["s1", "s2", "s3"]


def expand(ctx, g, i, rng):
    cid = f"h{i}"
    W = g["workers"]
    leaf = "f" if g["leaf"] == "f" else "l0"
    tasks = [min(t, W) for t in (g["t0"], g["t1"])]

    def script(n, first):
        return {"name": "t", "cols": ["k:i", "id:i"], "count": "", "parts": [[[[r, first + 10 * p + r] for r in range(2)]] for p in range(n)], "split_parts": n}
    leaves = [script(2, 0), script(1, 100)]
    scan = {"dir": ctx.path("files13", cid), "parts": 2, "tables": [{"name": "f", "fmt": "csv", "files": [{"rows": [[j % 2, 10 * j], [1, 10 * j + 1]]} for j in range(5)]}]}
    R = 10 if leaf == "f" else 4
    first = {"op": "node", "name": "f"} if leaf == "f" else {"op": "leaf", "i": 0}
    n = max(g["n"], 1)

    def shuffle(x, tasks_):
        h = {"op": "hash", "n": n * (1 if not g["user"] else 1), "in": x}
        return {"op": "nshuffle", "tasks": tasks_, "in": h} if g["user"] else h
    tap = lambda l, x: {"op": "tap", "label": l, "in": x}
    if g["shape"] == "join":
        p = tap("s3", {"op": "hj", "mode": "part", "l": shuffle(tap("s1", first), tasks[0]), "r": shuffle(tap("s2", {"op": "leaf", "i": 1}), tasks[1])})
        below, top = {"s1": [], "s2": [], "s3": ["s1", "s2"]}, 3
    else:
        d = g["depth"]
        p = tap("s1", first)
        for k in range(2, d + 1):
            p = tap(f"s{k}", shuffle(p, tasks[k % 2]))
        below, top = {l: [f"s{j}" for j in range(1, int(l[1]))] for l in LABELS}, d
    if g["user"]:
        p = {"op": "coalesce", "in": {"op": "ngather", "tasks": tasks[top % 2], "consumers": 1, "in": p}}
    join = g["shape"] == "join"

    def answers(kind, h, j):
        out = {}
        for x, (lab, a) in enumerate(zip(LABELS if kind in ("route", "rewrite") else ["l0", "l1", "f"], h["ans"])):
            k = {"none2": "none", "urls2": "urls", "su2": "su", "wrap2": "wrap"}.get(a, a)
            # failures are rare: one in a few answers of an environment with failures
            if k in ("err", "panic", "short", "long") and rng.random() < 0.4:
                k = "wrap" if kind == "rewrite" else "none"
            r = {"k": k}
            if kind == "route":
                r["w"] = [rng.randrange(W) for _ in range(rng.randint(1, 5))]
            if kind == "desired":
                r["n"] = rng.randint(1, 5)
            if k in ("err", "panic"):
                r["msg"] = f"no {kind} by {j} for {lab}"
            out[lab] = r
        return out
    hs = {}
    for kind in ("route", "desired", "scale", "rewrite"):
        l = [{"pre": h["pre"], "ans": answers(kind, h, j)} for j, h in enumerate(sorted(g[kind], key=lambda h: not h["pre"]))]
        hs[kind] = l
    # without an answer from a user the leaves of a script are not distributed: one last handler for them, in most cases
    if rng.random() < 0.8:
        hs["desired"].append({"pre": False, "ans": {"l0": {"k": "desired", "n": g["t0"]}, "l1": {"k": "desired", "n": g["t1"]}, "f": {"k": "none"}}})
    cfg = {"workers": W, "grpc": g["grpc"], "dyn": g["dyn"], "file_bytes": rng.choice([1, 8, 40, 4000])}
    if g["loc"]:
        cfg["local"] = rng.randrange(W)
    c = {"id": cid, "driver": "route", "cfg": cfg, "leaves": leaves, "plan": p, "handlers": hs, "runs": g["runs"], "g": g, "below": below, "leaf": leaf, "rows": -1 if join else R, "top": top, "mt": leaf == "f"}
    if leaf == "f":
        c["scan"] = scan
    return c


def trace(c, r):
    hs, ev, owner, rw = c["handlers"], [], {}, {}
    msgs = sorted({a["msg"] for l in hs.values() for h in l for a in h["ans"].values() if "msg" in a})

    def flush(key):
        l = rw.pop(key, None)
        if l:
            ev.append({"k": "leafrun", "chain": l, "w": key[0], "t": key[1]})
    for e in r["log"]:
        k = e["ev"]
        if k == "tap" and e["at"][0].startswith("rw"):
            h, l = e["at"][0][2:].split(".")
            key, h = (e["w"], e["task"], e["at"][3], l), int(h) + 1
            if h in rw.get(key, []):
                flush(key)
            rw.setdefault(key, []).append(h)
            continue
        if k == "leaf":
            ev.append({"k": "leafrun", "chain": rw.pop((e["w"], e["task"], e["p"], f"l{e['leaf']}"), []), "w": e["w"], "t": e["task"]})
            continue
        if k == "done":
            for key in list(rw):
                flush(key)
        if k == "h":
            d = {"k": "h", "kind": e["kind"], "h": e["h"] + 1, "on": e["on"], "t": e.get("t", -1), "tc": e.get("tc", 0), "chain": [int(x[2:].split(".")[0]) + 1 for x in e.get("chain", [])]}
            ev.append(d)
        elif k == "set_plan":
            l = next((t for t in e["taps"] if t in LABELS), None)
            if l:
                owner[e["q"], e["stage"]] = l
                ev.append({"k": "plan", "on": l, "t": e["task"], "w": e["to"], "tc": e["tc"], "target": e["target"]})
        elif k == "exec":
            l = owner.get((e["q"], e["stage"]))
            if l:
                ev.append({"k": "exec", "on": l, "t": e["task"], "w": e["to"]})
        elif k == "tap":
            l = e["at"][0]
            if l in LABELS:
                ev.append({"k": "run", "on": l, "t": e["task"], "w": e["w"]})
            elif l[0] == "u":
                h, v, lf = l[1:].split(".")
                ev.append({"k": "su", "h": int(h) + 1, "i": int(v), "on": lf, "t": e["task"], "tc": e["at"][2]})
        elif k == "done":
            x = e["err"] or ""
            ev.append({"k": "done", "err": x.encode("ascii", "replace").decode().replace('"', "'").replace("\\", "|").replace("\n", " ")[:160], "has": [m for m in msgs if m in x], "rows": e["rows"]})
            if x:
                break       # what the tasks of a failed query still do gets mixed with the next query
    g = c["g"]
    return {"id": c["id"], "workers": g["workers"], "loc": c["cfg"].get("local", -1), "dyn": g["dyn"], "user": g["user"], "labels": LABELS, "below": c["below"], "leaf": c["leaf"], "rows": c["rows"],
            "home": {"l0": "s1", "f": "s1", "l1": "s2"} if g["shape"] == "join" else {"l0": "s1", "f": "s1"},
            **{k: [h["ans"] for h in l] for k, l in hs.items()}, "ev": ev}


def chains(ctx, num):
    cfg = ("HandlersGen.cfg", "SPECIFICATION Spec\nCONSTANT MaxHandlers = 3\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    gs = {lib.ctup(g): g for g in ctx.generate("HandlersGen", cfg, num, 40)}
    os.makedirs(ctx.path("files13"), exist_ok=True)
    cases = [expand(ctx, g, i, ctx.rng) for i, g in enumerate(gs.values())]
    res = ctx.run_cases(cases, name="route")
    by, traces, kinds = {c["id"]: c for c in cases}, [], {}
    for c in cases:
        r = res[c["id"]]
        if "log" not in r:
            ctx.violate("no answer: " + str(r)[:200], c, r, key="no answer")
            continue
        traces.append(trace(c, r))
    v = ctx.accept("HandlersTrace", traces)
    n, ws = 0, {}
    for t in traces:
        x = v[t["id"]]
        n += x["n"]
        ws[x["w"]] = ws.get(x["w"], 0) + 1
        if x["w"]:
            ctx.violate(f"{x['w']} (event {x['n'] + 1})", by[t["id"]], {"trace": t, "verdict": x}, key=x["w"][:40])
        for e in t["ev"]:
            k = e["k"] + ("." + e["kind"] if e["k"] == "h" else ".err" if e.get("err") else "")
            kinds[k] = kinds.get(k, 0) + 1
    ctx.note("traces_validated_against_impl", len(traces))
    ctx.note("events_judged", n)
    ctx.log("chains", len(cases), dict(sorted(ws.items(), key=lambda x: -x[1])[:14]), kinds)
    ctx.cov["samples"] += [{"cfg": c["cfg"], "handlers": c["handlers"], "plan": c["plan"]} for c in cases[:2]]
    for k in ("h.route", "h.desired", "h.scale", "h.rewrite", "plan", "exec", "run", "su", "leafrun", "done", "done.err"):
        if not kinds.get(k):
            raise lib.ToolError(f"vacuous: no event {k}")


def model(ctx, w, t, u, bug=""):
    cfg = (f"HandlersImpl_{w}{t}{u}{bug}.cfg", f'SPECIFICATION Spec\nCONSTANTS\nWorkers = {w}\nMaxTasks = {t}\nMaxUsers = {u}\nBug = "{bug}"\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n')
    (plans.refuted if bug else lambda c, s, f: c.model(s, f))(ctx, "HandlersImpl", cfg)


def run(ctx):
    model(ctx, 3, 6, 3)
    for b in ("reverse", "last", "random", "stride"):
        model(ctx, 2, 3, 2, b)
    if ctx.tier == "thorough":
        for w in (1, 2, 4, 5):
            model(ctx, w, 9, 4)
    chains(ctx, ctx.pick(2000, 20000))
