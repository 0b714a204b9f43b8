"""C17: settings and headers. Histories of Session.tla on the real cluster, every task's view judged by SessionTrace; SessionImpl: the encoding."""
import lib
import plans

LEVEL = "model_checked_conformance"
KEYS = ["distributed." + k for k in ("file_scan_config_bytes_per_partition cardinality_task_count_factor children_isolator_unions collect_metrics broadcast_joins compression shuffle_batch_size "
        "max_tasks_per_stage partial_reduce worker_connection_buffer_budget_bytes dynamic_bytes_per_partition").split()] + \
       "ea.flag ea.n ea.x ea.s ea.o ea.on retry.retry.max retry.max retry.retry.retry retry.gap Mixed.TimeOut Mixed.low onlyc.k onlyw.k plain.k".split()
CLS = "usize f64 bool bool bool comp batch tasks bool budget budget bool usize f64 text text ousize".split() + ["text"] * 9
VALS = {
    "usize": ["0", "1", "18446744073709551615", "42", "-1", "1e3", "", "9007199254740993"],
    "ousize": ["0", "1", "18446744073709551615", "007"],  # a refused value leaves a zero in DataFusion's optional numbers
    "f64": ["1.5", "0.1", "1e300", "-0.0", "inf", "5e-324", "0.30000000000000004", "x", "123456789.123456789", "NaN"],
    "bool": ["true", "false", "true", "false", "maybe"],
    "comp": ["none", "zstd", "lz4"],
    "batch": ["0", "1", "3", "8192"],
    "tasks": ["0", "1", "2", "5"],
    "budget": ["1", "100", "64", "1048576"],
    "text": ["", " ", " a ", "a=b; c,d", "\u00f1", "\u65e5\u672c\u8a9e", "100%", "%41%zz", "\ttab\t", "line\nbreak", "\"q\" 'p' \\", "x" * 3000, "*", "nul\0", "\U0001f600 \x7f", "-", "true", "+ +"],
}
# (names, values): HeaderMap lowers names; several values under a name; bytes that are no text; names that look like options
HDRS = [[], [["x-a", ["1"]]], [["x-a", ["1", "2", "1"]]], [["X-Upper", ["Val"]]], [["authorization", ["Bearer a.b-c=="]]], [["x-a", [""]], ["x-b", ["\u00ff\u00e9"]]],
        [["ea.s", ["wrong"]]], [["distributed.compression", ["zstd"]], ["ea.n", ["1"]]], [["retry.max", ["wrong"]], ["plain.k", ["wrong"]]], [["onlyw.k", ["wrong"]]],
        [["x-datafusion-distributed-config-ea.s", ["no"]]], [["X-DataFusion-Distributed-Config-distributed.compression", ["no"]]], [["x-a", ["1"]], ["x-datafusion-distributed-config-", ["no"]]],
        [["x-datafusion-distributed-config", ["ok"]]], [["x-datafusion-distributed", ["ok"]], ["a", ["b c"]]], [["traceparent", ["00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01"]], ["x-long", ["y" * 4000]]],
        [["cookie", ["a=1", "b=2"]], ["x-s", ["  in ner "]]], [["x-datafusion-distributed-config-onlyw.k*", ["no"]]], [["mixed.timeout", ["wrong"]], ["x-t", ["1"]]], [["x-z", ["9"]], ["x-a", ["8"]], ["host-x", ["7"]]]]


def canon(cls, v):
    """The value a setting has after it was set to v; None: refused"""
    if cls in ("usize", "ousize", "batch", "tasks", "budget"):
        return str(int(v)) if v.isdigit() and int(v) < 2 ** 64 else None
    if cls == "f64":
        try:
            return repr(float(v))
        except ValueError:
            return None
    if cls == "bool":
        return v if v in ("true", "false") else None
    return v


def num(s):
    try:
        return repr(float(s))
    except ValueError:
        return s


def tok(s):
    """A text as TLA+ can hold it"""
    if s is None:
        return "-"
    return s if s.isascii() and s.isprintable() and 0 < len(s) < 60 and s not in ("-", "~") and '"' not in s and "\\" not in s else "<" + s[:80].encode("unicode_escape").decode().replace("\\", "|").replace('"', "'") + ">" + str(len(s))


DIRTY = [tok(v) for v in VALS["text"] if any((ord(x) < 32 and x != "\t") or x == "\x7f" for x in v)]


def plan(q, depth, n):
    node = {"op": "leaf", "i": q}
    for d in range(1, depth + 1):
        node = {"op": "tap", "label": f"q{q}.s{d}", "in": node}
        if d < depth:
            node = {"op": "hash", "n": n, "in": node}
    return node


def expand(g, i, rng):
    ops, tops, leaves = [], [], []
    for o in g["ops"]:
        s = o.get("s", 0)
        if o["do"] in ("set", "api"):
            cls = CLS[o["i"] - 1]
            if o["do"] == "api":
                o = dict(o, v=1 + o["v"] % 4)
            v = VALS[cls][(o["v"] - 1 + (rng.randrange(8) if cls == "text" else 0)) % len(VALS[cls])]
            c = canon(cls, v)
            if o["do"] == "api":
                v = c or "1"
                c = canon(cls, v)
            ops.append({"do": o["do"], "s": s, "key": KEYS[o["i"] - 1], "val": v})
            tops.append({"do": o["do"], "i": o["i"], "valid": c is not None, "v": tok(c if c is not None else "")})
        elif o["do"] == "headers":
            h = HDRS[(o["h"] - 1) % len(HDRS)]
            ops.append({"do": "headers", "s": s, "h": h})
            tops.append({"do": "headers", "h": sorted([n.lower(), [tok(x) for x in vs]] for n, vs in h)})
        elif o["do"] == "reg":
            ops.append({"do": "reg", "s": s, "ext": o["ext"]})
            tops.append({"do": "reg", "ext": o["ext"]})
        elif o["do"] == "start":
            leaves.append({"name": f"t{o['q']}", "cols": ["k:i", "id:i"], "count": f"d{o['tasks']}", "parts": [[{"gate": f"g{o['q']}"}, [[r, 100 * p + r] for r in range(3)]] for p in range(2)], "split_parts": 2})
            ops.append({"do": "start", "s": s, "q": o["q"], "plan": plan(o["q"], o["depth"], o["n"])})
        elif o["do"] == "answer":
            ops += [{"do": "go", "q": o["q"]}, {"do": "finish", "q": o["q"]}]
    for q in g["open"]:
        ops += [{"do": "go", "q": q}, {"do": "finish", "q": q}]
    cfg = {"workers": g["workers"], "grpc": g["grpc"], "dyn": g["dyn"], "reinject": g["reinject"], "parts": 2, "batch": 8192}
    if g["loc"]:
        cfg["local"] = 0
    stages = [[o["q"] + 1, f"s{d}"] for o in g["ops"] if o["do"] == "start" for d in range(1, o["depth"] + 1)]
    return {"id": f"x{i}", "driver": "ext", "cfg": cfg, "leaves": leaves, "ops": ops, "g": g, "tops": tops, "stages": stages,
            "sessions": [{"exts": e, "given": bool(g["given"] >> s & 1)} for s, e in enumerate(g["exts"])]}


def trace(c, r):
    ev, owner, tops = [], {}, list(c["tops"])
    hdr = lambda h: sorted([n, [tok(x) for x in v]] for n, v in (h or {}).items())
    for e in r["log"]:
        k = e["ev"]
        if k == "op":
            o = e["op"]
            if o["do"] == "start":
                ev.append({"k": "start", "s": o["s"] + 1, "q": o["q"] + 1})
            else:
                ev.append({"k": "op", "s": o["s"] + 1, "ok": e["ok"], "msg": tok(e.get("msg") or "")[:200], "op": tops.pop(0)})
        elif k == "set_plan":
            for t in e["taps"]:
                owner[e["q"]] = int(t.split(".")[0][1:]) + 1
        elif k == "view":
            q, s = e["at"][0].split(".")
            got = []
            for j, key in enumerate(KEYS):
                x = e["view"]["set"].get(key, "absent") if key in e["view"]["set"] else "absent"
                if key not in e["view"]["set"]:
                    got.append("~")
                elif x is None:
                    got.append("-")
                else:
                    got.append(tok(num(x) if CLS[j] == "f64" else x))
            ev.append({"k": "view", "q": int(q[1:]) + 1, "x": s, "t": e["task"], "w": e["w"], "batch": str(e["view"]["batch"]), "set": got, "hdr": hdr(e["view"]["hdr"])})
        elif k == "hdr" and e["q"] in owner:
            ev.append({"k": "exec", "q": owner[e["q"]], "from": e["from"], "hdr": hdr(e["hdr"])})
        elif k == "done":
            ev.append({"k": "done", "q": e["q"] + 1, "err": tok(e["err"])[:200] if e["err"] else "", "rows": e.get("rows", 0)})
    init = ["16777216", "1.0", "true", "false", "true", "lz4", "0", "0", "false", "67108864", "16777216"]
    return {"id": c["id"], "init": init, "sessions": [{"exts": s["exts"]} for s in c["sessions"]], "nq": max(1, c["g"]["nq"]), "reinject": c["cfg"]["reinject"], "rows": 6, "stages": c["stages"], "dirty": DIRTY, "ev": ev}


def histories(ctx, num):
    cfg = ("SessionGen.cfg", f"SPECIFICATION Spec\nCONSTANTS\nMaxOps = {ctx.pick(14, 24)}\nMaxQ = {ctx.pick(4, 6)}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    gs = {lib.ctup(g): g for g in ctx.generate("SessionGen", cfg, num, 120)}
    cases = [expand(g, i, ctx.rng) for i, g in enumerate(gs.values())]
    res = ctx.run_cases(cases, name="ext")
    by, traces, kinds = {c["id"]: c for c in cases}, [], {}
    for c in cases:
        r = res[c["id"]]
        if "log" not in r:
            ctx.violate("no answer: " + str(r)[:200], c, r, key="no answer")
            continue
        traces.append(trace(c, r))
    v = ctx.accept("SessionTrace", traces)
    n, views, ws = 0, 0, {}
    for t in traces:
        x = v[t["id"]]
        n, views = n + x["n"], views + x["views"]
        ws[x["w"]] = ws.get(x["w"], 0) + 1
        if x["w"].startswith("harness"):
            raise lib.ToolError(f"{t['id']}: {x}")
        if x["w"]:
            ctx.violate(f"{x['w']} (event {x['n'] + 1})", by[t["id"]], {"trace": t, "verdict": x}, key=x["w"].split(" is ")[0])
        for e in t["ev"]:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    ctx.note("traces_validated_against_impl", len(traces))
    ctx.note("events_judged", n)
    ctx.note("views_judged", views)
    ctx.log("histories", len(cases), dict(sorted(ws.items(), key=lambda x: -x[1])[:12]), kinds)
    ctx.cov["samples"] += [{"sessions": c["sessions"], "ops": c["ops"][:6]} for c in cases[:2]]
    for k in ("op", "view", "exec", "done"):
        if not kinds.get(k):
            raise lib.ToolError(f"vacuous: no event {k}")


def run(ctx):
    def text(bug, n, chars='"r", "."'):
        return f'SPECIFICATION Spec\nCONSTANTS\nChars = {{{chars}}}\nMaxKey = {n}\nBug = "{bug}"\nINVARIANT Same\nCHECK_DEADLOCK FALSE\n'
    ctx.model("SessionImpl", ("SessionImpl_ok.cfg", text("", ctx.pick(2, 3), '"r", ".", "M"')))
    for b in ("trim", "noprefix", "ascii", "skip", "live"):
        plans.refuted(ctx, "SessionImpl", (f"SessionImpl_{b}.cfg", text(b, 2)))
    plans.refuted(ctx, "SessionImpl", ("SessionImpl_case.cfg", text("case", 2, '"M", "."')))
    histories(ctx, ctx.pick(1500, 15000))
