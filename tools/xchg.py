"""Exchanges: configurations drawn from ExchangeGen, run on the real operators, histories judged by ExchangeTrace."""
import lib


def expand(g, i, rng):
    """A configuration of ExchangeGen -> a case of the harness."""
    nid = [0]

    def leaf(t, p):
        tasks = []
        for a in range(t):
            parts = []
            for b in range(p):
                on = {"even": True, "first": a == 0 and b == 0, "last": a == t - 1 and b == p - 1, "odd": (a + b) % 2 == 1}[g["skew"]]
                rows = []
                for _ in range(g["rows"] if on else 0):
                    nid[0] += 1
                    rows.append([rng.randrange(g["keys"]), nid[0]])
                parts.append([rows[j:j + g["per"]] for j in range(0, len(rows), g["per"])] + ([{"yield": 1}] if rng.random() < 0.3 else []))
            tasks.append(parts)
        return {"name": f"t{len(leaves)}", "cols": ["k:i", "id:i"], "count": f"m{t}", "parts": [[] for _ in range(p)], "splits": {str(t): tasks}}

    leaves, xs, user = [], [], g["shape"] != "planner"

    def chain(li, first, exch):
        node = {"op": "leaf", "i": li}
        for x in exch:
            xs.append(dict(x, loc=[], home=[]))
            n = len(xs)
            node = {"op": "tap", "label": f"b{n}", "mode": "u" if n > 1 and g["shape"] != "copart" else "", "in": node}
            if x["kind"] == "shuffle":
                node = {"op": "hash", "n": x["N"], "in": node}
                if user:
                    node = {"op": "nshuffle", "tasks": x["T"], "in": node}
            elif x["kind"] == "gather":
                node = {"op": "ngather", "tasks": x["T"], "consumers": x["C"], "in": node}
            else:
                node = {"op": "nbcast", "tasks": x["T"], "consumers": x["C"], "in": node}
            node = {"op": "tap", "label": f"a{n}", "mode": f"m{x['C']}" + (f"/{g['delay'] + 13 * n}" if g["delay"] else ""), "in": node}
        return node

    leaves.append(leaf(g["t0"], g["p0"]))
    node = chain(0, g["t0"], g["xs"])
    last, np = g["xs"][-1]["C"], g["xs"][-1]["N"]
    copart = []
    if g["shape"] == "copart":
        x = dict(g["xs"][0], T=g["u0"])
        leaves.append(leaf(g["u0"], g["p0"]))
        node = {"op": "hj", "mode": "part", "type": "Full", "l": node, "r": chain(1, g["u0"], [x])}
        copart = [[1, 2]]
    if user and last > 1:
        n = 0
        if g["shape"] == "user":
            xs.append({"kind": "gather", "T": last, "P": np, "C": 1, "N": last * np, "loc": [], "home": []})
            n = len(xs)
            node = {"op": "tap", "label": f"b{n}", "mode": "u" if n > 1 and g["shape"] != "copart" else "", "in": node}
        node = {"op": "ngather", "tasks": last, "consumers": 1, "in": node}
        if n:
            node = {"op": "tap", "label": f"a{n}", "mode": f"m1/{g['delay']}" if g["delay"] else "m1", "in": node}
    node = {"op": "coalesce", "in": node}
    w = g["workers"] if user else 6
    cfg = {"workers": w, "grpc": g["grpc"], "parts": 2, "max_tasks": 0}
    if g["local"] >= 0:
        cfg["local"] = 0
    if g["route"] == "rev":
        cfg["route"] = list(range(w))[::-1]
    elif g["route"] == "one":
        cfg["route"] = [w - 1]
    if g["sb"]:
        cfg["shuffle_batch"] = g["sb"]
    if g["budget"]:
        cfg["budget"] = 64
    return {"id": f"x{i}", "driver": "sql", "cfg": cfg, "leaves": leaves, "plan": node, "g": g, "xs": xs, "copart": copart}


def trace(c, log):
    """Log of the harness -> events of Exchange (a change of names only)."""
    xs = [dict(x) for x in c["xs"]]
    stage, prod, cons = {}, {}, {}
    for e in log:
        if e["ev"] == "set_plan":
            for t in e["taps"]:
                if t[0] == "b":
                    stage.setdefault(e["stage"], set()).add(int(t[1:]))
        elif e["ev"] == "tap":
            l, ti, tc, p = e["at"]
            (prod if l[0] == "b" else cons).setdefault(int(l[1:]), {})[ti] = e["w"]
    # a stage whose boundary was elided holds the taps of two exchanges: only its uppermost one is its output
    top = {s: max(v) for s, v in stage.items()}
    # stages whose every task was handed over in process were not seen: they are told apart by their order,
    # if the other stages are numbered in that order
    order = [i for i, x in enumerate(xs, 1) if not (x["T"] == 1 and x["C"] == 1)]
    unseen = {e["stage"] for e in log if e["ev"] == "exec"} - {e["stage"] for e in log if e["ev"] == "set_plan"}
    if unseen:
        if any(s > len(order) or order[s - 1] != x for s, x in top.items()):
            return None
        for s in unseen:
            if s <= len(order):
                top[s] = order[s - 1]
    home = c["cfg"].get("local", -2)
    for i, x in enumerate(xs, 1):
        if x["T"] == 1 and x["C"] == 1:
            continue
        # consumers that run in the coordinator are those of its own worker, if it has one
        cw = {a: home if w == -1 else w for a, w in cons.get(i, {}).items()}
        pairs = [[a, b] for a, wa in cw.items() for b, wb in prod.get(i, {}).items() if wa == wb]
        if x["kind"] == "gather":
            own = {}
            lo = 0
            for a in range(x["C"]):
                n = x["T"] // x["C"] + (1 if a < x["T"] % x["C"] else 0)
                for b in range(lo, lo + n):
                    own[b] = a
                lo += n
            pairs = [[a, b] for a, b in pairs if own.get(b) == a]
        x["loc"] = pairs
        x["home"] = [b for b, w in prod.get(i, {}).items() if w == home]
    ev = []
    for e in log:
        k = e["ev"]
        if k == "set_plan":
            x = top.get(e["stage"])
            if x and not (xs[x - 1]["T"] == 1 and xs[x - 1]["C"] == 1):
                ev.append({"k": "plan", "x": x, "t": e["task"]})
        elif k == "exec":
            x = top.get(e["stage"])
            if x:
                ev.append({"k": "req", "x": x, "c": e["ti"], "t": e["task"], "p0": e["p0"], "p1": e["p1"], "head": e["head"]["k"], "n": e["head"]["n"]})
        elif k in ("tap", "tap_rows", "tap_end"):
            l, ti, tc, p = e["at"]
            x = int(l[1:])
            if k == "tap":
                ev.append({"k": "run", "x": x, "t": ti, "p": p} if l[0] == "b" else {"k": "open", "x": x, "c": ti, "p": p})
            elif k == "tap_end":
                ev.append({"k": "eop", "x": x, "t": ti, "p": p} if l[0] == "b" else {"k": "eoc", "x": x, "c": ti, "p": p})
            else:
                for row in e["rows"]:
                    ev.append({"k": "emit", "x": x, "t": ti, "p": p, "row": row} if l[0] == "b" else {"k": "recv", "x": x, "c": ti, "p": p, "row": row})
    return {"id": c["id"], "xs": xs, "copart": c["copart"], "cut": bool(c.get("faults")), "ev": ev}


def run(ctx, pid, want, num, faulty=0):
    """want: prefix of the verdicts that concern this property."""
    for t, p, n, cc in [(2, 1, 2, 2), (2, 2, 1, 1)] + ctx.pick([], [(3, 1, 1, 2), (2, 2, 1, 2), (3, 1, 2, 2)]):
        ctx.model("ExchangeImpl", (f"ExchangeImpl_{t}{p}{cc}{n}.cfg", f"SPECIFICATION Spec\nCONSTANTS MaxT = {t}\nMaxP = {p}\nMaxC = {cc}\nMaxN = {n}\nINVARIANTS Allowed Finished\nCHECK_DEADLOCK FALSE\n"), timeout=1500)
    gs = {lib.ctup(g): g for g in ctx.generate("ExchangeGen", "ExchangeGen.cfg", num, 12)}
    cases = [expand(g, i, ctx.rng) for i, g in enumerate(gs.values())]
    # the same with a failure on the way: the requests seen until then still have to be the right ones
    for c in [x for x in cases if any(y["T"] > 1 or y["C"] > 1 for y in x["xs"])][:faulty]:
        f = ctx.rng.choice([{"at": "exec", "kind": "lost"}, {"at": "exec", "kind": "err"}, {"at": "exec_stream", "kind": "err", "after": ctx.rng.randrange(2)}, {"at": "set_plan", "kind": "err"}, {"at": "connect"}])
        cases.append(dict(c, id=c["id"] + "f", faults=[dict(f, nth=ctx.rng.choice([0, 0, 1, 2, 5]), msg="injected-fault")]))
    ctx.log(f"{len(cases)} configurations")
    res = ctx.run_cases(cases)
    traces, by = [], {}
    kinds = {}
    for c in cases:
        r = res[c["id"]]
        by[c["id"]] = c
        if c.get("faults") and "injected-fault" in str(r.get("err")):
            pass
        elif "rows" not in r:
            ctx.violate("no answer: " + str({k: v for k, v in r.items() if k != "log"})[:300], c, r)
            continue
        t = trace(c, r.get("log", []))
        if t:
            traces.append(t)
    v = ctx.accept("ExchangeTrace", traces)
    n = 0
    for t in traces:
        x = v[t["id"]]
        n += x["n"]
        if x["w"].startswith("harness"):
            raise lib.ToolError(f"{t['id']}: {x}")
        if x["w"].startswith(want):
            ctx.violate(f"exchange {x['at']}: {x['w']} (event {x['n'] + 1})", by[t["id"]], {"trace": t, "verdict": x})
        for e in t["ev"]:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    ctx.note("traces_validated_against_impl", len(traces))
    ctx.note("events_judged", n)
    ctx.cov["verdicts"] = {w: sum(1 for x in v.values() if x["w"] == w) for w in {x["w"] for x in v.values()}}
    ctx.log("verdicts", ctx.cov["verdicts"])
    loc = sum(len(x["loc"]) for t in traces for x in t["xs"])
    ctx.cov["exchanges"] = {k: sum(x["kind"] == k for t in traces for x in t["xs"]) for k in ("shuffle", "gather", "bcast")}
    ctx.note("pairs_read_in_process", loc)
    ctx.log(f"events {kinds}, in-process pairs {loc}, {ctx.cov['exchanges']}")
    for k in ("plan", "req", "run", "emit", "recv", "eoc"):
        if not kinds.get(k):
            raise lib.ToolError(f"vacuous: no event {k}")
    ctx.cov["samples"] += [{"g": c["g"], "plan": c["plan"]} for c in cases[:2]]
