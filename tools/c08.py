"""C08: the life of a worker task against TaskLifecycle.tla."""
import lib

LEVEL = "model_checking"


def cfg(nk, ns, nr, maxlen, parts, kinds, grpc):
    ks = ", ".join(f'"{k}"' for k in kinds)
    return (f"TL_{nk}_{ns}_{nr}_{maxlen}_{len(kinds)}_{grpc}.cfg",
            f"SPECIFICATION Spec\nCONSTANTS NK = {nk}\nNS = {ns}\nNR = {nr}\nMaxLen = {maxlen}\nParts = {parts}\nKinds = {{{ks}}}\nGrpc = {grpc}\n"
            "INVARIANTS OneAccepted RightPlan Forgotten Emit\nPROPERTY Undisturbed\nCHECK_DEADLOCK FALSE\n")


def fits(exp, got):
    """the abstract observation of the model against the concrete one"""
    if exp in ("crashed", "left"):
        return True
    e = lambda x: x.startswith("err") or x.startswith("cause")
    if exp == "err":
        return e(got)
    if exp == "refused":
        return e(got)
    if exp == "early":
        return got == "pending" or e(got)
    if exp == "late":
        return got == "pending" or e(got)
    return exp == got


def judge(c, r):
    if "res" not in r:
        return "no answer: " + str(r)[:300]
    for n, (s, o) in enumerate(zip(c["steps"], r["res"])):
        x = s["exp"]
        at = f"step {n + 1} ({s['op']} {s['i']} {s['arg']})"
        for i, (e, g) in enumerate(zip(x["subs"], o["subs"])):
            if not fits(e, g):
                return f"{at}: submission {i + 1} is {g!r}, the history requires {e!r}"
        for i, (e, g) in enumerate(zip(x["rds"], o["rds"])):
            if not fits(e, g):
                return f"{at}: reader {i + 1} got {g!r}, the history requires {e!r}"
        if not x["lo"] <= o["n"] <= x["hi"]:
            return f"{at}: the worker holds {o['n']} tasks, the history allows {x['lo']}..{x['hi']}"
    if r["bad_ctx"]:
        return f"a task ran with the wrong identity: {r['bad_ctx'][0]}"
    last = c["steps"][-1]["exp"]["subs"]
    for i, s in enumerate(last):
        if s == "ended" and not r["done"][i] and not any(x["op"] == "end" and x["i"] == i + 1 and x["arg"]["how"] in ("drop", "vanish") for x in c["steps"]):
            return f"the worker's side of submission {i + 1} stays open after the coordinator's side ended"
    return None


def run(ctx):
    beh = []
    kinds = ["ok", "session", "rewrite", "decode"]
    for c in [cfg(1, 2, 2, ctx.pick(5, 6), 2, ["ok"], "FALSE"), cfg(1, 1, 2, ctx.pick(5, 6), 2, kinds, "FALSE"),
              cfg(1, 2, 1, ctx.pick(5, 6), 2, ["ok", "session"], "TRUE"), cfg(2, 2, 2, ctx.pick(4, 5), 1, ["ok"], "TRUE")]:
        r = ctx.model("TaskLifecycle", c)
        b = lib.tagged(r.stdout, "CASE")
        ctx.log(f"{c[0]}: {len(b)} histories")
        beh += b
    lim = ctx.pick(6000, 10**9)
    if len(beh) > lim:
        ctx.note("histories_not_replayed", len(beh) - lim)
        beh = ctx.rng.sample(beh, lim)
    for g in ("FALSE", "TRUE"):
        beh += ctx.walks("TaskLifecycle", cfg(4, 6, 8, ctx.pick(16, 24), 3, kinds, g), ctx.pick(600, 6000), ctx.pick(17, 25))
    cases = [dict(b, id=f"t{i}", driver="task") for i, b in enumerate(beh)]
    res = ctx.run_cases(cases)
    seen = {}
    for c in cases:
        w = judge(c, res[c["id"]])
        if w:
            ctx.violate(w, c, res[c["id"]])
        for s in c["steps"]:
            for x in s["exp"]["subs"] + s["exp"]["rds"]:
                x = x.split(":")[0]
                seen[x] = seen.get(x, 0) + 1
            if s["op"] == "end":
                seen[s["arg"]["how"]] = seen.get(s["arg"]["how"], 0) + 1
    ctx.log(f"{len(cases)} histories; observations {seen}")
    for k in ("rows", "cause", "refused", "pending", "late", "err", "vanished", "ended", "eos", "drop", "fail", "crashed"):
        if not seen.get(k):
            raise lib.ToolError(f"vacuous: nothing observed as {k}")
    ctx.note("traces_validated_against_impl", len(cases))
    ctx.cov["steps_replayed"] = sum(len(c["steps"]) for c in cases)
    ctx.cov["samples"] += cases[-2:]
    # free running: the model only says that one submission per key wins and that everybody agrees on it
    free = []
    for i in range(ctx.pick(150, 3000)):
        rng = ctx.rng
        nk = rng.choice([1, 1, 2, 4])
        ns = rng.choice([2, 3, 6, 8])
        free.append({"id": f"r{i}", "driver": "race", "mt": True, "grpc": rng.random() < 0.5, "parts": rng.choice([1, 2]),
                     "subs": [{"k": j % nk + 1 if j < nk else rng.randint(1, nk), "kind": "ok" if rng.random() < 0.85 or j < nk else "session", "d": rng.choice([0, 0, 1, 5, 40])} for j in range(ns)],
                     "rds": [{"k": rng.randint(1, nk), "d": rng.choice([0, 0, 2, 10])} for _ in range(rng.choice([1, 4, 10]))]})
        for k in range(nk):
            free[-1]["subs"] = free[-1]["subs"] if any(s["k"] == k + 1 for s in free[-1]["subs"]) else free[-1]["subs"] + [{"k": k + 1, "kind": "ok", "d": 3}]
    res = ctx.run_cases(free, threads=4, name="free")
    for c in free:
        w = race(c, res[c["id"]])
        if w:
            ctx.violate(w, c, res[c["id"]])
    ctx.note("traces_validated_against_impl", len(free))
    ctx.cov["free_running"] = len(free)


def race(c, r):
    if "subs" not in r:
        return "no answer: " + str(r)[:300]
    if r["timeout"]:
        return "a reader waited for more than 30 s"
    for k in {s["k"] for s in c["subs"]}:
        st = [(i + 1, r["subs"][i], s["kind"]) for i, s in enumerate(c["subs"]) if s["k"] == k]
        ok = [i for i, x, _ in st if x == "ok"]
        if len(ok) > 1:
            return f"task {k}: several submissions were accepted: {ok}"
        if not ok and all(kind == "ok" for _, _, kind in st):
            return f"task {k}: no submission was accepted: {st}"
        rd = {x for x, s in zip(r["rds"], c["rds"]) if s["k"] == k}
        want = f"rows:{ok[0]}" if ok else None
        for x in rd:
            if want and x != want:
                return f"task {k}: submission {ok[0]} was accepted and a reader got {x}"
            if not want and x.startswith("rows"):
                return f"task {k}: no submission was accepted and a reader got {x}"
    n = len({s["k"] for i, s in enumerate(c["subs"])} - {s["k"] for i, s in enumerate(c["subs"]) if r["subs"][i] == "ok"})
    if r["left"] > n:
        return f"{r['left']} tasks are remembered after every coordinator has ended"
    return None
