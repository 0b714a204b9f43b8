"""C11: the readers of one connection against Transport.tla."""
import lib

LEVEL = "model_checking"


def cfg(p, scripts, budgets, maxlen, drop, balanced="FALSE", inv="InOrder CompleteEnd Emit"):
    return (f"Tr_{p}_{scripts}_{budgets}_{maxlen}_{drop}_{balanced}.cfg",
            f"SPECIFICATION Spec\nCONSTANTS P = {p}\nScripts <- SC_{scripts}\nBudgets <- BU_{budgets}\nMaxLen = {maxlen}\nAllowDrop = {drop}\nBalanced = {balanced}\n"
            f"INVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n")


BIG = 66000
BAD = (["err"], ["panic"])


def judge(c, r):
    if "res" not in r:
        return "no answer: " + str(r)[:300]
    gone = set()
    for n, (s, o) in enumerate(zip(c["steps"], r["res"])):
        at = f"step {n + 1} ({s['op']} of partition {s['p']})"
        if s["op"] == "poll" and o["r"] not in s["exp"]:
            return f"{at}: got {o['r']!r}, the history requires {' or '.join(s['exp'])}"
        if s["op"] == "drop":
            gone.add(s["p"])
        if s["hold"] >= 0:
            if o["made"] > s["hold"]:
                return f"{at}: the remote side has produced {o['made']} batches, with this budget it may have produced {s['hold']}"
            lim = c["budget"] + BIG * (c["P"] + 2)
            if o["mem"] > lim:
                return f"{at}: {o['mem']} bytes are buffered with a budget of {c['budget']}"
        if len(gone) == c["P"] and n + 1 < len(c["steps"]) and r["res"][n + 1]["live"]:
            return f"{at}: every reader is gone and the remote partitions are still running"
    if r["live"]:
        return "every reader is gone and the remote partitions are still running"
    if r["mem"]:
        return f"{r['mem']} bytes are still accounted for after every reader is gone"
    if r["left"]:
        return "the task is still remembered after its coordinator ended"
    f = c.get("first", 1)
    if len(set(r["execs"])) != len(r["execs"]) or any(not f <= x < f + c["P"] for x in r["execs"]):
        return f"partitions executed: {r['execs']}, requested {f}..{f + c['P'] - 1}"
    return None


def run(ctx):
    ctx.model("TransportMC", "TransportMC2.cfg")
    if not ctx.quick():
        ctx.model("TransportMC", "TransportMC3.cfg")
    beh = []
    for c in [cfg(2, "small", "one", ctx.pick(4, 5), "FALSE"), cfg(2, "gate", "one", ctx.pick(5, 6), "TRUE"), cfg(1, "small", "one", ctx.pick(6, 7), "TRUE")]:
        r = ctx.model("TransportGenMC", c)
        b = lib.tagged(r.stdout, "CASE")
        ctx.log(f"{c[0]}: {len(b)} histories")
        beh += b
    lim = ctx.pick(5000, 60000)
    if len(beh) > lim:
        ctx.note("histories_not_replayed", len(beh) - lim)
        beh = ctx.rng.sample(beh, lim)
    hold = []
    for c, n in [(cfg(1, "long", "hold", 60, "FALSE", "TRUE", "Emit"), ctx.pick(8, 40)), (cfg(3, "long", "hold", 90, "FALSE", "TRUE", "Emit"), ctx.pick(12, 60))]:
        hold += ctx.walks("TransportGenMC", c, n, 100)
    for c, n in [(cfg(3, "big", "all", 30, "FALSE", "FALSE", "Emit"), ctx.pick(250, 3000)), (cfg(2, "fail", "all", 24, "TRUE", "FALSE", "Emit"), ctx.pick(250, 3000)), (cfg(4, "fail", "all", 36, "TRUE", "FALSE", "Emit"), ctx.pick(200, 3000))]:
        beh += ctx.walks("TransportGenMC", c, n, 45)
    ctx.log(f"{len(beh)} histories")
    beh += hold
    cases = [dict(b, id=f"t{i}", driver="conn", first=ctx.rng.choice([0, 1, 3]), duplex=ctx.rng.choice([1 << 16, 1 << 20]), compression=ctx.rng.choice([None, None, "zstd", "lz4"]) if b["steps"][0]["hold"] < 0 else None) for i, b in enumerate(beh)]
    ctx.log("generated")
    res = ctx.run_cases(cases)
    seen, most = {}, -999
    for c in cases:
        w = judge(c, res[c["id"]])
        if w:
            ctx.violate(w, c, res[c["id"]])
        for s, o in zip(c["steps"], res[c["id"]].get("res", [])):
            k = o["r"] if not o["r"].isdigit() else "batch"
            seen[k] = seen.get(k, 0) + 1
            if s["hold"] >= 0:
                most = max(most, o["made"] - s["hold"])
    ctx.log(f"{len(cases)} histories, outcomes {seen}; closest to the production bound: {most}")
    for k in ("batch", "err", "end", "pending"):
        if not seen.get(k):
            raise lib.ToolError(f"vacuous: no poll that gives {k}")
    ctx.note("traces_validated_against_impl", len(cases))
    ctx.cov["steps_replayed"] = sum(len(c["steps"]) for c in cases)
    ctx.cov["held_back_histories"] = len(hold)
    ctx.cov["samples"] += cases[:1] + cases[-1:]
    # free running readers: each one receives a prefix of its partition's script, all of it if it stays
    free = []
    for i in range(ctx.pick(120, 2500)):
        rng = ctx.rng
        p = rng.choice([1, 2, 3, 5])
        sc = [[rng.choice("bbB") for _ in range(rng.choice([0, 1, 5, 25]))] for _ in range(p)]
        if rng.random() < 0.2:
            sc[rng.randrange(p)].append(rng.choice(["err", "panic"]))
        free.append({"id": f"f{i}", "driver": "connfree", "P": p, "mt": True, "script": sc, "budget": rng.choice([1, 100000, 1000000, 64 << 20]), "duplex": rng.choice([1 << 12, 1 << 16, 1 << 20]),
                     **({"msg": m} if (m := rng.choice([0, 0, 5000, 60000, 400000])) else {}), "readers": [[rng.choice([1000, 1000, 1000, 3, 0]), rng.choice([0, 0, 5, 50]), rng.choice([0, 0, 50])] for _ in range(p)]})
    res = ctx.run_cases(free, threads=4, name="free")
    for c in free:
        w = judge_free(c, res[c["id"]])
        if w:
            ctx.violate(w, c, res[c["id"]])
    ctx.note("traces_validated_against_impl", len(free))
    ctx.cov["free_running"] = len(free)


def judge_free(c, r):
    if "res" not in r:
        return "no answer: " + str(r)[:300]
    fails = any(s[-1:] in BAD for s in c["script"])
    for p, got in enumerate(r["res"]):
        own = [str(p * 1000 + k + 1) for k in range(len(c["script"][p]) - (1 if c["script"][p][-1:] in BAD else 0))]
        body = [x for x in got if x.isdigit()]
        lim = c["readers"][p][0]
        if body != own[:len(body)]:
            return f"reader {p} received {body[:8]}, the partition holds {own[:8]}"
        last = got[-1] if got else ""
        if len(got) < lim or last == "end":
            if last == "err" and not fails:
                return f"reader {p} got an error out of nothing"
            if last == "end" and (body != own or c["script"][p][-1:] in BAD):
                return f"reader {p} was told the end after {len(body)} of {len(own)} batches"
            if last not in ("err", "end"):
                return f"reader {p}: {last!r} after {len(body)} of {len(own)} batches"
    if r["live"] or r["mem"]:
        return f"after every reader left {r['live']} partitions are running and {r['mem']} bytes are accounted for"
    return None
