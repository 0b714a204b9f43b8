"""C03: the broadcast operator against the histories of Broadcast.tla."""
import lib

LEVEL = "model_checking"

def cfg(p, n, scripts, maxlen, drop):
    return (f"Bc_{p}_{n}_{maxlen}_{drop}_{scripts}.cfg",
            f'SPECIFICATION Spec\nCONSTANTS P = {p}\nN = {n}\nMaxLen = {maxlen}\nScripts <- SC_{scripts}\nAllowDrop = {drop}\nINVARIANTS InOrder Complete Declared Emit\nCHECK_DEADLOCK FALSE\n')


def judge(c, r):
    if "res" not in r:
        return "no answer: " + str(r)[:300]
    for i, (s, x) in enumerate(zip(c["steps"], r["res"])):
        if s["exp"] != x:
            return f"step {i + 1} ({s['op']} of reader {s['c']} of partition {s['p']}): got {x!r}, the history requires {s['exp']!r}"
    if r["live"] != 0:
        return "the input is still being executed after every reader and the plan are gone"
    for p, n in enumerate(r["execs"]):
        if n > 1:
            return f"input partition {p} was executed {n} times"
    return None


def run(ctx):
    ctx.model("BroadcastImpl", "BroadcastImpl.cfg")
    # every history up to the bound ...
    beh = []
    for c in [cfg(1, 2, "small", ctx.pick(7, 9), "FALSE"), cfg(1, 2, "small", ctx.pick(6, 7), "TRUE"), cfg(1, 1, "big", ctx.pick(9, 11), "TRUE")]:
        r = ctx.model("BroadcastMC", c, workers=4)
        b = lib.tagged(r.stdout, "CASE")
        ctx.log(f"{c[0]}: {len(b)} histories")
        beh += b
    # ... and random walks of larger instances
    for c, n in [(cfg(2, 2, "big", 26, "TRUE"), ctx.pick(1500, 20000)), (cfg(1, 4, "big", 34, "FALSE"), ctx.pick(1000, 10000)), (cfg(3, 3, "big", 40, "TRUE"), ctx.pick(500, 10000))]:
        beh += ctx.generate("BroadcastMC", c, n, 45)
    cases = [dict(b, id=f"b{i}", driver="bcast") for i, b in enumerate(beh)]
    res = ctx.run_cases(cases)
    kinds = {}
    for c in cases:
        w = judge(c, res[c["id"]])
        if w:
            ctx.violate(w, c, res[c["id"]])
        for s in c["steps"]:
            kinds[s["op"] + ":" + (s["exp"] if not s["exp"].isdigit() else "batch")] = kinds.get(s["op"] + ":" + (s["exp"] if not s["exp"].isdigit() else "batch"), 0) + 1
    ctx.cov["steps_replayed"] = sum(kinds.values())
    ctx.log("steps " + str(kinds))
    for k in ("poll:batch", "poll:end", "poll:err", "poll:pending", "open:toomany", "open:xerr"):
        if not kinds.get(k):
            raise lib.ToolError(f"vacuous: no step of kind {k}")
    ctx.note("traces_validated_against_impl", len(cases))
    ctx.cov["samples"] += [c for c in cases[-3:]]
    # free running readers on several threads: what each of them received has to be a history of the model
    free = []
    for i in range(ctx.pick(400, 6000)):
        rng = ctx.rng
        p, n = rng.choice([1, 1, 2]), rng.choice([1, 2, 3, 5])
        k = rng.choice([0, 1, 3, 20, 60, 60, 300, 2000])
        script = [["b"] * k + rng.choice([[], [], ["err"], ["panic"]]) for _ in range(p)]
        readers = [[c * p + q, rng.choice([0, 0, 5, 100]), rng.choice([0, 0, 3, 30]), rng.choice([1000, 1000, 1000, 2])] for q in range(p) for c in range(n)]
        rng.shuffle(readers)
        free.append({"id": f"f{i}", "driver": "bcast", "P": p, "N": n, "script": script, "readers": readers, "mt": True})
    res = ctx.run_cases(free, threads=4, name="free")
    for c in free:
        r = res[c["id"]]
        w = None
        if "res" not in r:
            w = "no answer: " + str(r)[:300]
        else:
            for rd, got in zip(c["readers"], r["res"]):
                p = rd[0] % c["P"]
                want = [str(p * 10 + i + 1) if x == "b" else "err" for i, x in enumerate(c["script"][p])] + ["end"]
                if got != want[:rd[3]]:
                    w = f"reader {rd[0]} received {got[:8]}..({len(got)}) instead of {want[:8]}..({len(want)})"
            if not w and (r["live"] or any(x > 1 for x in r["execs"])):
                w = f"executions {r['execs']}, still running {r['live']}"
        if w:
            ctx.violate(w, c, r)
    ctx.note("traces_validated_against_impl", len(free))
    ctx.cov["free_running"] = len(free)
