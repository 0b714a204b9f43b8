"""C01: every query of the relational machine, on every deployment, returns the machine's answer."""
import lib, sqlgen

LEVEL = "model_checking"


def judge(ctx, case, r, m):
    """m: the machine's behaviour (query and answer); r: what the engine did."""
    exp = m["rel"]
    if "stuck" in r or "died" in r or "panic" in r:
        return "no answer: " + str({k: r[k] for k in r if k != "log"})[:300]
    if r.get("hang"):
        return "the query hangs"
    if "err" in r:
        return "the query failed although it has an answer: " + r["err"][:300]
    got = [[-999 if x is None else x for x in row] for row in r["rows"]]
    last = m["prog"][-1]
    if last["op"] == "limit":
        want = min(last["fetch"], max(0, len(exp) - last["skip"]))
        if len(got) != want:
            return f"{len(got)} rows instead of {want} for an unordered limit"
        e, g = lib.bag(exp), lib.bag(got)
        if any(n > e.get(k, 0) for k, n in g.items()):
            return "a limited query returned rows that are not part of the result"
        return None
    if last["op"] == "order":
        return None if got == exp else f"ordered result differs: got {got[:12]} expected {exp[:12]}"
    if lib.bag(got) != lib.bag(exp):
        e, g = lib.bag(exp), lib.bag(got)
        miss = [k for k, n in e.items() if g.get(k, 0) < n]
        extra = [k for k, n in g.items() if e.get(k, 0) < n]
        return f"rows differ: {len(got)} instead of {len(exp)}; missing {miss[:4]} extra {extra[:4]}"
    return None


def judge_single(case, r, m):
    """The machine against single-node DataFusion: a disagreement is about SQL, not about distribution."""
    s = r.get("single")
    if s is None or "rows" not in s:
        return False
    return judge(None, case, {"rows": s["rows"]}, m) is None


def run_sql(ctx, num, bias, mods=None, name="q", maxops=7, maxrows=60, procs=4):
    cfg = (f"Rel_{bias}.cfg", open(lib.SPECS + "/RelationalSim.cfg").read().replace('MaxOps = 7', f'MaxOps = {maxops}').replace('MaxRows = 60', f'MaxRows = {maxrows}').replace('"all"', f'"{bias}"'))
    ms = ctx.generate("Relational", cfg, num, maxops * 2 + 6, procs=procs)
    uniq, cases, mm = set(), [], {}
    for i, m in enumerate(ms):
        k = lib.ctup([m["tabs"], m["prog"]])
        if k in uniq:
            continue
        uniq.add(k)
        c = sqlgen.case(ctx.rng, m, f"{name}{i}", mods)
        mm[c["id"]] = m
        cases.append(c)
    ctx.log(f"{len(ms)} behaviours of Relational ({bias}), {len(cases)} distinct")
    res = ctx.run_cases(cases, name=name)
    nontrivial = oracle = dist = 0
    for c in cases:
        r, m = res[c["id"]], mm[c["id"]]
        if r.get("phase") == "plan" and "single" not in r:
            # planning failed: find out whether the query is at fault
            ctx.note("plan_errors")
        w = judge(ctx, c, r, m)
        if r.get("distributed"):
            dist += 1
            if m["rel"]:
                nontrivial += 1
        if w:
            # who is wrong? plain DataFusion gets the same query, with one partition and then with the very same settings
            ss = ctx.run_cases([dict(c, id="single", driver="single"), dict(c, id="same", driver="single", same_cfg=True)], name=name + "-single")
            if not all(judge_single(c, {"single": ss[k]}, m) for k in ("single", "same")):
                oracle += 1
                if oracle <= 3:
                    ctx.log("oracle disagreement", c["sql"][:300], str({k: ss[k] for k in ss})[:200])
                continue
            ctx.violate(w, c, r, key=None)
    ctx.note("traces_validated_against_impl", len(cases) - oracle)
    ctx.note("distributed_queries", dist)
    ctx.note("nontrivial_distributed_queries", nontrivial)
    ctx.note("oracle_disagreements", oracle)
    ctx.cov["samples"] += [{"sql": c["sql"], "cfg": c["cfg"], "answer": mm[c["id"]]["rel"][:4]} for c in cases[:3]]
    if dist < len(cases) * 0.2:
        raise lib.ToolError("vacuous: hardly any query was distributed")
    if oracle > max(3, len(cases) * 0.03):
        raise lib.ToolError(f"{oracle} of {len(cases)} queries disagree with single-node execution: the specification is wrong")
    return cases, res, mm


def run(ctx):
    run_sql(ctx, ctx.pick(2000, 36000), "all", name="a")
    run_sql(ctx, ctx.pick(1000, 12000), "aggs", name="g")
