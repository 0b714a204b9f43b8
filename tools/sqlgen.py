"""Relational machine program -> SQL text, and deployments to run it on."""
import json

S = "v%d_padding_padding"
CMP = {"=": "=", "<": "<", "<>": "<>"}


class TypeErr(Exception):
    pass


def lit(v, t):
    if v == -999:
        return "NULL"
    return str(v) if t == "i" else f"'{S % v}'"


def to_sql(prog, ctypes):
    """ctypes: per table the type letter of its two columns. Returns (sql, types of output)"""
    st = []

    def cols(n, q=""):
        return ", ".join(f"{q}c{i} as c{i}" for i in range(1, n + 1))

    for o in prog:
        k = o["op"]
        if k == "scan":
            t = o["t"]
            st.append((f"select a as c1, b as c2 from t{t}", list(ctypes[t - 1])))
            continue
        if k in ("join", "setop", "scalar"):
            (rs, rt) = st.pop()
            (ls, lt) = st.pop()
        else:
            (s, t) = st.pop()
        if k == "filter":
            p = o["p"]
            c = f"c{p['c']}"
            ct = t[p["c"] - 1]
            if p["k"] == "isnull":
                w = f"{c} is null"
            elif p["k"] == "notnull":
                w = f"{c} is not null"
            elif p["k"] == "cc":
                if (t[p["d"] - 1] == "i") != (ct == "i"):
                    raise TypeErr()
                w = f"{c} {p['op']} c{p['d']}"
            else:
                w = f"{c} {p['op']} {lit(p['v'], ct)}"
            st.append((f"select * from ({s}) x where {w}", t))
        elif k == "project":
            a, b = o["a"], o["b"]
            if o["plus"] and t[b - 1] != "i":
                raise TypeErr()
            st.append((f"select c{a} as c1, {'c%d + 10' % b if o['plus'] else 'c%d' % b} as c2 from ({s}) x", [t[a - 1], t[b - 1]]))
        elif k == "join":
            ty, on = o["t"], o["on"]
            lc, rc = lt[o["c"] - 1], rt[o["d"] - 1]
            if on in ("=", "<", "<>", "eqlt") and (lc == "i") != (rc == "i"):
                raise TypeErr()
            if on == "eqlt" and (lt[1] == "i") != (rt[1] == "i"):
                raise TypeErr()
            if ty == "mark" and lt[0] != "i" and False:
                raise TypeErr()
            cond = {"true": "true", "eqlt": f"l.c{o['c']} = r.c{o['d']} and l.c2 < r.c2"}.get(on, f"l.c{o['c']} {on} r.c{o['d']}")
            nl, nr = len(lt), len(rt)
            if ty in ("inner", "left", "right", "full"):
                sel = cols(nl, "l.") + ", " + ", ".join(f"r.c{i} as c{nl + i}" for i in range(1, nr + 1))
                j = f"cross join ({rs}) r" if on == "true" else f"{ty} join ({rs}) r on {cond}"
                st.append((f"select {sel} from ({ls}) l {j}", lt + rt))
            elif ty in ("semi", "anti"):
                st.append((f"select l.* from ({ls}) l where {'not ' if ty == 'anti' else ''}exists (select 1 from ({rs}) r where {cond})", lt))
            elif ty == "mark":
                st.append((f"select l.* from ({ls}) l where exists (select 1 from ({rs}) r where {cond}) or l.c1 = {lit(o['v'], lt[0])}", lt))
            else:
                st.append((f"select l.* from ({ls}) l where l.c{o['c']} not in (select r.c{o['d']} from ({rs}) r)", lt))
        elif k == "setop":
            if [x == "i" for x in lt] != [x == "i" for x in rt]:
                raise TypeErr()
            ty = [a if a == b else ("v" if "v" in (a, b) else "s") for a, b in zip(lt, rt)]
            kw = {"unionall": "union all", "union": "union", "intersect": "intersect", "except": "except"}[o["k"]]
            st.append((f"select * from (({ls}) {kw} ({rs})) x", ty))
        elif k == "agg":
            ct = t[o["c"] - 1]
            fs = []
            for i, f in enumerate((o["f1"], o["f2"])):
                if f == "sum" and ct != "i":
                    raise TypeErr()
                fs.append({"count": "count(*)", "countc": f"count(c{o['c']})", "countd": f"count(distinct c{o['c']})"}.get(f, f"{f}(c{o['c']})"))
            ft = ["i" if f in ("count", "countc", "countd", "sum") else ct for f in (o["f1"], o["f2"])]
            if o["g"] == 0:
                st.append((f"select {fs[0]} as c1, {fs[1]} as c2 from ({s}) x", ft))
            else:
                st.append((f"select c{o['g']} as c1, {fs[0]} as c2, {fs[1]} as c3 from ({s}) x group by c{o['g']}", [t[o["g"] - 1]] + ft))
        elif k == "aggg":
            ct = t[o["c"] - 1]
            if ct != "i" and {o["f1"], o["f2"]} & {"sum", "sumd"}:
                raise TypeErr()
            fn = lambda f: {"count": "count(*)", "countc": f"count(c{o['c']})", "countd": f"count(distinct c{o['c']})", "sumd": f"sum(distinct c{o['c']})"}.get(f, f"{f}(c{o['c']})")
            flt = f" filter (where c{o['fc']} < {lit(o['v'], t[o['fc'] - 1])})" if o["fc"] else ""
            g, h = f"c{o['g']}", f"c{o['h']}"
            by = {"both": f"{g}, {h}", "rollup": f"grouping sets(({g}, {h}), ({g}))", "cube": f"grouping sets(({g}, {h}), ({g}), ({h}))", "sets": f"grouping sets(({g}), ({h}))", "sets2": f"grouping sets(({g}, {h}), ({h}))"}[o["k"]]
            st.append((f"select {g} as c1, {h} as c2, {fn(o['f1'])}{flt} as c3, {fn(o['f2'])} as c4 from ({s}) x group by {by}",
                       [t[o["g"] - 1], t[o["h"] - 1]] + ["i" if f in ("count", "countc", "countd", "sum", "sumd") else ct for f in (o["f1"], o["f2"])]))
        elif k == "distinct":
            st.append((f"select distinct * from ({s}) x", t))
        elif k == "window":
            if t[o["c"] - 1] != "i":
                raise TypeErr()
            st.append((f"select {cols(len(t))}, sum(c{o['c']}) over (partition by c{o['g']}) as c{len(t) + 1} from ({s}) x", t + ["i"]))
        elif k == "windowk":
            c, ct = f"c{o['c']}", t[o["c"] - 1]
            if o["k"] == "running" and ct != "i":
                raise TypeErr()
            f = {"rank": "rank()", "dense": "dense_rank()", "running": f"sum({c})", "count": "count(*)", "max": f"max({c})"}[o["k"]]
            over = " ".join(([f"partition by c{o['g']}"] if o["g"] else []) + ([f"order by {c} asc nulls last"] if o["k"] in ("rank", "dense", "running") else []))
            st.append((f"select {cols(len(t))}, {f"cast({f} over ({over}) as bigint)" if "rank" in f else f"{f} over ({over})"} as c{len(t) + 1} from ({s}) x", t + [ct if o["k"] == "max" else "i"]))
        elif k == "scalar":
            ct = rt[o["c"] - 1]
            if o["f"] == "sum" and ct != "i":
                raise TypeErr()
            f = "count(*)" if o["f"] == "count" else f"{o['f']}(r.c{o['c']})"
            st.append((f"select l.*, (select {f} from ({rs}) r) as c{len(lt) + 1} from ({ls}) l", lt + ["i" if o["f"] in ("count", "sum") else ct]))
        elif k == "order":
            d = "desc nulls first" if o["desc"] else "asc nulls last"
            st.append((f"select * from ({s}) x order by " + ", ".join(f"c{i} {d}" for i in range(1, len(t) + 1)) + f" limit {o['fetch']}" + (f" offset {o['skip']}" if o["skip"] else ""), t))
        elif k == "limit":
            st.append((f"select * from ({s}) x limit {o['fetch']}" + (f" offset {o['skip']}" if o["skip"] else ""), t))
        else:
            raise AssertionError(k)
    assert len(st) == 1
    return st[0]


def deployment(rng, mods=None):
    c = {"workers": rng.choice([1, 2, 3, 3, 4, 5]), "parts": rng.choice([1, 2, 2, 3, 3, 4, 5]), "grpc": rng.random() < 0.35,
         "ciu": rng.random() < 0.7, "bcast": rng.random() < 0.75, "preduce": rng.random() < 0.4, "dyn": rng.random() < 0.3,
         "max_tasks": rng.choice([0, 0, 0, 1, 2, 3]), "factor": rng.choice([1.0, 1.0, 1.5, 2.0]), "metrics": rng.random() < 0.3,
         "batch": rng.choice([1, 2, 3, 8192, 8192])}
    if rng.random() < 0.3:
        c["shuffle_batch"] = rng.choice([1, 2, 5])
    if rng.random() < 0.3:
        c["budget"] = rng.choice([1, 200, 5000])
    if c["grpc"]:
        c["compression"] = rng.choice(["zstd", "lz4", "none"])
    if rng.random() < 0.3:
        c["dyn_bytes"] = rng.choice([1, 16, 100])
    if rng.random() < 0.25:
        c["route"] = [rng.randrange(c["workers"]) for _ in range(3)]
    if rng.random() < 0.15:
        c["local"] = rng.randrange(c["workers"])
    o = {}
    if rng.random() < 0.25:
        o["datafusion.optimizer.prefer_hash_join"] = "false"
    if rng.random() < 0.25:
        o["datafusion.optimizer.hash_join_single_partition_threshold"] = "0"
        o["datafusion.optimizer.hash_join_single_partition_threshold_rows"] = "0"
    if rng.random() < 0.15:
        o["datafusion.optimizer.repartition_joins"] = "false"
    if rng.random() < 0.1:
        o["datafusion.optimizer.repartition_aggregations"] = "false"
    if rng.random() < 0.15:
        o["datafusion.execution.coalesce_batches"] = "false"
    if rng.random() < 0.2:
        o["datafusion.optimizer.prefer_existing_sort"] = "true"
    if rng.random() < 0.1:
        o["datafusion.optimizer.repartition_sorts"] = "false"
    if rng.random() < 0.1:
        o["datafusion.optimizer.repartition_windows"] = "false"
    if rng.random() < 0.1:
        o["datafusion.optimizer.enable_round_robin_repartition"] = "false"
    if o:
        c["opts"] = o
    c.update(mods or {})
    return c


def deal(rng, rows, nparts, maxbatch=3, sort=False):
    """rows cut into batches, dealt to partitions"""
    if sort:
        rows = sorted(rows)  # -999 (NULL) first: the order a sorted leaf declares
    rows = [[None if x == -999 else x for x in r] for r in rows]
    parts = [[] for _ in range(nparts)]
    i = 0
    while i < len(rows):
        k = rng.randint(1, maxbatch)
        p = parts[rng.randrange(nparts)]
        p.append(rows[i:i + k])
        if rng.random() < 0.15:
            p.append(rng.choice([{"yield": 1}, {"sleep": rng.randint(1, 30)}, []]))
        i += k
    return parts


def leaf(rng, name, rows, ct, count=None):
    n = rng.choice([1, 2, 3])
    stats = rng.choice(["", "exact", "exact", "inexact", "small", "huge"])
    l = {"name": name, "cols": ["a:" + ct[0], "b:" + ct[1]], "place": rng.choice(["rr", "rr", "first", "last", "block", "rev"]),
         "count": count if count is not None else rng.choice(["", "d2", "d2", "d3", "d3", "d5", "m1", "m2", "m3", "d1"]), "stats": stats,
         "split_parts": n}
    sort = rng.random() < 0.3
    if sort:
        # a source that declares its order; slices are taken in order, so that they keep it
        l["sort"] = 0
        l["place"] = rng.choice(["rr", "first", "last"])
    if rng.random() < 0.3:
        l["limits"] = True
    l["parts"] = deal(rng, rows, n, sort=sort)
    return l


def case(rng, m, cid, mods=None):
    ct = ["ii", "ii", "ii"]
    if rng.random() < 0.4:
        k = rng.choice(["s", "d", "v"])
        ct = rng.choice([[k + "i"] * 3, [k + k] * 3, ["i" + k] * 3])
    try:
        sql, _ = to_sql(m["prog"], ct)
    except TypeErr:
        ct = ["ii", "ii", "ii"]
        sql, _ = to_sql(m["prog"], ct)
    cfg = deployment(rng, mods)
    if "d" in ct[0]:  # DataFusion's sort-merge join has no comparator for dictionaries
        cfg.get("opts", {}).pop("datafusion.optimizer.prefer_hash_join", None)
    return {"id": cid, "driver": "sql", "sql": sql, "cfg": cfg, "leaves": [leaf(rng, f"t{i + 1}", m["tabs"][i], ct[i]) for i in range(3)]}
