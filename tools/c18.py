"""C18: errors on their way from a worker to the client. Errors.tla says what may become of an error; ErrorsImpl.tla is the coding."""
import json
import lib
import plans

LEVEL = "model_checking"
IO = ("NotFound PermissionDenied ConnectionRefused ConnectionReset HostUnreachable NetworkUnreachable ConnectionAborted NotConnected AddrInUse AddrNotAvailable NetworkDown "
      "BrokenPipe AlreadyExists WouldBlock NotADirectory IsADirectory DirectoryNotEmpty ReadOnlyFilesystem StaleNetworkFileHandle InvalidInput InvalidData TimedOut WriteZero "
      "StorageFull NotSeekable QuotaExceeded FileTooLarge ResourceBusy ExecutableFileBusy Deadlock CrossesDevices TooManyLinks InvalidFilename ArgumentListTooLong Interrupted "
      "Unsupported UnexpectedEof OutOfMemory Other").split()
# kind -> its fields: t text, e fixed empty text, o optional text, n number, s store, r table reference, c column
FIELDS = {k: "t" for k in "NotImplemented Internal Plan Configuration Execution ResourcesExhausted External Substrait Ffi".split()}
FIELDS |= {f"Io.{k}": "t" for k in IO} | {f"ArrowIo.{k}": "tto" for k in IO}
FIELDS |= {f"Arrow.{k}": "to" for k in ("NotYetImplemented ExternalError CastError MemoryError ParseError SchemaError ComputeError ArithmeticOverflow CsvError JsonError IpcError "
                                        "InvalidArgumentError ParquetError CDataInterface AvroError").split()}
FIELDS |= {f"Arrow.{k}": "eo" for k in ("DivideByZero", "DictionaryKeyOverflowError", "RunEndIndexOverflowError")} | {"Arrow.OffsetOverflowError": "no"}
FIELDS |= {f"Parquet.{k}": "t" for k in ("General", "NYI", "EOF", "ArrowError", "External")} | {"Parquet.IndexOutOfBound": "nn", "Parquet.NeedMoreData": "n"}
FIELDS |= {"Sql.TokenizerError": "to", "Sql.ParserError": "to", "Sql.RecursionLimitExceeded": "eo"}
FIELDS |= {"Schema.AmbiguousReference": "co", "Schema.DuplicateQualifiedField": "rto", "Schema.DuplicateUnqualifiedField": "to", "Schema.FieldNotFound": "cCo"}
FIELDS |= {f"Store.{k}": "tt" for k in ("NotFound", "AlreadyExists", "Precondition", "NotModified", "NotImplemented", "PermissionDenied", "Unauthenticated")}
FIELDS |= {"Store.Generic": "st", "Store.UnknownConfigurationKey": "st", "Store.NotSupported": "t", "Store.InvalidPath": "t"}
CUT = "... (truncated)"
TEXTS = ["", "x", "no such thing", "päth \"q\"\n\ttab \u2603", "{}", "a: b: c", "+", "DataFusionError", "%41%", "External error: x"]


def error(rng, kind, kids, n):
    def field(f):
        if f == "t":
            return rng.choice(TEXTS) + (f" #{n}" if rng.random() < 0.8 else "")
        if f == "e":
            return ""
        if f == "o":
            return rng.choice(["", "", "+", "+trace of\n it", "+\u2603"])
        if f == "n":
            return str(rng.choice([0, 1, 7, 2**31, 2**32 + 5, 2**53 + 1, 2**63, 2**64 - 1]))
        if f == "s":
            return rng.choice(["S3", "GCS", "MicrosoftAzure", "HTTP", "InMemory", "LocalFileSystem", "Config"])
        if f == "r":
            return "|".join(rng.choice(["a", "B c", "ü"]) for _ in range(rng.randint(1, 3)))
        return rng.choice(["", field("r")]) + ">" + rng.choice(["k", "K \"v\"", ""])
    s = []
    for f in FIELDS.get(kind, "t" if kind == "Context" else ""):
        s += [field("c") for _ in range(rng.randint(0, 3))] if f == "C" else [field(f)]
    return {"k": kind, "s": s, "c": kids}


def tree(rng, shape, n):
    """shape: [kind, kid shapes...]"""
    return error(rng, shape[0], [tree(rng, x, n * 10 + i) for i, x in enumerate(shape[1:], 1)], n)


def case(rng, i, shapes, long=0):
    t, np = rng.randint(2, 3), rng.randint(1, 2)
    errs = [tree(rng, s, j) for j, s in enumerate(shapes, 1)]
    if long:
        errs[0]["s"][0] = "long " + "".join(rng.choice(["abcdefgh ", "päth/", "\"12\"\n"]) for _ in range(long // 7))
    splits = [[[[[1, 10 * a + b]]] for b in range(np)] for a in range(t)]
    places = [(a, b) for a in range(t) for b in range(np)]
    for (a, b), e in zip(rng.sample(places, len(errs)), errs):
        x = rng.choice(["err", "err", "xerr"])
        # an error of the execution comes before any row of its partition
        splits[a][b] = ([[[1, 10 * a + b]]] if x == "err" and rng.random() < 0.5 else []) + [{x: json.dumps(e)}]
    leaf = {"name": "t0", "cols": ["k:i", "id:i"], "count": f"m{t}", "parts": [[] for _ in range(np)], "splits": {str(t): splits}}
    # errors of work unit feeds are raised in the coordinator, and seen by the tasks that wait for the units
    leaf["wuf"] = rng.random() < 0.15
    node = {"op": "tap", "label": "n0", "mode": "", "in": {"op": "wuf", "leaf": 0} if leaf["wuf"] else {"op": "leaf", "i": 0}}
    now, hops = t, rng.randint(1, 3)
    for h in range(1, hops + 1):
        to = 1 if h == hops else rng.randint(1, 3)
        kind = "gather" if h == hops else rng.choice(["gather", "shuffle", "bcast"])
        if kind == "shuffle":
            node = {"op": "nshuffle", "tasks": now, "in": {"op": "hash", "n": 2, "in": node}}
        else:
            node = {"op": "ngather" if kind == "gather" else "nbcast", "tasks": now, "consumers": to, "in": node}
        node = {"op": "tap", "label": f"n{h}", "mode": f"m{to}", "in": node}
        now = to
    cfg = {"workers": 3, "grpc": rng.random() < 0.8, "parts": 2, "max_tasks": 0}
    return {"id": f"e{i}", "driver": "sql", "verbose": True, "cfg": cfg, "leaves": [leaf], "plan": {"op": "coalesce", "in": node}, "errs": errs}


def trace(c, r):
    faults = [e for e in r["log"] if e["ev"] == "fault"]
    raised = [dict(json.loads(e["msg"]), long=len(e["msg"].encode()) > 7000) for e in faults]

    def known(x):
        """The beginning of a raised error's text is named as such."""
        while isinstance(x, dict) and x["k"] == "Shared":
            x = x["c"][0]
        if isinstance(x, dict) and x["k"] == "Execution" and x["s"][0].endswith(CUT):
            t = x["s"][0][:-len(CUT)]
            of = [j for j, e in enumerate(faults, 1) if len(t) > 1000 and e["text"].startswith(t)]
            if of:
                return {"k": "Beginning", "s": [str(of[0])], "c": [], "of": of[0]}
        return x
    seen = [{"at": e["at"][0], "e": known(e["err"])} for e in r["log"] if e["ev"] == "tap_err"]
    got = "hang" if "hang" in r else "error" if "error" in r else "an unplannable query" if "err" in r else "rows"
    return {"id": c["id"], "raised": raised, "seen": seen, "got": got, "error": known(r.get("error", ""))}


def run(ctx):
    ctx.model("ErrorsImpl", "ErrorsImpl.cfg")
    for c in ("Gaps", "Flatten", "LeaveOut", "Again"):
        plans.refuted(ctx, "ErrorsImpl", f"Errors{c}.cfg")
    g = ctx.model("ErrorsGen", (f"ErrorsGen{ctx.pick(1, 2)}.cfg", f"SPECIFICATION Spec\nCONSTANT Depth = {ctx.pick(1, 2)}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"))
    shapes = lib.tagged(g.stdout, "CASE")
    single = [s for s in shapes if len(s) == 1]
    if {s[0] for s in single} != set(FIELDS):
        raise lib.ToolError("the kinds of Errors.tla and of the harness differ")
    deep = [s for s in shapes if len(s) > 1]
    rng = ctx.rng
    rng.shuffle(deep)
    # every kind alone, at least twice; then the deeper shapes; some queries with several failing partitions
    jobs = [[s] for s in single * ctx.pick(3, 8)] + [[s] for s in deep[:ctx.pick(900, 12000)]]
    jobs += [[s] + rng.sample(single, 1) for s in rng.sample(deep, ctx.pick(200, 1500))]
    cases = [case(rng, i, s) for i, s in enumerate(jobs)]
    texts = [s for s in single if FIELDS[s[0]][0] == "t"]
    for n in (1000, 3000, 5000, 12000, 20000, 66000, 200000, 1000000):
        cases += [case(rng, len(cases) + i, [s], n) for i, s in enumerate(rng.sample(texts, 4))]
    ctx.log(f"{len(shapes)} shapes, {len(cases)} queries")
    res = ctx.run_cases(cases, secs=60)
    judge(ctx, cases, res)


def judge(ctx, cases, res):
    tr = {c["id"]: trace(c, res[c["id"]]) for c in cases if "log" in res[c["id"]]}
    v = ctx.accept("ErrorsTrace", list(tr.values()), procs=6)
    for c in cases:
        r = res[c["id"]]
        if c["id"] not in tr:
            ctx.violate(f"no answer: {str(r)[:300]}", c, r)
        elif v[c["id"]]["w"] != "ok":
            t = tr[c["id"]]
            ctx.violate(f"{v[c['id']]['w']}: raised {json.dumps(t['raised'])[:300]}, got {json.dumps(t['error'])[:300]} ({str(r.get('err'))[:200]})", c, r)
    ctx.note("traces_validated_against_impl", len(tr))
    ctx.note("errors_seen", sum(len(t["seen"]) for t in tr.values()))
    ctx.note("queries_that_failed", sum(t["got"] == "error" for t in tr.values()))
