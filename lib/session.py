"""Session suite: behaviours of BoltSession.tla replayed on real connections and judged by BoltCore."""
import json

import vfutil

STMT = {"exec", "query", "txexec", "txquery"}


def cfg(v, bug="none", maxops=5, deep=0, pipeline=True, rich=True, emit=False):
    return ("SPECIFICATION Spec\nCONSTANTS V = {%s} Bug = \"%s\" MaxOps = %d Deep = %d Pipeline = %s Rich = %s\n"
            "INVARIANTS Correct Agree Stuck\nVIEW View\nCHECK_DEADLOCK FALSE\n%s" %
            (v, bug, maxops, deep, str(pipeline).upper(), str(rich).upper(), "ACTION_CONSTRAINT Emit\n" if emit else ""))


def key(s):
    return json.dumps([s["v"], [[o["op"], o["h"], o["db"], o["bad"], o["f"], o["rf"]] for o in s["ops"]]])


def leaves(scens):
    """Drops scenarios that are a beginning of another one."""
    seen = {}
    for s in scens:
        seen[key(s)] = s
    inner = set()
    for s in seen.values():
        for n in range(1, len(s["ops"])):
            inner.add(key({"v": s["v"], "ops": s["ops"][:n]}))
    return [s for k, s in seen.items() if k not in inner]


def op(name, h=0, db=0, f=(), x="", rf="", bad=0):
    return {"op": name, "h": h, "db": db, "bad": bad, "f": [{"t": "ok", "n": n} for n in f], "rf": rf, "x": x}


def plan(v, name, intx):
    two = 2 if v <= 2 else 1
    if name in STMT:
        return 2
    if name in ("begin", "commit", "rollback"):
        return two
    if name in ("idle", "close") and intx:
        return two
    return 0


def suffix(s):
    """What is tried after the behaviour, to see the effects of its end: does the connection still work (or refuse
    to), is the transaction alive, do results still belong to their statements."""
    v, nh = s["v"], s["nh"]
    one = lambda name, n=None: [0] * plan(v, name, True) if n is None else [0, n]
    last = s["ops"][-1]["op"] if s["ops"] else ""
    if not s["alive"]:
        out = [op("query", f=[0, 0], x="ref")]
        if nh:
            out.append(op("txexec", h=nh, x="ref"))
        return out + [op("validate"), op("begin", x="ref"), op("close", x="ref")]
    if not s["link"]:
        return [op("query", x="dead"), op("exec", x="ref"), op("validate"), op("close", x="ref")]
    out = []
    if s["tx"]:
        out += [op("txquery", h=s["tx"], f=[0, 2]), op("commit", h=s["tx"], f=one("commit")),
                op("txexec", h=s["tx"], x="ref")]
    elif nh:
        out += [op("txquery", h=nh, x="ref")]
    out += [op("query", f=[0, 2]), op("begin", f=one("begin")), op("txquery", h=nh + 1, f=[0, 1]),
            op("commit" if len(s["ops"]) % 2 else "rollback", h=nh + 1, f=one("commit")), op("validate"),
            op("close", x="dead"), op("query", x="ref")]
    return out


def generate(ctx, v, emit=True, **kw):
    got = []

    def sink(text):
        if text.startswith("SCENARIO "):
            got.append(json.loads(text[len("SCENARIO "):]))
    ctx.tlc("BoltSession", cfg(v, emit=emit, **kw), workers=1 if emit else 2, sink=sink, timeout=500)
    return got


def simulate(ctx, v, num, maxops, seed):
    """Long random behaviours of the design."""
    got = []

    def sink(text):
        if text.startswith("SCENARIO "):
            got.append(json.loads(text[len("SCENARIO "):]))
    c = cfg(v, maxops=maxops, pipeline=False, emit=True).replace("VIEW View\n", "")
    ctx.tlc("BoltSession", c, workers=1, sink=sink, timeout=300,
            extra=["-simulate", "num=%d" % num, "-depth", str(maxops * 14), "-seed", str(seed)])
    return leaves(got)


BASE = {"chunk": 0, "pad": 0, "srvch": 0, "seg": 0, "pause": False, "probe": False, "tmo": 150, "via": "", "look": 0, "mult": 0}


def variants(ctx, scens, kinds):
    """Ways of running the scenarios."""
    out = []
    rng = ctx.rng
    for s in scens:
        for kind in kinds:
            r = dict(BASE, v=s["v"], ops=s["ops"] + suffix(s), id=len(out) + 1, kind=kind)
            if kind in ("look", "many"):
                r["look"] = rng.randrange(1, 10 ** 6)
                if kind == "many" and rng.random() < 0.15:
                    r["mult"] = rng.choice([3, 7, 50, 130, 1000])
            elif kind == "probe":
                r["probe"] = True
            elif kind == "chunk":
                r["chunk"] = rng.choice([1, 2, 3, 5, 7, 16, 17, 255, 256, 65535])
                r["pad"] = rng.choice([1, 15, 16, 40, 250, 300, 511, 700]) if r["chunk"] > 2 else rng.choice([1, 7, 30])
            elif kind == "big":
                r["chunk"] = rng.choice([0, 4096, 30000, 65535])
                r["pad"] = rng.choice([4000, 8192, 65490, 65535, 70000, 140000])
            elif kind == "tls":
                r["via"] = "tls"
                r["srvch"] = rng.choice([0, 0, 1, 5])
                r["probe"] = rng.random() < 0.3
            elif kind[:5] == "split":
                r["srvch"] = rng.choice([0, 1, 2, 3, 5, 100])
                r["seg"] = rng.choice([1, 2, 3, 7, -1, -1])
                r["pause"] = True
                if kind == "splitlook":
                    r["look"] = rng.randrange(1, 10 ** 6)
                    if rng.random() < 0.05:
                        r["mult"] = rng.choice([3, 7, 50, 200])
                        r["seg"], r["pause"] = -1, False
            out.append(r)
    return out


def stalls(s):
    return sum(1 for o in s["ops"] if o["rf"] == "stall" or any(f["t"] == "stall" for f in o["f"]))


def run(ctx, scens, confirm=True, extra=()):
    for s in scens[:2]:
        ctx.sample({"suite": "session", "calls": ["%s%s" % (o["op"], [f["t"] for f in o["f"]]) for o in s["ops"]],
                    "version": s["v"]})
    vfutil.run(ctx, "session", "BoltSessionTrace", scens, ALL, confirm, extra=extra)


ALL = ["S02", "S03", "S04", "S05", "S06", "S08", "S10", "T01", "T02", "T03", "W01", "W04", "W05", "W06", "S09", "P03"]

BUGS = ["nofence", "noreset", "blind", "keeptx", "stalesend", "partialrows", "nested", "badsend", "leak", "runmeta",
        "norollback", "noclose", "losecause"]


# How the scenarios of each property are run, and on which defects of the design the monitor is tried out.
PROFILE = {
    "W01": (["chunk", "big"], ["badsend"]),
    "W05": (["split", "splitlook"], ["runmeta"]),
    "W06": (["plain", "chunk"], ["badsend"]),
    "S02": (["look", "chunk"], ["dropdb", "norollback"]),
    "S03": (["many", "split"], ["runmeta", "partialrows"]),
    "S04": (["plain", "probe"], ["noreset", "noclose", "losecause"]),
    "S05": (["probe", "plain"], ["nofence"]),
    "S06": (["plain"], ["nofence"]),
    "S08": (["look", "probe"], ["losedb", "wrongdb"]),
    "S10": (["plain", "probe"], ["leak", "norollback"]),
    "T01": (["plain", "probe"], ["blind"]),
    "T02": (["plain", "probe"], ["stalesend", "keeptx"]),
    "T03": (["look", "probe"], ["nested", "keeptx"]),
    "S09": (["plain"], ["runmeta"]),
    "W04": (["plain"], []),
    "P03": (["plain", "probe"], ["unread"]),
}


def trim(ctx, scens, limit):
    if len(scens) <= limit:
        return scens
    return ctx.rng.sample(scens, limit)


def suite(ctx):
    kinds, bugs = PROFILE[ctx.prop]
    # 1. the design meets every obligation, in all its behaviours up to the bound
    jobs = []
    for v in (1, 2, 3, 4):
        kw = dict(maxops=4, deep=0) if ctx.quick else dict(maxops=6, deep=1)
        jobs.append(lambda v=v, kw=kw: generate(ctx, v, emit=False, pipeline=True, rich=True, **kw))
    # 2. and the obligations are not vacuous: a design with a defect breaks them
    for b in bugs if ctx.quick else BUGS:
        v = 4 if b in ("losedb", "wrongdb") else 1
        jobs.append(lambda v=v, b=b: ctx.tlc("BoltSession", cfg(v, bug=b, maxops=5, rich=False), workers=2,
                                             expect="Invariant (Correct|Agree) is violated"))
        ctx.notes.setdefault("defective_designs_rejected", []).append(b)
    # 3. its behaviours, on the real code
    at = len(jobs)
    for v in (1, 2, 3, 4):
        jobs.append(lambda v=v: generate(ctx, v, maxops=6, pipeline=False, rich=True))
        jobs.append(lambda v=v: simulate(ctx, v, 40 if ctx.quick else 400, 18, ctx.seed * 10 + v))
        jobs.append(lambda v=v: generate(ctx, v, maxops=5, deep=1, pipeline=False, rich=not ctx.quick))
    res = ctx.parallel(jobs, 6)[at:]
    base, long, pairs = sum(res[0::3], []), sum(res[1::3], []), sum(res[2::3], [])
    base, pairs = leaves(base), leaves(pairs)
    if ctx.prop == "S06":
        base = [s for s in base if stalls(s)] + trim(ctx, base, 500)
        pairs = [s for s in pairs if stalls(s)]
    if ctx.prop == "P03":
        looks = lambda s: any(o["op"] in ("stray", "sdrop", "idle", "validate") for o in s["ops"])
        base, pairs = [s for s in base if looks(s)], [s for s in pairs if looks(s)]
    if ctx.prop == "W01":
        base, pairs = trim(ctx, base, 1500 if ctx.quick else 10000), []
    if ctx.prop == "W04":
        bad = lambda s: any(f["t"] in ("garb", "part", "oddval", "oddrec", "oddign") for o in s["ops"] for f in o["f"]) or \
            any(o["rf"] in ("garb", "part", "oddval", "oddrec") for o in s["ops"])
        base, pairs = [s for s in base if bad(s)], trim(ctx, [s for s in pairs if bad(s)], 1000 if ctx.quick else 10000)
    ctx.notes["behaviours"] = {"one_step": len(base), "pairs": len(pairs), "long": len(long)}
    ctx.log("behaviours: %d + %d pairs + %d long" % (len(base), len(pairs), len(long)))
    pairs = trim(ctx, pairs, 2500 if ctx.quick else 30000)
    if ctx.prop in ("S03", "S05", "S06", "S10", "T01"):
        kinds = kinds + ["tls"]
    extra = []
    if ctx.prop in ("S05", "S06"):
        # the server does not even read what it is sent
        for v in (1, 2, 3, 4):
            for pre in ([], [op("begin", f=[0] * plan(v, "begin", False))]):
                stuck = dict(op("txexec" if pre else "exec", h=len(pre), x="dead"), big=True, f=[{"t": "noread", "n": 0}])
                extra += variants(ctx, [{"v": v, "ops": pre + [stuck], "nh": len(pre), "alive": False, "link": True, "tx": 0}],
                                  ["plain", "tls"])
    one = extra + variants(ctx, base, kinds) + variants(ctx, pairs + long, kinds[:1])
    if extra:
        for i, s in enumerate(extra):
            one.remove(s)
            one.insert(min(len(one), 60 * i), s)
    for i, s in enumerate(one):
        s["id"] = i + 1
    run(ctx, one)
    # what the driver logs makes no difference to what it does
    quiet = [s for s in one if not stalls(s) and not s["pad"] and s.get("mult", 1) <= 3 and not any(o.get("big") for o in s["ops"])]
    run(ctx, trim(ctx, quiet, 250 if ctx.quick else 2500), extra=("-log", "trace-bytes"))
