"""The codecs: values and bytes generated from PackStream.tla and Framing.tla, run through the real encoders and
decoders, and judged by PackStreamCore."""
import json
import struct

import vfutil

SETS = {"W01": [], "W02": ["leaf", "core", "graph", "size", "message"], "W03": ["point", "time"], "W04": ["message", "badtime", "ill"]}
DESIGN_BUGS = {"W02": [("size", "", "0,1", "tiny16"), ("size", "", "1", "signed"), ("leaf", "", "0,2", "int16")],
               "W03": [("time", "", "0", "raw")],
               "W04": [("small", '"cut"', "0", "short"), ("small", '"cut"', "0", "partial"), ("small", '"flip"', "0", "anykey"),
                       ("small", '"huge"', "0", "prealloc"), ("small", '"flip"', "0", "untyped")]}
FRAMING_BUGS = ["carry", "total", "large", "noend", "twice"]
ZONES = ["UTC", "America/New_York", "Asia/Kathmandu", "Europe/Berlin", "Pacific/Apia", "Africa/Monrovia"]


def cfg(values, damages="", styles="0", bug="none", steps=0, hits=1, emit=False, run=True):
    return ('SPECIFICATION Spec\nCONSTANTS Set = "%s" Damages = {%s} Styles = {%s} Bug = "%s" Steps = %d Hits = %d Run = %s\n'
            "INVARIANTS Faithful Total Honest Exact Frugal\nCHECK_DEADLOCK FALSE\n%s"
            % (values, damages, styles, bug, steps, hits if damages else 0, str(run).upper(), "ACTION_CONSTRAINT Emit\n" if emit else ""))


def framing(most, sizes, count, bug="none", emit=False):
    return ('SPECIFICATION Spec\nCONSTANTS Most = %d Sizes = {%s} Count = %d Bug = "%s"\nINVARIANTS Exact All Bounded\n'
            "CHECK_DEADLOCK FALSE\n%s" % (most, sizes, count, bug, "ACTION_CONSTRAINT Emit\n" if emit else ""))


def v(k, b=(), e=(), n=()):
    return {"k": k, "b": list(b), "e": list(e), "n": list(n)}


def int8(i):
    return v("int", struct.pack(">Q", i & (2 ** 64 - 1)))


def text(n):
    return v("str", [97 + i % 26 for i in range(n)])


def sized(n):
    """A value whose shortest encoding has n bytes (n >= 1)."""
    if n == 1:
        return int8(5)
    if n <= 16:
        return text(n - 1)
    if n == 17:
        return v("list", e=[text(15)])
    if n <= 257:
        return text(n - 2)
    if n == 258:
        return v("list", e=[text(255)])
    return text(n - 3)


def kinds(val):
    """The Go types a value can be given as."""
    k = val["k"]
    if k == "int":
        i = struct.unpack(">q", bytes(val["b"]))[0]
        out = ["", "int"]
        for w in (8, 16, 32):
            if -2 ** (w - 1) <= i < 2 ** (w - 1):
                out.append("int%d" % w)
        if i >= 0:
            out += ["uint64", "uint"] + ["uint%d" % w for w in (8, 16, 32) if i < 2 ** w]
        return out
    if k == "float":
        f = struct.unpack(">d", bytes(val["b"]))[0]
        try:
            if f == f and struct.unpack(">f", struct.pack(">f", f))[0] == f:
                return ["", "float32"]
        except OverflowError:
            pass
        return [""]
    if k == "list":
        out = [""]
        ks = {e["k"] for e in val["e"]}
        if not ks:
            return ["", "strings", "nodes", "int64s"]
        if len(ks) == 1:
            one = ks.pop()
            out += {"str": ["strings"], "bool": ["bools"], "float": ["floats"], "map": ["maps"], "list": ["lists"],
                    "duration": ["durations"], "int": ["int64s", "ints"]}.get(one, [])
            if one == "struct" and all(e["b"] == [78] for e in val["e"]):
                out.append("nodes")
            if one == "int" and all(0 <= struct.unpack(">q", bytes(e["b"]))[0] < 256 for e in val["e"]):
                out += ["uint8s", "int16s"]
        return out
    if k == "struct" and val["b"] in ([78], [82]):
        return ["", "ptr"]
    if k == "time":
        return ["", "utc", "local"]
    return [""]


def generate(ctx):
    q = ctx.quick
    p = ctx.prop
    jobs, at = [], {}

    def scen(name, c, extra=(), module="PackStream", workers=1):
        at[name] = len(jobs)
        jobs.append(lambda: vfutil.scenarios(ctx, module, c, extra=extra, workers=workers, timeout=700))

    def rejected(module, c, why):
        jobs.append(lambda: ctx.tlc(module, c, workers=2, expect="is violated", timeout=700))
        ctx.notes.setdefault("defective_designs_rejected", []).append(why)
    for s in SETS[p]:
        jobs.append(lambda s=s: ctx.tlc("PackStream", cfg(s, styles="0" if q or s in ("size", "ill") else "0,1,2,4"), workers=3, timeout=700))
        scen(s, cfg(s, styles="0" if s == "ill" else "0,1,2,3,4", emit=True, run=False), workers=2)
    if p == "W01":
        scen("frames", framing(5, "1,2,3,5", 2, emit=True), module="Framing")
        if not q:
            jobs.append(lambda: ctx.tlc("Framing", framing(4, "1,2,3,4", 3), workers=4, timeout=700))
        for b in FRAMING_BUGS:
            rejected("Framing", framing(4, "2,3", 2, bug=b), "framing:" + b)
    for values, damages, styles, b in DESIGN_BUGS.get(p, []):
        rejected("PackStream", cfg(values, damages, styles, bug=b), "packstream:" + b)
    if p == "W04":
        scen("bad", cfg("small", '"cut","flip","more","huge"', "0" if q else "0,1,2", emit=True), workers=5)
        for i, (s, h, n) in enumerate([("graph", 1, 400), ("core", 2, 400), ("message", 2, 400), ("small", 3, 400), ("time", 1, 400), ("grow", 1, 200)]):
            scen("sim%d" % i, cfg("leaf" if s == "grow" else s, '"cut","flip","more"', "0,1,2,3", hits=h, steps=4 if s == "grow" else 0, emit=True, run=not q),
                 extra=["-simulate", "num=%d" % (n if q else n * 6), "-depth", "4000", "-seed", str(ctx.seed * 10 + i)])
    if p == "W02":
        for i in range(2 if q else 6):
            scen("grow%d" % i, cfg("leaf", "", "0,1,2,3,4", steps=4 + i, emit=True, run=False),
                 extra=["-simulate", "num=%d" % (600 if q else 8000), "-depth", "6000", "-seed", str(ctx.seed * 10 + i)])
    got = ctx.parallel(jobs, 5)
    out = {}
    for name, i in at.items():
        seen = {}
        for s in got[i]:
            seen[json.dumps(s, sort_keys=True)] = s
        out[name] = list(seen.values())
    return out


def suite(ctx):
    rng, p, q = ctx.rng, ctx.prop, ctx.quick
    got = generate(ctx)
    out = []

    def add(kind, **kw):
        s = {"kind": kind, "gen": 2, "topic": "core", "tz": "UTC", "in": [], "chunk": 0, "frag": 0, "cut": -1, "vals": [],
             "type": "", "n": 0, "form": 0}
        s.update(kw)
        s["id"] = len(out) + 1
        out.append(s)

    def enc(vals, **kw):
        add("enc", vals=[{"v": x, "as": a, "must": m} for x, a, m in vals], **kw)
    for name, scens in got.items():
        if name == "frames":
            continue
        topic = "time" if name in ("point", "time", "badtime") else "core"
        wide = name == "time"
        if p != "W04":
            seen = set()
            for s in scens:
                if s["whole"]:
                    key = json.dumps(s["d"])
                    if key not in seen and s["d"]["k"] != "invalid":
                        seen.add(key)
                        for a in kinds(s["d"]):
                            for gen in (1, 2):
                                must = "ok"
                                if topic == "time" and gen == 1:
                                    must = "any" if name == "point" else "no"
                                tz = ZONES if wide and gen == 2 and ("ltime" in key or "local" in a or not q) else [rng.choice(ZONES)]
                                for z in tz:
                                    enc([(s["d"], a, must)], gen=gen, topic=topic, tz=z, chunk=rng.choice([65535, 65535, 4096, 7]))
        for s in scens:
            zs = [rng.choice(ZONES)] if topic == "time" else ["UTC"]
            if wide and len(s["in"]) > 1 and s["in"][1] == 100 and s["style"] == 0:
                zs = ZONES
            for z in zs:
                add("dec", gen=s["gen"], topic=topic, tz=z, chunk=rng.choice([0, 0, 1, 2, 5]), frag=rng.choice([0, 0, 0, 1, 3, -1]),
                    **{"in": s["in"]})
    if p == "W01":
        frames(ctx, got["frames"], enc, add)
    if p == "W02":
        large(ctx, enc, add)
    if p == "W03":
        for z in ZONES:
            for d in ("date", "clock", "lclock", "ltime", "time"):
                for mi in range(4 if q else 20):
                    y = rng.choice([1969, 1970, 2021, 2024, 1900, 2000, 1582, 1, 0, -1, -400, 9999, 100000, 999999999, -999999999])
                    n = {"date": [y, rng.randint(1, 12), rng.randint(1, 28)],
                         "clock": [rng.randint(0, 86399), rng.randint(0, 999999999), rng.randint(-64800, 64800)],
                         "lclock": [rng.randint(0, 86399), rng.randint(0, 999999999)]}.get(d)
                    if n is None:
                        n = [y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 86399), rng.randint(0, 999999999)]
                        if d == "time":
                            n.append(rng.randint(-64800, 64800))
                    enc([(v(d, n=n), rng.choice(["", "local"]) if d == "time" else "", "ok")], topic="time", tz=z)
    if p == "W04":
        base = [s for s in out if s["kind"] == "dec"]
        for s in rng.sample(base, min(len(base), 300 if q else 3000)):
            add("dec", gen=s["gen"], chunk=s["chunk"], frag=s["frag"], cut=rng.randint(0, len(s["in"]) + 3), **{"in": s["in"]})
        for gen in (1, 2):
            for t in ("list", "map", "record", "key"):
                for n in (10, 5000, 9998, 9999, 10000, 10001, 100000) + (() if q else (1000000, 5000000)):
                    add("deep", gen=gen, type=t, n=n, form=0)
            for t in ("str", "list", "map"):
                for n in (100, 40000, 70000):
                    for f in (2, 4):
                        if n < 65536 or f == 4:
                            add("bigdec", gen=gen, type=t, n=n, form=f, cut=rng.choice([1, 2, n // 2]))
        for i in range(400 if q else 6000):  # noise
            m = [rng.randrange(256) if rng.random() < .5 else rng.choice([0x91, 0x92, 0xA1, 0x81, 0xB1, 0xB3, 0xB5, 78, 82, 80, 113, 112, 1])
                 for _ in range(rng.randint(0, 24))]
            add("dec", gen=rng.choice([1, 2]), chunk=rng.choice([0, 1, 3]), **{"in": m})
    ctx.notes["scenarios"] = len(out)
    ctx.log("scenarios:", len(out))
    judged(ctx, out)


def frames(ctx, plans, enc, add):
    rng, q = ctx.rng, ctx.quick
    unfit = [("", "unfit"), ("chan", "unfit"), ("intmap", "unfit"), ("nilptr", "unfit")]
    for s in plans:
        for scale in (1, 50):
            vals = []
            for m in s["plan"]:
                n = m["n"] * scale
                if m["bad"]:
                    a, k = rng.choice(unfit)
                    vals.append((v("list", e=[sized(n)] + [v(k)]) if not a else v(k), "" if not a else a, "no"))
                else:
                    vals.append((sized(n), "", "ok"))
            for gen in (1, 2):
                enc(vals, gen=gen, chunk=s["chunk"] * scale)
    for gen in (1, 2):
        for c in (1, 2, 3, 15, 16, 17, 127, 128, 255, 256, 257, 1000):
            for n in sorted({1, 2, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, 3 * c} - {0}):
                if n <= 1100:
                    enc([(sized(n), "", "ok"), (int8(3), "", "ok")], gen=gen, chunk=c)
        for c in (1, 2, 7, 255, 256, 257, 4096, 32767, 32768, 65534, 65535):
            for n in (65530, 65532, 65533, 65535, 65536, 70000, 131070, 131073, 200000):
                add("bigenc", gen=gen, chunk=c, type="str", n=n)
            for n in (40000,) if q else (40000, 65535, 65536, 100000):
                add("bigenc", gen=gen, chunk=c, type="list", n=n)
                add("bigenc", gen=gen, chunk=c, type="map", n=n)
        for _ in range(150 if q else 3000):
            c = rng.choice([1, 2, 3, 4, 10, 100, 255, 256, 300, 65535])
            enc([(sized(rng.choice([1, c, c + 1, max(1, c - 1), rng.randint(1, 40)])) if c < 400 else sized(rng.randint(1, 400)), "", "ok")
                 for _ in range(rng.randint(1, 5))], gen=gen, chunk=c)


def large(ctx, enc, add):
    rng, q = ctx.rng, ctx.quick
    for gen in (1, 2):
        for t in ("str", "utf8", "list", "strings", "map"):
            for n in (127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 100000) + (() if q else (200000, 1 << 20)):
                if q and t == "map" and n > 65537:
                    continue
                add("bigenc", gen=gen, chunk=65535, type=t, n=n)
                for f in (1, 2, 4):
                    if n < 1 << (8 * f):
                        add("bigdec", gen=gen, type=t, n=n, form=f, chunk=rng.choice([0, 1000, 65535]), frag=rng.choice([0, 0, 1000]))
        for t in ("list", "map"):
            for n in (1, 10, 100, 1000):
                add("deep", gen=gen, type=t, n=n, form=0)
                add("deep", gen=gen, type=t, n=n, form=1)
        for k, a in (("unfit", ""), ("unfit", "chan"), ("unfit", "intmap"), ("unfit", "func"), ("unfit", "nilptr")):
            enc([(v(k), a, "no")], gen=gen)
        for b in ([128] + [0] * 7, [255] * 8, [128, 0, 0, 0, 0, 0, 0, 1], [200] * 8):
            enc([(v("toobig", b), "uint64", "no")], gen=gen)
            add("enc", gen=gen, vals=[{"v": v("toobig", b), "as": "uint", "must": "no"}], known="uint-above-maxint64")


def judged(ctx, scens):
    """Runs and judges; what is a known finding is said to be one, if it is that and nothing else."""
    known = [s for s in scens if s.get("known")]
    rest = [s for s in scens if not s.get("known")]
    vfutil.run(ctx, "codec", "PackStreamTrace", rest, ["W02", "W03", "W04"], workers=8, confirm=True)
    if not known:
        return
    import vf
    listed = set()
    with open(vf.os.path.join(vf.VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % ctx.prop):
                listed.add(line.split(" id=", 1)[1].split()[0])
    events, crash = ctx.drive("codec", known, workers=2)
    if crash:
        raise vf.ToolError(crash)
    bad = ctx.judge("PackStreamTrace", events)
    by = {s["id"]: s for s in known}
    seen = {}
    for b in bad:
        s = by[b["id"]]
        if b["why"] == "what cannot be encoded is not refused" and s["known"] in listed:
            seen[s["known"]] = seen.get(s["known"], 0) + 1
        else:
            ctx.violation(b["why"], b["props"], {"suite": "codec", "scenario": s})
    for k, n in seen.items():
        ctx.known.append("%s: values above 9223372036854775807 given as uint are encoded as negative integers (%d cases)" % (k, n))
