"""Several goroutines on one connection: phases of BoltShared.tla run on the real code and judged by BoltSharedCore."""
import json

import vfutil


def cfg(n, v, phases, bug="none", atomic=False, emit=False):
    return ("SPECIFICATION Spec\nCONSTANTS N = %d V = {%s} Phases = %d Bug = \"%s\" Atomic = %s\nINVARIANTS Correct Stuck\n"
            "VIEW %s\nCHECK_DEADLOCK FALSE\n%s" % (n, v, phases, bug, str(atomic).upper(), "GenView" if emit else "View",
                                                   "ACTION_CONSTRAINT Emit\n" if emit else ""))


def leaves(scens):
    seen = {json.dumps([s["v"], s["phases"]]): s for s in scens}
    inner = {json.dumps([s["v"], s["phases"][:n]]) for s in seen.values() for n in range(1, len(s["phases"]))}
    return [s for k, s in seen.items() if k not in inner]


def suite(ctx):
    q = ctx.quick
    jobs = [lambda: ctx.tlc("BoltShared", cfg(3, "1,4" if q else "1,2,3,4", 2 if q else 3), workers=6, timeout=500)]
    for b in ("nolock", "nolockbegin"):
        jobs.append(lambda b=b: ctx.tlc("BoltShared", cfg(2, "1,4", 2, bug=b), workers=2, expect="Invariant Correct is violated"))
        ctx.notes.setdefault("defective_designs_rejected", []).append("shared:" + b)
    at = len(jobs)
    for v in (1, 2, 3, 4):
        jobs.append(lambda v=v: vfutil.scenarios(ctx, "BoltShared", cfg(2, v, 3, atomic=True, emit=True)))
        sim = cfg(3, v, 6, atomic=True, emit=True).replace("VIEW GenView\n", "")
        jobs.append(lambda v=v, sim=sim: vfutil.scenarios(ctx, "BoltShared", sim, extra=[
            "-simulate", "num=%d" % (60 if q else 800), "-depth", "160", "-seed", str(ctx.seed * 10 + v)]))
    res = ctx.parallel(jobs, 6)[at:]
    two, three = leaves(sum(res[0::2], [])), leaves(sum(res[1::2], []))
    if not q:
        three += leaves(sum(ctx.parallel([lambda v=v: vfutil.scenarios(ctx, "BoltShared", cfg(3, v, 3, atomic=True, emit=True))
                                          for v in (1, 3, 4)], 3), []))
    ctx.log("behaviours: %d of two goroutines, %d of three" % (len(two), len(three)))
    ctx.notes["shared_behaviours"] = {"two": len(two), "three": len(three)}
    out = []
    for n, group in ((2, two), (3, three)):
        for s in group:
            for delay in ((800,) if q else (0, 300, 2000)):
                dead = any(c["f"] == "drop" for p in s["phases"] for c in p["calls"])
                tail = [] if dead else [{"calls": [{"op": "query", "f": "ok", "n": 2, "h": 0}]},
                                        {"calls": [{"op": "exec", "f": "ok", "n": 0, "h": 0}, {"op": "query", "f": "ok", "n": 1, "h": 0}]}]
                out.append({"id": len(out) + 1, "v": s["v"], "n": n, "delay": delay, "phases": s["phases"] + tail,
                            "chunk": ctx.rng.choice([0, 0, 3, 16])})
    vfutil.run(ctx, "shared", "BoltSharedTrace", out, ["S07"], confirm=False)
