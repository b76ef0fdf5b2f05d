"""The connection pool: behaviours of Pool.tla run on the real pool and judged by PoolCore."""
import json

import vfutil

BUGS = ["share", "noclean", "novalidate", "leaktoken", "leakdead", "nolimit", "leakclosed", "deaf", "late"]
OF = {"P01": ["share", "nolimit"], "P02": ["leaktoken", "leakdead", "nolimit"], "P03": ["noclean", "novalidate"],
      "P04": ["leakclosed", "deaf", "late"]}


def cfg(n, users, steps, width, bug="none", atomic=False, emit=False):
    return ("SPECIFICATION Spec\nCONSTANTS N = %d Users = %d Steps = %d Width = %d Bug = \"%s\" Atomic = %s\n"
            "INVARIANTS Correct Tokens\nVIEW %s\nCHECK_DEADLOCK FALSE\n%s"
            % (n, users, steps, width, bug, str(atomic).upper(), "GenView" if emit else "View",
               "ACTION_CONSTRAINT Emit\n" if emit else ""))


def leaves(scens):
    key = lambda s, steps: json.dumps([s["n"], s["users"], steps])
    seen = {key(s, s["steps"]): s for s in scens}
    inner = {key(s, s["steps"][:n]) for s in seen.values() for n in range(1, len(s["steps"]))}
    return [s for k, s in seen.items() if k not in inner]


def step(k, i=0):
    return {"k": k, "b": [], "i": i}


def suffix():
    """Whatever has happened: once the server is reachable, everybody gets a connection; closing ends it all."""
    return [step(k) for k in ("ok", "reclaimall", "reclaimall", "again", "openall", "reclaimone", "reclaimall", "reclaimall",
                              "openone", "close", "openone", "reclaimall", "close", "again")]


def suite(ctx):
    q = ctx.quick
    jobs = [lambda: ctx.tlc("Pool", cfg(2, 3, 5 if q else 7, 2), workers=4, timeout=700),
            lambda: ctx.tlc("Pool", cfg(1, 3, 5 if q else 7, 3), workers=4, timeout=700)]
    if not q:
        jobs.append(lambda: ctx.tlc("Pool", cfg(3, 4, 5, 3), workers=6, timeout=700))
    for b in OF[ctx.prop] if q else BUGS:
        jobs.append(lambda b=b: ctx.tlc("Pool", cfg(2, 3, 5, 2, bug=b), workers=2, expect="Invariant (Correct|Tokens) is violated"))
        ctx.notes.setdefault("defective_designs_rejected", []).append("pool:" + b)
    at = len(jobs)
    for n, users, steps, width in ((1, 2, 5, 2), (2, 3, 6, 2)) if q else ((1, 2, 7, 2), (2, 3, 8, 2), (1, 3, 6, 3), (3, 4, 6, 2)):
        jobs.append(lambda a=(n, users, steps, width): vfutil.scenarios(ctx, "Pool", cfg(*a, atomic=True, emit=True)))
    for n, users in ((1, 3), (2, 4), (3, 5)):
        sim = cfg(n, users, 14, 3, atomic=True, emit=True).replace("VIEW GenView\n", "")
        jobs.append(lambda sim=sim, n=n: vfutil.scenarios(ctx, "Pool", sim, extra=[
            "-simulate", "num=%d" % (30 if q else 300), "-depth", "400", "-seed", str(ctx.seed * 10 + n)]))
    got = leaves(sum(ctx.parallel(jobs, 6)[at:], []))
    ctx.log("behaviours:", len(got))
    out = []
    for s in got:
        out.append(dict(s, v=ctx.rng.choice([1, 2, 3, 4]), steps=s["steps"] + suffix()))
    for i in range(40 if q else 400):
        n = ctx.rng.choice([1, 2, 3, 4])
        out.append({"n": n, "users": n + ctx.rng.choice([1, 2, 4]), "v": ctx.rng.choice([1, 2, 3, 4]),
                    "steps": [step("storm", 12)] + suffix()})
    for i, s in enumerate(out):
        s["id"] = i + 1
        s["down"] = ctx.rng.choice(["drop", "drop", "auth", "nover", "drop", "auth", "nover", "mute"])
        s["tmo"] = 600 if s["down"] == "mute" else 5000
    ctx.notes["pool_behaviours"] = len(out)
    vfutil.run(ctx, "pool", "PoolTrace", out, ["P01", "P02", "P03", "P04"], confirm=ctx.prop != "P01", workers=40)
