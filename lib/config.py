"""Configuring a client: configurations generated by Config.tla, tried on the real code and judged by ConfigCore."""
import json

import vfutil

OF = {"K01": ["rawmember", "lastwins"], "K02": ["memberclear", "lax", "memberlax", "nocert", "fallback"],
      "K03": ["lastwins", "anyport", "anyhost", "anymode", "anysize", "notmo"]}
PROPS = ["K01", "K02", "K03"]


def cfg(devs, bug="none", emit=False):
    return ('SPECIFICATION Spec\nCONSTANTS Devs = %d Bug = "%s"\nINVARIANTS Correct Settled\nCHECK_DEADLOCK FALSE\n%s'
            % (devs, bug, "ACTION_CONSTRAINT Emit\n" if emit else ""))


def mine(prop, c):
    """What is of interest to a property in the first place."""
    if prop == "K01":
        return c["cred"] != "plain"
    if prop == "K02":
        return c["tls"] != "off" or c["srv"] != "plain"
    return True


def spellings(c):
    """The settings of a configuration that are spelled at random."""
    return c["by"] != "opts" and (c["nov"] != "none" or c["tls"] in ("letter", "no") or c["tmo"] in ("word", "huge", "neg"))


def suite(ctx):
    q = ctx.quick
    jobs = [lambda: vfutil.scenarios(ctx, "Config", cfg(2, emit=True)),
            lambda: vfutil.scenarios(ctx, "Config", cfg(3, emit=True), timeout=300),
            lambda: vfutil.scenarios(ctx, "Config", cfg(6, emit=True), extra=[
                "-simulate", "num=%d" % (4000 if q else 40000), "-depth", "20", "-seed", str(ctx.seed)])]
    bugs = OF[ctx.prop] if q else sorted({b for v in OF.values() for b in v})
    for b in bugs:
        jobs.append(lambda b=b: ctx.tlc("Config", cfg(3 if b == "memberlax" else 2, bug=b), workers=2, expect="Invariant (Correct|Settled) is violated"))
        ctx.notes.setdefault("defective_designs_rejected", []).append("config:" + b)
    if not q:
        jobs.append(lambda: ctx.tlc("Config", cfg(4), workers=4, timeout=700))
    res = ctx.parallel(jobs, 6)[:3]
    seen, out = set(), []

    def take(scens, limit):
        scens = [s for s in scens if mine(ctx.prop, s)]
        if len(scens) > limit:
            scens = ctx.rng.sample(scens, limit)
        for s in scens:
            k = json.dumps(s, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(dict(s))
    take(res[0], 3500 if q else 100000)
    take(res[1], 1500 if q else 30000)
    take(res[2], 500 if q else 10000)
    for s in [s for s in res[0] + res[1] if s["cred"] == "special" and mine(ctx.prop, s)][:400 if q else 4000]:
        out.append(dict(s))   # other characters
    # settings that can be spelled in many ways: over and over
    spelled = [s for s in res[0] + res[1] if mine(ctx.prop, s) and spellings(s)]
    spelled = [s for s in spelled if s["nov"] == "no" and s["srv"] != "tls"][:40] + ctx.rng.sample(spelled, min(len(spelled), 150))
    for s in spelled:
        out += [dict(s) for _ in range(4 if q else 16)]
    for i, s in enumerate(out):
        s["id"] = i + 1
    ctx.notes["configurations"] = len(out)
    ctx.log("configurations:", len(out))
    vfutil.run(ctx, "config", "ConfigTrace", out, PROPS, workers=48, again_workers=4)
