"""The routing pool: behaviours of Routing.tla run on the real pool and judged by RoutingCore."""
import json

import vfutil

BUGS = ["stale", "norole", "share", "noheal", "wipe", "leakstop", "dead", "overgrow", "dirty", "onemember", "goeson", "failopen", "keeps"]
OF = {"R01": ["norole", "onemember"], "R02": ["stale", "keeps"], "R03": ["share", "overgrow"],
      "R04": ["dead", "noheal", "leakstop", "goeson", "failopen"], "R05": ["wipe"], "P03": ["dirty"]}
PROPS = ["R01", "R02", "R03", "R04", "R05"]


def cfg(w, r, users, members, steps, width, bug="none", atomic=False, emit=False):
    return ("SPECIFICATION Spec\nCONSTANTS W = %d R = %d Users_ = %d Members = %d Steps = %d Width = %d Bug = \"%s\" Atomic = %s\n"
            "Topos <- Topos%d\nINVARIANTS Correct Bounded\nVIEW %s\nCHECK_DEADLOCK FALSE\n%s"
            % (w, r, users, members, steps, width, bug, str(atomic).upper(), members, "GenView" if emit else "View",
               "ACTION_CONSTRAINT Emit\n" if emit else ""))


def leaves(scens):
    key = lambda s, steps: json.dumps([s["w"], s["r"], s["users"], s["members"], steps])
    seen = {key(s, s["steps"]): s for s in scens}
    inner = {key(s, s["steps"][:n]) for s in seen.values() for n in range(1, len(s["steps"]))}
    return [s for k, s in seen.items() if k not in inner]


def step(k, i=0, roles=()):
    return {"k": k, "b": [], "i": i, "roles": list(roles)}


ROLES = {2: [["L", "F"], ["F", "L"], ["L", "R"], ["L", "L"], ["F", "F"], ["N", "L"]],
         3: [["L", "F", "F"], ["F", "L", "R"], ["N", "L", "F"], ["L", "F", "N"], ["L", "L", "F"], ["R", "F", "L"], ["F", "F", "F"]],
         4: [["L", "F", "F", "R"], ["F", "L", "N", "F"], ["L", "L", "F", "F"], ["N", "N", "L", "R"], ["F", "F", "R", "L"]]}


def suffix(rng, members):
    """Whatever has happened: once everything is as it should be the pool is whole; it follows the roles; stopping ends it all."""
    full = [r for r in ROLES[members] if "L" in r and ("F" in r or "R" in r)]
    out = [step("good"), step("allup"), step("roles", roles=rng.choice(full)), step("start"), step("reclaimall"), step("refresh"),
           step("borrowall"), step("reclaimone"), step("reclaimall"), step("killall"), step("refresh"), step("borrowall")]
    if rng.random() < 0.5:
        out += [step("roles", roles=rng.choice(ROLES[members])), step("refresh"), step("reclaimall"), step("refresh"), step("borrowall")]
    if rng.random() < 0.5:
        out += [step("reclaimall")]
    return out + [step("nil"), step("stop"), step("borrow"), step("reclaimall"), step("wait"), step("borrow"), step("stop")]


def suite(ctx):
    q = ctx.quick
    light = ctx.prop not in PROPS  # a property of more than routing: a part of it will do
    jobs = [lambda: ctx.tlc("Routing", cfg(1, 1, 2, 2, 3 if q else 4, 2), workers=4, timeout=700),
            lambda: ctx.tlc("Routing", cfg(2, 1, 2, 3, 3 if q else 4, 2), workers=4, timeout=700)]
    if light:
        jobs = jobs[:1]
    elif not q:
        jobs.append(lambda: ctx.tlc("Routing", cfg(2, 2, 3, 4, 3, 3), workers=6, timeout=700))
    for b in OF.get(ctx.prop, []) if q else BUGS:
        jobs.append(lambda b=b: ctx.tlc("Routing", cfg(1, 1, 2, 2, 4, 2, bug=b) if b != "onemember" else cfg(2, 2, 2, 3, 4, 2, bug=b),
                                        workers=2, expect="Invariant (Correct|Bounded) is violated"))
        ctx.notes.setdefault("defective_designs_rejected", []).append("routing:" + b)
    at = len(jobs)
    for a in ((1, 1, 1, 2, 4, 1), (1, 1, 2, 2, 3, 2), (2, 1, 2, 3, 3, 2)) if q else \
            ((1, 1, 1, 2, 5, 1), (1, 1, 2, 2, 4, 2), (2, 1, 2, 3, 4, 2), (2, 2, 2, 3, 4, 2)):
        jobs.append(lambda a=a: vfutil.scenarios(ctx, "Routing", cfg(*a, atomic=True, emit=True), timeout=700))
    deep = len(jobs)
    for a in ((1, 1, 2, 3), (2, 2, 3, 3), (3, 2, 4, 4)):
        sim = cfg(a[0], a[1], a[2], a[3], 14, 3, atomic=True, emit=True).replace("VIEW GenView\n", "")
        jobs.append(lambda sim=sim, a=a: vfutil.scenarios(ctx, "Routing", sim, timeout=700, extra=[
            "-simulate", "num=%d" % (60 if q else 500), "-depth", "200", "-seed", str(ctx.seed * 10 + a[0])]))
    res = ctx.parallel(jobs, 6)
    got = leaves(sum(res[at:deep], []))
    long = leaves(sum(res[deep:], []))
    ctx.log("behaviours:", len(got), "and long ones:", len(long))
    keep = (350 if light else 1100) if q else (2500 if light else 9000)
    if len(got) > keep:
        got = ctx.rng.sample(got, keep)
    out = []
    for s in got + long[:(60 if light else 180) if q else 2000]:
        out.append(dict(s, steps=s["steps"] + suffix(ctx.rng, s["members"])))
    for i in range((10 if light else 40) if q else 300):
        w, r, m = ctx.rng.choice([(1, 1, 2), (2, 1, 3), (2, 2, 3), (3, 3, 4)])
        out.append({"w": w, "r": r, "users": w + r + 3, "members": m,
                    "steps": [step("roles", roles=ROLES[m][0]), step("start"), step("storm", 12)] + suffix(ctx.rng, m)})
    for i in range(0 if light else 2 if q else 8):
        # many more connections than elsewhere
        w, r = ctx.rng.choice([(60, 60), (50, 49)])
        out.insert(min(len(out), 30 + 80 * i), {"w": w, "r": r, "users": w + r + 2, "members": 3,
                                                "steps": [step("roles", roles=ROLES[3][0]), step("start")] + suffix(ctx.rng, 3)})
    for i, s in enumerate(out):
        s["id"] = i + 1
        s["v"] = ctx.rng.choice([1, 2, 3, 4, 3, 4])
        s["sep"] = ctx.rng.random() < 0.7
        s["client"] = not any(x["k"] in ("storm", "refresh") for x in s["steps"][:-20]) and ctx.rng.random() < (0.12 if ctx.prop[0] != "K" else 0.5)
        s["tick"] = 300 if ctx.rng.random() < 0.12 else 25
        if any(x["k"] == "storm" for x in s["steps"]):
            s["tick"] = 4
        s["tls"] = ctx.rng.random() < (0.8 if ctx.prop == "K02" else 0.1)
        s["cred"] = ctx.rng.randrange(6)
    ctx.notes["routing_behaviours"] = len(out)
    vfutil.run(ctx, "routing", "RoutingTrace", out, PROPS, confirm=ctx.prop != "R03", workers=48)
