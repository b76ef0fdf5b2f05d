"""Opening a connection: behaviours of BoltInit.tla run on the real code and judged by BoltInitCore."""
import vfutil


def cfg(bug="none", tls="FALSE, TRUE", emit=False):
    return ("SPECIFICATION Spec\nCONSTANTS Bug = \"%s\" Tls = {%s}\nINVARIANTS Correct Settled\nCHECK_DEADLOCK FALSE\n%s"
            % (bug, tls, "ACTION_CONSTRAINT Emit\n" if emit else ""))


def slow(s):
    return s["dial"] in ("mute", "syn") or "mute" in s["hs"] + s["ans"] or s["rf"] == "mute"


def suite(ctx):
    got = vfutil.scenarios(ctx, "BoltInit", cfg(emit=True))
    for bug in ("lowbyte", "lenient", "leak"):
        ctx.tlc("BoltInit", cfg(bug), expect="Invariant Correct is violated")
        ctx.notes.setdefault("defective_designs_rejected", []).append("init:" + bug)
    out = []
    rounds = 2 if ctx.quick else 12
    for i in range(rounds):
        for s in got:
            if slow(s) and i > 1:
                continue
            vias = ["conn", "driver", "pool"]
            for via in (vias if i == 0 or not ctx.quick else [ctx.rng.choice(vias)]):
                if s["tls"] and slow(s) and ctx.quick and i > 0:
                    continue
                out.append(dict(s, via=via, id=len(out) + 1, seg=0 if i == 0 else ctx.rng.choice([1, 2, 3, -1]),
                                ch=0 if i == 0 else ctx.rng.choice([0, 1, 2, 5]), cred=ctx.rng.randrange(6)))
    ctx.notes["openings"] = len(out)
    vfutil.run(ctx, "init", "BoltInitTrace", out, ["S01", "S02", "S06", "W05", "K01"], workers=64)
