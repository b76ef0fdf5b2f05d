"""Summaries and failures of any shape: generated by Summary.tla, read through the real code, judged by SummaryCore."""
import vfutil

FEW = '"absent","zero","pos","neg","str","null"'
MORE = '"absent","zero","pos","neg","max","min","float","str","null","list","bool","map"'


def cfg(kinds, failures, bug="none", emit=False):
    return ('SPECIFICATION Spec\nCONSTANTS Kinds = {%s} Failures = %s Bug = "%s"\nINVARIANTS Correct\nCHECK_DEADLOCK FALSE\n%s'
            % (kinds, str(failures).upper(), bug, "ACTION_CONSTRAINT Emit\n" if emit else ""))


def suite(ctx):
    q = ctx.quick
    fails = ctx.prop == "S04"
    jobs = [lambda: vfutil.scenarios(ctx, "Summary", cfg('"pos"' if fails else FEW if q else MORE, True, emit=True)),
            lambda: vfutil.scenarios(ctx, "Summary", cfg(MORE, False, emit=True), extra=[
                "-simulate", "num=%d" % (800 if q else 20000), "-depth", "9", "-seed", str(ctx.seed)])]
    for b in ("codeonly",) if fails else ("swap", "absentzero", "unchecked"):
        jobs.append(lambda b=b: ctx.tlc("Summary", cfg(FEW, True, bug=b), workers=1, expect="Invariant Correct is violated"))
        ctx.notes.setdefault("defective_designs_rejected", []).append("summary:" + b)
    res = ctx.parallel(jobs, 5)
    items = res[0] + ([] if fails else res[1])
    sums = [dict(s, at="pull", fl={"code": "", "msg": ""}) for s in items if s["what"] == "sum"]
    bad = [dict(s, at=at) for s in items if s["what"] == "fail" for at in ("run", "pull")]
    out = []
    for via in ("exec", "query", "txexec", "txquery"):
        for v in (1, 2, 3, 4):
            mine = [s for s in sums if ctx.rng.random() < (0.25 if q else 0.6)] + (bad if fails or v in (1, 4) else [])
            ctx.rng.shuffle(mine)
            for i in range(0, len(mine), 12):
                out.append({"id": len(out) + 1, "v": v, "via": via, "items": mine[i:i + 12]})
    ctx.notes["summaries"] = sum(len(s["items"]) for s in out)
    ctx.log("summaries:", ctx.notes["summaries"])
    vfutil.run(ctx, "summary", "SummaryTrace", out, ["S09", "S04"], workers=32)
