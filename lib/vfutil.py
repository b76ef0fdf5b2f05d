"""Common ways of using the specifications."""
import json


def scenarios(ctx, module, cfg, workers=1, extra=(), timeout=500):
    got = []

    def sink(text):
        if text.startswith("SCENARIO "):
            got.append(json.loads(text[len("SCENARIO "):]))
    ctx.tlc(module, cfg, workers=workers, sink=sink, timeout=timeout, extra=extra)
    return got


def slice_of(events, ident):
    on = False
    for e in events:
        if e["e"] == "begin":
            on = e["id"] == ident
        if on:
            yield e


def run(ctx, suite, trace_module, scens, crash_props, confirm=True, workers=32, again_workers=4, extra=()):
    """Runs scenarios on the real code, judges the traces, and reports what is broken. Where the verdict might
    depend on this machine being too busy, it has to stay broken when the scenario is run again."""
    by = {s["id"]: s for s in scens}
    events, crash = ctx.drive(suite, scens, workers=workers, extra=extra)
    if crash:
        ctx.violation("crash", crash_props, {"suite": suite, "crash": crash})
        return
    bad = ctx.judge(trace_module, events)
    for s in scens[:1]:
        ctx.sample({"suite": suite, "scenario": s})
    mine = [b for b in bad if ctx.prop in b["props"]]
    for b in [b for b in bad if ctx.prop not in b["props"]][:20]:
        ctx.violation(b["why"], b["props"], {"suite": suite, "scenario": by[b["id"]]})
    if not mine:
        return
    pick = mine[:40]
    if confirm:
        events, crash = ctx.drive(suite, [by[i] for i in sorted({b["id"] for b in pick})], workers=again_workers, extra=extra)
        if crash:
            ctx.violation("crash", crash_props, {"suite": suite, "crash": crash})
            return
        again = [b for b in ctx.judge(trace_module, events) if ctx.prop in b["props"]]
        ctx.notes["unconfirmed"] = ctx.notes.get("unconfirmed", 0) + len(pick) - len(again)
        pick = again
    for b in pick:
        ctx.violation(b["why"], b["props"], {"suite": suite, "scenario": by[b["id"]],
                                             "trace": list(slice_of(events, b["id"]))[-40:]})
