"""Messages: what Messages.tla constructs them from is given to the real constructors, and what comes out is judged by MessagesCore."""
import vfutil

BUGS = ["nodb", "nomode", "secs", "qid0", "swapped", "always"]


def cfg(bug="none", emit=False):
    return ('SPECIFICATION Spec\nCONSTANT Bug = "%s"\nINVARIANTS Correct\nCHECK_DEADLOCK FALSE\n%s'
            % (bug, "ACTION_CONSTRAINT Emit\n" if emit else ""))


def suite(ctx):
    jobs = [lambda: vfutil.scenarios(ctx, "Messages", cfg(emit=True))]
    for b in {"S08": ["nodb"], "K01": []}.get(ctx.prop, BUGS):
        jobs.append(lambda b=b: ctx.tlc("Messages", cfg(b), workers=1, expect="Invariant Correct is violated"))
        ctx.notes.setdefault("defective_designs_rejected", []).append("messages:" + b)
    got = ctx.parallel(jobs, 4)[0]
    out = []
    for r in range(4 if ctx.quick else 60):
        for s in got:
            out.append(dict(s, id=len(out) + 1, other=r > 0, b=[]))
    vs = [[], [0], [4], [0, 0, 4], [0, 0, 0, 0, 4], [0, 0, 4, 0], [4, 0, 0, 0], [4, 4, 4, 4], [0, 1, 0, 4], [255] * 4, [0, 0, 1, 4], [128, 0, 0, 1]]
    vs += [[0, 0, 0, i] for i in range(256)]
    vs += [[ctx.rng.randrange(6) for _ in range(4)] for _ in range(100)]
    if ctx.prop != "S08":
        for b in vs:
            out.append({"v": 1, "op": "version", "a": got[0]["a"], "id": len(out) + 1, "other": False, "b": b})
    ctx.notes["messages"] = len(out)
    vfutil.run(ctx, "messages", "MessagesTrace", out, ["S02"], workers=8)
