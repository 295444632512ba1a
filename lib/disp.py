import table
def judge(c, ev):
    for i, st in enumerate(c["steps"]):
        if i >= len(ev):
            return [("only %d of %d steps" % (i, len(c["steps"])), None)]
        if ev[i].get("notes"):
            return [(ev[i]["notes"][0], None)]
    return []
def run(profile, quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Codec", env={"CODEC_PROFILE": "meta"}, args=["-simulate", "num=1", "-depth", "1"])
        meta = ctx.printed(out, "META")[0]
        cases = table.generate(ctx, "Disp", num=deep if ctx.thorough else quick, env={"CODEC_PROFILE": profile}, depth=100, timeout=1500)
        for c in cases:
            c["ids"], c["schema"] = meta["ids"], meta["schema"]
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "disp", cases, judge, "dispatch" if profile == "disp" else "diagnostics")
    return f
