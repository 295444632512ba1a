import json, table
def lst(x):
    return x if isinstance(x, list) else list(x)
def judge(c, ev):
    bad = []
    for e in ev:
        w = c["subs" if e["k"] == "sub" else "items"][e["i"]]
        if e["k"] == "sub":
            got, want = (e["pi"], e["ka"], e["lt"]), (w["wpi"], w["wka"], w["wlt"])
            req = "interval %s/4 ms, keep-alive %s, lifetime %s" % (w["pi"], w["ka"], w["lt"])
        else:
            got, want = (e["si"], e["q"]), (w["wsi"], w["wq"])
            req = "sampling %s/4 ms, queue %s, publishing %s, node minimum %s/4 ms" % (w["si"], w["q"], w["pi"], w["nodeMin"])
        if got != want:
            bad.append(("%s %s: requested %s: revised to %s, want %s" % (e["how"], e["k"], req, got, want), None))
    if len(ev) != 2 * (len(c["subs"]) + len(c["items"])):
        bad.append(("not every request was answered", None))
    return bad[:3]
def judge_cycle(c, ev):
    e, pi = ev[0], c["Wpi"] // 4
    want = [pi, pi * (1 + c["Wka"])]
    if e["times"] != want:
        return [("revised %s ms, keep-alive count %d: keep-alives at %s ms, want %s; request %s" % (c["Wpi"] / 4, c["Wka"], e["times"], want, c["Sub"]), None)]
    if not e["before"] or e["after"]:
        return [("revised %s ms, keep-alive %d, lifetime %d: alive just before the end of its lifetime: %s, just after: %s" % (c["Wpi"] / 4, c["Wka"], c["Wlt"], e["before"], e["after"]), None)]
    return []
def run(ctx):
    ctx.level = "model_checking"
    grid = table.generate(ctx, "Params", env={"PARAMS_MODE": "grid"})
    rnd = table.generate(ctx, "Params", num=20000 if ctx.thorough else 1500, env={"PARAMS_MODE": "random"}, depth=3)
    cases = []
    for g in grid:
        s, it = lst(g["subs"]), lst(g["items"])
        for i in range(0, len(s), 100):
            cases.append({"subs": s[i:i + 100], "items": it if i == 0 else []})
    for i in range(0, len(rnd), 100):
        cases.append({"subs": [x for r in rnd[i:i + 100] for x in lst(r["subs"])], "items": [x for r in rnd[i:i + 100] for x in lst(r["items"])]})
    ctx.log("%d batches, %d subscription and %d item requests" % (len(cases), sum(len(c["subs"]) for c in cases), sum(len(c["items"]) for c in cases)))
    table.compare(ctx, "params", cases, judge, "revised parameters")
    pool = [x for r in rnd for x in lst(r["subs"])][:1200 if ctx.thorough else 160]
    cyc = [{"Sub": {"Pi": x["pi"], "Ka": x["ka"], "Lt": x["lt"]}, "Modify": i % 2 == 1, "Wpi": x["wpi"], "Wka": x["wka"], "Wlt": x["wlt"]} for i, x in enumerate(pool)]
    table.compare(ctx, "cycle", cyc, judge_cycle, "cycle of a subscription with revised parameters")
    ctx.assumptions = ["requested intervals are multiples of 0.25 ms, or NaN or infinite; the cycle runs in whole milliseconds"]
