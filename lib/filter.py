import table
def judge(c, ev):
    bad = []
    for i, f in enumerate(c["filters"]):
        want = "Good" if f["ok"] else "BadFilterNotAllowed"
        if ev[0]["res"][i] != want:
            bad.append(("item with filter %s on a %s is answered %s, want %s" % ((f["trig"], f["db"] / 2), c["type"], ev[0]["res"][i], want), None))
        elif f["ok"] and ev[0]["got"][i] != f["want"]:
            bad.append(("%s%s, trigger %s, deadband %s: samples reported %s, want %s; samples %s" %
                        (c["type"], "[]" if c["array"] else "", f["trig"], f["db"] / 2, ev[0]["got"][i], f["want"], c["samples"]), None))
    return bad[:1]
def run(ctx):
    ctx.level = "model_checking"
    cases = table.generate(ctx, "Filter", num=4000 if ctx.thorough else 300, depth=3)
    ctx.log("%d cases" % len(cases))
    table.compare(ctx, "filter", cases, judge, "data change filter")
    ctx.assumptions = ["NaN values and percent deadbands are not judged", "one sample per sampling interval"]
