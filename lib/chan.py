import table
def judge(c, ev):
    for i, st in enumerate(c["steps"]):
        e = ev[i]
        what = "step %d (%s): " % (i, ", ".join("%s %s" % (k, v) for k, v in st.items() if k not in ("want", "val", "len", "t")))
        if st["want"] != "any" and e["got"] != st["want"] or st["want"] == "any" and e["got"] not in ("ok", "closed"):
            return [(what + "%s, want %s" % (e["got"], st["want"]), None)]
        if e.get("notes"):
            return [(what + "; ".join(e["notes"]), None)]
        if (e["val"], e["len"]) != (st["val"], st["len"]):
            return [(what + "the variable holds %s/%s, want %s/%s" % (e["val"], e["len"], st["val"], st["len"]), None)]
    return []
def run(profile, quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        if profile == "sec":
            _, out = ctx.tlc("Chan", env={"CHAN_PROFILE": profile, "MC_STEPS": "8" if ctx.thorough else "6"}, workers=8, heap="8g", timeout=2000)
            ctx.count_states(out)
        cases = table.generate(ctx, "Chan", num=deep if ctx.thorough else quick, env={"CHAN_PROFILE": profile}, depth=100)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "chan", cases, judge, "secure channel")
        ctx.assumptions = ["cryptographic primitives of the Go library are trusted", "certificate trust is decided elsewhere (the server runs with WithInsecureSkipVerify)"]
    return f
