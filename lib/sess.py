import table
def good(want, got):
    return got.startswith("Bad") if want == "Bad*" else got == want
def judge(c, ev):
    for i, st in enumerate(c["steps"]):
        if i >= len(ev):
            return [("no event for step %d %s" % (i, st), None)]
        e = ev[i]
        what = "step %d (%s): " % (i, ", ".join("%s %s" % (k, v) for k, v in st.items() if k not in ("want",)))
        if not good(st["want"], e["res"]):
            return [(what + "answered %s, want %s" % (e["res"], st["want"]), None)]
        if e.get("notes"):
            return [(what + "; ".join(e["notes"]), None)]
        if e.get("other"):
            return [(what + "unexpected " + "; ".join(e["other"]), None)]
        if st["op"] == "create" and st["want"] == "Good" and e.get("wtmo") != st["wtmo"]:
            return [(what + "revised timeout %s, want %s" % (e.get("wtmo"), st["wtmo"]), None)]
        if st["op"] == "svc" and st["svc"] == "whoami" and st["granted"] and e.get("who") != [st["user"]]:
            return [(what + "acts with the permissions of %s, want %s" % (e.get("who"), st["user"]), None)]
    return []
def run(profile, quick, deep, steps=0):
    def f(ctx):
        ctx.level = "model_checking"
        if steps:
            _, out = ctx.tlc("Sess", env={"SESS_PROFILE": profile, "MC_STEPS": str(steps + (1 if ctx.thorough else 0))}, workers=8, heap="12g", timeout=3000)
            ctx.count_states(out)
            ctx.log("explored")
        cases = table.generate(ctx, "Sess", num=deep if ctx.thorough else quick, env={"SESS_PROFILE": profile}, depth=300)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "sess", cases, judge, "sessions")
        ctx.assumptions = ["certificate trust is not part of these behaviours (the server runs with WithInsecureSkipVerify)"]
    return f
