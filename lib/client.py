import table
def judge(c, ev):
    if len(ev) < len(c["steps"]):
        return [("only %d of %d steps" % (len(ev), len(c["steps"])), None)]
    for i, st in enumerate(c["steps"]):
        e = ev[i]
        what = "step %d (%s): " % (i, ", ".join("%s %s" % (k, v) for k, v in st.items() if k not in ("want", "done", "t", "up", "level", "ep", "tok")))
        if st["op"] in ("dial", "connect") and e["got"] != st["want"]:
            return [(what + "%s, want %s" % (e["got"], st["want"]), None)]
        if st["op"] == "connect" and (e["ep"] != st["ep"] or st["want"] == "ok" and e["tok"] != st["tok"]):
            return [(what + "endpoint %s and secret by %s, want %s and %s" % (e["ep"], e["tok"], st["ep"], st["tok"]), None)]
        if e.get("notes"):
            return [(what + "; ".join(e["notes"]), None)]
        got = {d["c"]: d["res"] for d in e["done"]}
        want = {d["c"]: "error" if d["res"] == "timeout" else d["res"] for d in st["done"]}
        if got != want:
            k = min(x for x in set(got) | set(want) if got.get(x) != want.get(x))
            return [(what + "call %d: %s, want %s" % (k, got.get(k, "no return"), want.get(k, "no return")), None)]
    return []
def run(profile, quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        if profile == "call":
            _, out = ctx.tlc("Client", env={"CLIENT_PROFILE": profile, "MC_STEPS": "8" if ctx.thorough else "6"}, workers=8, heap="8g", timeout=2000)
            ctx.count_states(out)
        cases = table.generate(ctx, "Client", num=deep if ctx.thorough else quick, env={"CLIENT_PROFILE": profile}, depth=100)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "client", cases, judge, "client")
        ctx.assumptions = ["cryptographic primitives of the Go library are trusted", "trust in the server's certificate is not judged here (the client runs with WithInsecureSkipVerify)"]
    return f
