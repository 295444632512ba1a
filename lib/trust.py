import table
def judge(c, ev):
    for i, st in enumerate(c["steps"]):
        if i >= len(ev):
            return [("only %d of %d cases" % (i, len(c["steps"])), None)]
        e, w = ev[i], st["want"]
        d = {k: v for k, v in st.items() if k != "want"}
        if w == "open":
            continue
        bad = w != "Good"
        ok = (e["got"] != "Good") == bad
        if st["via"] == "api" and w != "Bad*":
            ok = ok and e["got"] == w
        if not ok:
            return [("case %d: %s, want %s (%s); %s" % (i, e["got"], w, e.get("err"), d), None)]
        if e["kept"] != ("leaf" if bad else ""):
            return [("case %d: kept as rejected: %r; verdict %s; %s" % (i, e["kept"], w, d), None)]
    return []
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        cases = table.generate(ctx, "Trust", num=deep if ctx.thorough else quick, depth=30, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "trust", cases, judge, "certificate trust")
    return f
