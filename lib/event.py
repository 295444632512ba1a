import table
def judge(c, ev):
    for i, st in enumerate(c["steps"]):
        if i >= len(ev):
            return [("only %d of %d steps" % (i, len(c["steps"])), None)]
        if ev[i].get("notes"):
            return [("step %d (%s): %s" % (i, st["op"], ev[i]["notes"][0]), None)]
    return []
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Event", env={"MC_STEPS": "6" if ctx.thorough else "5"}, workers=8, heap="8g", timeout=2000)
        ctx.count_states(out)
        cases = table.generate(ctx, "Event", num=deep if ctx.thorough else quick, depth=100, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "event", cases, judge, "events")
    return f
