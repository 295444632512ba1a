import table
from event import judge
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Limit", env={"MC_STEPS": "9" if ctx.thorough else "7"}, workers=4, heap="4g", timeout=1500)
        ctx.count_states(out)
        cases = table.generate(ctx, "Limit", num=deep if ctx.thorough else quick, depth=100, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "limit", cases, judge, "limits")
    return f
