import table
from event import judge
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Hist", env={"MC_STEPS": "7" if ctx.thorough else "6"}, workers=4, heap="4g", timeout=1500)
        ctx.count_states(out)
        cases = table.generate(ctx, "Hist", num=deep if ctx.thorough else quick, depth=100, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "hist", cases, judge, "history")
    return f
