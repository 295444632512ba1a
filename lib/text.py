import table
from event import judge
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Text", env={"MC_STEPS": "1"}, workers=1, heap="4g", timeout=1500)
        ctx.count_states(out)
        cases = table.generate(ctx, "Text", num=deep if ctx.thorough else quick, depth=100, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "text", cases, judge, "text forms")
    return f
