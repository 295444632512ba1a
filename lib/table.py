"""Specifications that map an input to the expected outcome: TLC generates the cases with their outcomes, the real code is run on them."""
import re
from core import crash_summary

def generate(ctx, module, cfg=None, num=0, env=None, depth=100, seed=0, timeout=600, tag="CASE", jobs=None):
    """num > 0: random cases by simulation; num = 0: all cases, by exhaustive exploration."""
    if num == 0:
        _, out = ctx.tlc(module, cfg, env=env, timeout=timeout, workers=1, heap="6g")
        ctx.count_states(out)
        return ctx.printed(out, tag)
    jobs = jobs or max(1, min(6, num // 20))
    per = (num + jobs - 1) // jobs

    def one(j):
        _, out = ctx.tlc(module, cfg, env=env, heap="1500m", timeout=timeout,
                         args=["-simulate", "num=%d" % per, "-depth", str(depth), "-seed", str((ctx.seed + seed) * 1000 + j)])
        m = re.findall(r"The number of states generated: (\d+)", out)
        return ctx.printed(out, tag), int(m[-1]) if m else 0
    res = ctx.parallel(one, range(jobs))
    cases = [c for cs, _ in res for c in cs]
    n = sum(k for _, k in res)
    ctx.cov["states"] += n
    ctx.cov["transitions"] += n
    return cases

def compare(ctx, kind, cases, judge, label, timeout=90):
    """Runs the cases; judge(case, events) returns a list of (what, sig) of deviations."""
    for c, (ev, err) in zip(cases, ctx.run_cases(kind, cases, timeout)):
        if ev is None:
            continue
        if err:
            ctx.violation("%s: %s" % (label, crash_summary(err)), case=c, events=ev[-20:], output=err["out"][:6000], sig="crash " + crash_summary(err))
            continue
        bad = judge(c, ev)
        for what, sig in bad:
            ctx.violation("%s: %s" % (label, what), case=c, events=ev, sig=sig)
        if not bad:
            ctx.cov["traces_validated_against_impl"] += 1
        ctx.cov["events_compared"] += len(ev)
