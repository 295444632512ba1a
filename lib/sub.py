"""The subscription engine: spec/Sub.tla against the real server."""
import json, os

def generate(ctx, profile, num, depth, seed):
    """Behaviours of the specification, as stimuli."""
    jobs = max(1, min(6, num // 10))
    per = (num + jobs - 1) // jobs

    def one(j):
        _, out = ctx.tlc("SubGen", env={"GEN_DEPTH": depth, "GEN_PROFILE": profile}, heap="1g",
                         args=["-simulate", "num=%d" % per, "-depth", str(depth * 4), "-seed", str(seed * 1000 + j)], timeout=600)
        return ctx.printed(out, "CASE")
    cases = [c for cs in ctx.parallel(one, range(jobs)) for c in cs]
    return cases

def trace_of(ev):
    return [dict(e, o=dict(e["o"], t=e["t"])) if e["e"] == "s" else e for e in ev]

def validate(ctx, traces, module="SubTrace", cfg=None):
    """Checks traces against the specification with TLC; returns {index: diagnosis} of the rejected ones."""
    if not traces:
        return {}
    jobs = max(1, min(8, (len(traces) + 9) // 10))
    chunks = [list(range(j, len(traces), jobs)) for j in range(jobs)]
    bad = {}

    def one(idx):
        path = os.path.join(ctx.scratch("traces"), "t%d-%d.ndjson" % (idx[0], len(os.listdir(ctx.scratch("traces")))))
        with open(path, "w") as f:
            for i in idx:
                f.write(json.dumps({"id": i, "ev": traces[i]}) + "\n")
        _, out = ctx.tlc(module, cfg, env={"TRACES": path}, timeout=800)
        done = {int(l.split()[1].rstrip('"')) for l in out.splitlines() if l.startswith('"DONE ')}
        stuck = ctx.printed(out, "STUCK")
        r = {}
        for n, i in enumerate(idx, 1):
            if n not in done:
                s = [x for x in stuck if x["i"] == n]
                r[i] = max(s, key=lambda x: x["l"]) if s else {"l": 0, "want": []}
        return r, out
    for r, out in ctx.parallel(one, chunks, 8):
        bad.update(r)
        ctx.count_states(out)
    return bad

def explain(trace, d):
    """A readable account of where a trace leaves the specification."""
    l = d["l"]
    seen = trace[l - 1] if 1 <= l <= len(trace) else None
    return "step %d at t=%s ms: specification %s, the server %s" % (
        l, seen and seen["t"], "expects %s" % json.dumps(d["want"][0]) if d["want"] else "expects no message",
        "sent " + json.dumps(seen["o"]) if seen and seen["e"] == "o" else "sent nothing (next stimulus %s)" % json.dumps(seen and seen["o"])[:300])

def conform(ctx, cases, label):
    from core import crash_summary
    res = ctx.run_cases("sub", cases, 60)
    traces, owner = [], []
    for c, (ev, err) in zip(cases, res):
        if ev is None:
            continue
        if err:
            ctx.violation("%s: %s" % (label, crash_summary(err)), case=c, events=ev[-40:], output=err["out"][-6000:])
            continue
        traces.append(trace_of(ev))
        owner.append(c)
    bad = validate(ctx, traces)
    for i, d in bad.items():
        ctx.violation("%s: %s" % (label, explain(traces[i], d)), case=owner[i], diagnosis=d, trace=traces[i][:d["l"] + 2])
    ctx.cov["traces_validated_against_impl"] += len(traces) - len(bad)
    ctx.cov["events_compared"] += sum(len(t) for t in traces)

MC = {"S01": "A", "S02": "A", "S03": "B", "S04": "B", "S05": "B", "S06": "C", "S08": "C", "S09": "A"}

def model_check(ctx, module, cfg, env=None, timeout=800, workers=8, heap="8g"):
    """Exhaustive exploration of the specification. A violated invariant means the specification is wrong: no verdict on the code."""
    from core import Infra
    rc, out = ctx.tlc(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap, ok=None)
    if rc != 0:
        raise Infra("TLC on %s: the specification breaks its own invariants:\n%s" % (cfg, out[-3000:]))
    g, d = ctx.count_states(out)
    ctx.notes.append("%s explored exhaustively: %d distinct states, %d transitions" % (cfg, d, g))

def run(ctx):
    a = MC[ctx.prop]
    model_check(ctx, "SubMC", "SubMC" + a, env={"MC_STEPS": (8 if a != "C" else 7) if ctx.thorough else (6 if a != "C" else 5)})
    ctx.log(ctx.notes[-1])
    n, depth = (500, 50) if not ctx.thorough else (4000, 70)
    rounds = 1 if not ctx.thorough else 4
    for r in range(rounds):
        cases = generate(ctx, ctx.prop, n // rounds, depth, ctx.seed + 77 * r)
        ctx.log("%d behaviours generated" % len(cases))
        conform(ctx, cases, "behaviour of the subscription engine")
        if ctx.violations:
            break
    ctx.level = "model_checking"
    ctx.assumptions = ASSUME

ASSUME = ["stimuli are at least 1 ms apart from every timer event (simultaneous events are not ordered by the specification)",
          "virtual time (testing/synctest): the code takes no time between two stimuli"]
