import json
from collections import Counter
import table
from sess import good
def key(x):
    return json.dumps(x, sort_keys=True)
def bag(xs):
    return Counter(key(x) for x in xs)
def judge(c, ev):
    left = {}       # references of a chain that have not been delivered yet
    for i, st in enumerate(c["steps"]):
        e = ev[i]
        brief = {k: v for k, v in st.items() if k not in ("res", "dump", "want")}
        def bad(what):
            return [("step %d, %s: %s; request %s" % (i, st["op"], what, brief), None)]
        if not good(st["want"], e["res"]):
            return bad("answered %s, want %s" % (e["res"], st["want"]))
        if e.get("notes"):
            return bad("; ".join(e["notes"]))
        if "dump" in st:
            if st["op"] == "delete" and e["n"] != st["n"]:
                return bad("reports %d deleted nodes, want %d" % (e["n"], st["n"]))
            w = {d["n"]: bag(d["refs"]) for d in st["dump"]}
            g = {d["n"]: bag(d["refs"]) for d in e["dump"]}
            if set(w) != set(g):
                return bad("nodes %s remain, want %s" % (sorted(g), sorted(w)))
            for n in w:
                if w[n] != g[n]:
                    return bad("node %d has also %s and lacks %s" % (n, list(g[n] - w[n]), list(w[n] - g[n])))
            continue
        if st["op"] == "setup":
            continue
        if len(st["res"]) != len(e["results"]):
            return bad("%d results, want %d" % (len(e["results"]), len(st["res"])))
        for j, (w, g) in enumerate(zip(st["res"], e["results"])):
            if not good(w["st"], g["st"]):
                return bad("result %d is %s, want %s" % (j, g["st"], w["st"]))
            if st["op"] == "translate":
                if sorted(set(g["targets"])) != sorted(w["targets"]):
                    return bad("result %d has targets %s, want %s" % (j, g["targets"], sorted(w["targets"])))
                continue
            if len(g["refs"]) != w["count"] or g["more"] != w["more"]:
                return bad("result %d has %d references%s, want %d%s" % (j, len(g["refs"]), " and a continuation point" if g["more"] else "", w["count"], " and a continuation point" if w["more"] else ""))
            rest = bag(w["all"]) if st["op"] == "browse" else left.get(w["chain"], Counter())
            extra = bag(g["refs"]) - rest
            if extra:
                return bad("result %d returns %s, which is wrong or a repetition" % (j, list(extra)))
            rest = rest - bag(g["refs"])
            if not w["more"] and rest:
                return bad("result %d lacks %s" % (j, list(rest)))
            if w["chain"]:
                left[w["chain"]] = rest
    return []
def run(profile, quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        if profile == "graph":
            _, out = ctx.tlc("Browse", env={"BROWSE_PROFILE": profile, "MC_STEPS": "12", "MC_N": "3" if ctx.thorough else "2"}, workers=8, heap="8g", timeout=2000)
            ctx.count_states(out)
        cases = table.generate(ctx, "Browse", num=deep if ctx.thorough else quick, env={"BROWSE_PROFILE": profile}, depth=100)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "browse", cases, judge, "address space")
        ctx.assumptions = ["views and references to nodes of other servers are not part of the behaviours"]
    return f
