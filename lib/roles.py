import table
# the server evaluates the rules without application and endpoint
BLIND = "roles: application and endpoint not known to the rules"
def judge(c, ev):
    bad, rules = [], None
    for i, st in enumerate(c["steps"]):
        if i >= len(ev):
            return [("only %d of %d steps" % (i, len(c["steps"])), None)]
        e = ev[i]
        if st["op"] == "rules":
            rules = st["rules"]
        elif st["op"] == "ask":
            got, want = sorted(e["got"]), sorted(st["want"])
            if got != want or e.get("none", False) != (want == []):
                bad.append(("step %d: %s of %s at %s has roles %s (%s), want %s; rules %s" % (i, st["id"], st["app"], st["ep"], got, e.get("err", ""), want, rules), None))
        else:
            got, want, blind = sorted(e["got"]), sorted(st["want"]), sorted(st["blind"])
            may, wmay = sorted(e["may"]), sorted(set(st["may"]) & {"read", "write", "call"})
            if got != want:
                bad.append(("step %d: server: %s has roles %s, want %s; rules %s" % (i, st["id"], got, want, "default" if st["dflt"] else rules), BLIND if got == blind else None))
            elif st["dflt"] and may != wmay:
                bad.append(("step %d: server: %s may %s by default, want %s" % (i, st["id"], may, wmay), None))
    return bad
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Roles", env={"MC": "1"}, workers=4, heap="4g", timeout=1500)
        ctx.count_states(out)
        cases = table.generate(ctx, "Roles", num=deep if ctx.thorough else quick, depth=100, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "roles", cases, judge, "roles")
    return f
