import table
RANK = {"None": 0, "Sign": 1, "SignAndEncrypt": 2}

def endpoints(got, want, users):
    """want: set of (policy, mode)"""
    g = [(x["policy"], x["mode"]) for x in got]
    if sorted(g) != sorted(want):
        return "endpoints %s, want %s" % (sorted(g), sorted(want))
    for x in got:
        if not (x["cert"] and x["url"] and x["ids"] and x["transport"] == "tcp" and x["app"] == "urn:verif:server"):
            return "endpoint %s" % x
        if sorted(t["type"] for t in x["tokens"]) != sorted(users):
            return "endpoint %s: token policies, want those of %s" % (x, users)
        for t in x["tokens"]:
            # secrets and proofs of users are protected
            if t["type"] != "Anonymous" and (t["policy"] == "None" or t["policy"] == "?" and x["policy"] == "None"):
                return "endpoint %s: token policy without security" % x
    for a in got:
        for b in got:
            if RANK[a["mode"]] < RANK[b["mode"]] and a["level"] >= b["level"]:
                return "levels of %s %s and %s %s: %d, %d" % (a["policy"], a["mode"], b["policy"], b["mode"], a["level"], b["level"])
    return None
def judge(c, ev):
    bad = []
    for i, st in enumerate(c["steps"]):
        if i >= len(ev):
            return [("only %d of %d steps" % (i, len(c["steps"])), None)]
        e, d = ev[i], None
        if st["op"] == "conf":
            conf = st["conf"]
            users = conf["users"]
            every = [(p, m) for p in ("Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256") for m in ("Sign", "SignAndEncrypt")] + ([("None", "None")] if conf["none"] else [])
        elif st["op"] == "ask":
            if not e["open"]:
                d = "channel refused"
            elif "endpoints" not in e or "servers" not in e or e["other"]:
                d = "no answer: %s" % e
            else:
                d = endpoints(e["endpoints"], [tuple(x) for x in st["want"]], users)
                s = e["servers"]
                if not d and (len(s) != (1 if st["found"] else 0) or any(x != {"app": "urn:verif:server", "product": "urn:verif", "urls": True, "type": "Server"} for x in s)):
                    d = "servers %s, want %s" % (s, st["found"])
        elif st["op"] == "enter":
            if e["open"] != (st["opens"] != "refused"):
                d = "channel %s" % ("opened" if e["open"] else "refused")
            elif e["session"] != (st["opens"] == "full"):
                d = "session %s" % ("created" if e["session"] else "refused")
            elif e["active"] != st["ok"] or e["served"] != st["ok"]:
                d = "user %s: %s, served %s, want %s" % (st["tok"], e.get("result"), e["served"], st["ok"])
            elif e["session"]:
                d = endpoints(e["endpoints"], every, users)
        elif st["op"] == "intrude":
            if not e["open"]:
                d = "channel for discovery refused"
            elif e["served"]:
                d = "served on a channel for discovery: %s" % e["result"]
        if d:
            bad.append(("step %d: %s %s %s with %s: %s" % (i, st["op"], st.get("policy", ""), st.get("mode", st.get("svc", "")), conf, d), None))
    return bad
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Offer", env={"MC": "1"}, workers=4, heap="4g", timeout=1500)
        ctx.count_states(out)
        cases = table.generate(ctx, "Offer", num=deep if ctx.thorough else quick, depth=100, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "offer", cases, judge, "offer")
    return f
