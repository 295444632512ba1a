"""Service calls at the very instant a subscription expires (S05): the order is open, but nothing may crash, hang or stay unanswered."""
import random, table
OPS = ["modify", "delete", "ack", "publish", "republish", "setpub", "citems", "mitems", "setmode", "delitems", "settrig", "resend", "closesession"]
def judge(c, ev):
    bad = []
    for e in ev:
        if e["op"] == "alive":
            if not e["ok"]:
                bad.append(("the server no longer answers, or does not report every expired subscription exactly once", None))
        elif e["n"] != 1 and not (e["op"] in ("ack", "publish") and e["n"] == 0):
            bad.append(("call %s at the moment of expiry answered %d times" % (e["op"], e["n"]), None))
    if not any(e["op"] == "alive" for e in ev):
        bad.append(("case did not finish", None))
    return bad[:2]
def run(ctx, n):
    rng = random.Random(ctx.seed * 7 + 1)
    cases = []
    for i in range(n):
        ops = OPS if i % 3 else rng.sample(OPS, 2)
        cases.append(dict(Seed=rng.randrange(1 << 30), Subs=24, At=60000 if i % 2 else 60000 * rng.choice((1, 2)) + rng.choice((0, 350)), Ops=ops, Early=0))
    cases += [dict(Seed=2, Subs=0, At=40000, Ops=[], Early=0, Many=m) for m in (63, 64, 65, 130)]
    table.compare(ctx, "collide", cases, judge, "service calls at the moment of expiry", timeout=60)
