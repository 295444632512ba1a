import re, table
def judge(c, ev):
    bad = []
    for e in ev:
        for n in (e.get("notes") or [])[:1]:
            bad.append((n, None))
    if len(ev) < len(c["items"]):
        bad.append(("only %d of %d values" % (len(ev), len(c["items"])), None))
    return bad[:3]
def run(profile, quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Codec", env={"CODEC_PROFILE": "meta"}, args=["-simulate", "num=1", "-depth", "1"])
        meta = ctx.printed(out, "META")[0]
        more = {"ids": meta["ids"], "schema": meta["schema"]}
        got = table.generate(ctx, "Codec", num=deep if ctx.thorough else quick, env={"CODEC_PROFILE": profile}, depth=20, timeout=1500, jobs=8)
        items = [it for c in got for it in c["items"]]
        # each run of the harness takes many values
        size = 150 if profile == "enc" else 60
        cases = [dict(more, items=items[i:i + size]) for i in range(0, len(items), size)]
        if profile == "dec":
            cases += [dict(more, items=[d]) for d in sorted(meta["deep"], key=lambda d: (d["t"], d["deep"]))]
        else:
            cases.append(dict(more, items=sorted(meta["edge"], key=lambda d: d["edge"])))
        ctx.log("%d values in %d runs" % (len(items), len(cases)))
        ctx.cov["events_compared"] += sum(len(it.get("m", [])) for it in items)
        types = sorted({it["t"] for it in items})
        ctx.notes.append("%d types as outermost value" % len(types))
        table.compare(ctx, "codec", cases, judge, "encoding" if profile == "enc" else "decoding", timeout=120)
        ctx.assumptions = ["the fields of the structures are those of Opc.Ua.Types.bsd, the identifiers those of NodeIds.csv"]
    return f
