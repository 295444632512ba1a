import table
TEXTS = {"": "", "plain": "Plain", "amp": "A&B <c> \"d\"", "spaces": "two  words", "unicode": "Grüße ☃", "colon": "a:b/c"}
GO = {"Boolean": "bool", "SByte": "int8", "Byte": "uint8", "Int16": "int16", "UInt16": "uint16", "Int32": "int32", "UInt32": "uint32", "Int64": "int64", "UInt64": "uint64", "Float": "float32", "Double": "float64"}
CLS = {"Object": "object", "Variable": "variable", "Method": "method", "View": "view", "ObjectType": "objecttype", "VariableType": "variabletype", "DataType": "datatype", "ReferenceType": "referencetype"}
NUM = {"object": "1", "variable": "2", "method": "4", "objecttype": "8", "variabletype": "16", "referencetype": "32", "datatype": "64", "view": "128"}
ONEWAY = (40, 37)

def lt(v, locale): return {"v": TEXTS[v], "locale": locale}
def canon(it):
    t = it["t"]
    if t in GO:
        return {"t": GO[t], "v": it["v"]}
    if t == "LocalizedText":
        return {"t": t, "v": TEXTS[it["v"]], "locale": it["locale"]}
    if t == "QualifiedName":
        return {"t": t, "v": TEXTS[it["v"]], "uri": it["uri"]}
    if t == "NodeId":
        return {"t": t, "key": it["key"]}
    if t == "ExpandedNodeId":
        return {"t": t, "key": it["key"], "svr": 0}
    if t == "Range":
        return {"t": t, "v": "-1.5 100"}
    if t == "EUInformation":
        return {"t": t, "uri": it["uri"], "unit": 4711, "display": lt(it["v"], it["locale"]), "descr": lt("plain", it["locale"])}
    if t == "Argument":
        amp = it["v"] == "amp"
        return {"t": t, "name": TEXTS[it["v"]], "key": it["key"], "rank": 1 if amp else -1, "dims": "[3]" if amp else "[]", "descr": lt(it["v"], it["locale"])}
    if t == "EnumValueType":
        return {"t": t, "v": -5, "display": lt(it["v"], it["locale"]), "descr": lt("plain", it["locale"])}
    return {"t": t, "v": it["v"]}
def refkey(r): return (r["type"]["uri"], r["type"]["k"], r["type"]["id"], r["fwd"], r["target"]["uri"], r["target"]["k"], r["target"]["id"])
def refs(got, want, own):
    """own: what the node itself declares; others need not be known to the target of a type definition"""
    bad = [r for r in got if not isinstance(r, dict)]
    if bad:
        return "browsing: %s" % bad[0]
    g, w, o = [refkey(r) for r in got], {refkey(r) for r in want}, {refkey(r) for r in own}
    if len(set(g)) != len(g):
        return "reference listed twice: %s" % [x for x in g if g.count(x) > 1][0:1]
    for x in w - set(g):
        if x in o or not (x[0] == "ua" and x[2] in ONEWAY):
            return "reference missing: %s" % (x,)
    for x in set(g) - w:
        return "reference not in any document: %s" % (x,)
    return None
def node(w, got):
    """deviations of one node"""
    exp = {"browse": {"v": w["browse"]["v"], "uri": w["browse"]["uri"]}, "display": w["display"]}
    c = w["cls"]
    if w["descr"]["v"]:
        exp["descr"] = w["descr"]
    if c.endswith("Type"):
        exp["abstract"] = w["abstract"]
    if c == "ReferenceType":
        exp["symmetric"] = w["symmetric"]
        if w["inverse"]:
            exp["inverse"] = {"v": w["inverse"], "locale": ""}
    if c in ("Object", "View"):
        exp["notifier"] = w["notifier"]
    if c == "View":
        exp["noloops"] = w["noloops"]
    if c == "Method":
        exp["executable"] = w["executable"]
    if c in ("Variable", "VariableType"):
        exp["dt"], exp["rank"] = w["dt"], w["rank"]
    if c == "Variable":
        exp["access"], exp["sampling"], exp["historizing"] = w["access"], w["sampling"], w["historizing"]
    if got.get("cls") not in (CLS[c], NUM[CLS[c]]):
        return "class %s, want %s" % (got.get("cls"), c)
    if got.get("id") != w["key"]:
        return "node id %s" % (got.get("id"),)
    for k, v in exp.items():
        g = got.get(k)
        if isinstance(v, dict):
            v = {a: b for a, b in v.items()}
            if k in ("display", "descr"):
                v = {"v": v["v"], "locale": v["locale"]}
        if g != v:
            return "%s %s, want %s" % (k, g, v)
    if c in ("Variable", "VariableType"):
        if w["dims"] and got.get("dims") != w["dims"]:
            return "dims %s, want %s" % (got.get("dims"), w["dims"])
        v = w["value"]
        if v["t"] and not v["odd"]:
            want = [canon(i) for i in v["items"]]
            g = got.get("value")
            if v["arr"] and want == [] and g is None:
                return None
            if not v["arr"]:
                want = want[0]
            if g != want:
                return "value %s, want %s" % (g, want)
    return None
def judge(c, ev):
    bad, decl = [], {}
    for i, st in enumerate(c["steps"]):
        if i >= len(ev):
            return [("only %d of %d steps" % (i, len(c["steps"])), None)]
        e, w = ev[i], st["want"]
        if e["err"] != (st["op"] == "bad"):
            bad.append(("step %d: %s: %s" % (i, st["op"], e.get("msg", "no error")), None))
            continue
        if e["table"] != w["table"]:
            bad.append(("step %d: namespaces %s, want %s" % (i, e["table"], w["table"]), None))
            continue
        for n in st.get("new", []):
            decl[str(n["key"])] = n["refs"]
        for n, r, g in zip(w["nodes"], w["refs"], e["nodes"]):
            d = node(n, g) or refs(g["refs"], r, decl[str(n["key"])])
            if d:
                bad.append(("step %d: %s %s: %s" % (i, n["cls"], n["key"], d), None))
        for s, g in zip(w["std"], e["std"]):
            d = refs(g, s["refs"], [])
            if d:
                bad.append(("step %d: standard node %s: %s" % (i, s["key"]["id"], d), None))
        if bad:
            break
    return bad
def run(quick, deep):
    def f(ctx):
        ctx.level = "model_checking"
        _, out = ctx.tlc("Nodeset", env={"MC": "1"}, workers=4, heap="4g", timeout=1500)
        ctx.count_states(out)
        cases = table.generate(ctx, "Nodeset", num=deep if ctx.thorough else quick, depth=20, timeout=1500)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "nodeset", cases, judge, "node set")
    return f
