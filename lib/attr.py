import re
import table
from sess import good
def same(st, o, w, g):
    """w: result of the specification, g: result of the code"""
    if not good(w["st"], g["st"]):
        return "%s, want %s" % (g["st"], w["st"])
    if st["op"] == "write":
        return None
    if "hist" in w:
        if g["hist"] != w["hist"]:
            return "historizing %s, want %s" % (g["hist"], w["hist"])
        return None if g["val"] == w["val"] else "holds %s, want %s" % (g["val"], w["val"])
    if w["x"] == "v":
        return None if g.get("val", {"t": "Nil", "a": False, "d": []}) == w["val"] else "returns %s, want %s" % (g.get("val"), w["val"])
    if "val" in g and w["st"] != "Good":
        return "%s, but returns a value" % g["st"]
    if w["st"] == "Good" and o["n"] == "v" and o["attr"] not in ("Description", "ArrayDimensions"):
        x = w["x"]
        if o["attr"].endswith("AccessLevel"):
            x = ",".join(sorted(re.findall(r'"(\w+)"', x)))
        elif o["attr"].endswith("RolePermissions"):
            x = ";".join(sorted("%s:%s" % (r, ",".join(sorted(re.findall(r'"(\w+)"', p)))) for r, p in re.findall(r'<<"(\w+)", (\{[^}]*\})>>', x)))
        if g.get("x") != x:
            return "%s %s, want %s" % (o["attr"], g.get("x"), x)
    return None
def judge(c, ev):
    for i, st in enumerate(c["steps"]):
        e = ev[i]
        what = "step %d, %s by %s: " % (i, st["op"], st["u"])
        if not good(st["want"], e["res"]):
            return [(what + "answered %s, want %s" % (e["res"], st["want"]), None)]
        if e.get("notes"):
            return [(what + "; ".join(e["notes"]), None)]
        if len(e["results"]) != len(st["res"]):
            return [(what + "%d results, want %d" % (len(e["results"]), len(st["res"])), None)]
        for o, w, g in zip(st.get("ops", []), st["res"], e["results"]):
            d = same(st, o, w, g)
            if d:
                return [(what + "%s: %s" % (o, d), None)]
    return []
def run(profile, quick, deep, seed=0):
    def f(ctx):
        ctx.level = "model_checking"
        cases = table.generate(ctx, "Attr", num=deep if ctx.thorough else quick, env={"ATTR_PROFILE": profile}, depth=100, seed=seed)
        ctx.log("%d behaviours" % len(cases))
        table.compare(ctx, "attr", cases, judge, "attribute services")
        ctx.assumptions = ["multi-dimensional arrays are not part of the behaviours", "nodes without their own read or write handlers"]
    return f
