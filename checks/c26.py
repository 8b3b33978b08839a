"""C26: nodes and elements put together by hand."""
import core


def value(x, scale):
    return x if x == ["err"] else [a / scale for a in x]


def expected(s):
    """what the harness gives for a step of the specification"""
    op = s["op"]
    if op == "look":
        return dict(nodes=[n and [value(n[0], 1), n[1], value(n[2], 8)] for n in s["nodes"]], els=[e and [value(e[0], 8)] for e in s["els"]])
    if op == "node":
        return dict(ok=True, fresh=[[1.0], False, [0.0]])
    if op == "read":
        return dict(ok=s["ok"], pot=s["ok"], locked=s["locked"] if s["ok"] else None)
    if op == "make":
        return dict(ok=s["ok"], gap=value(s["e"]["g"], 1) if s["ok"] and s["e"]["ty"] == "obs" and s["c"] != "own" else None)
    return dict(ok=s.get("ok", True))


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return isinstance(b, (int, float)) and not isinstance(b, bool) and core.close(float(b), a, 1e-9, 1e-9)
    return a == b


def compare(ctx, r, res):
    if core.bad(res):
        return ctx.violation("network: %s" % core.bad(res), r, "results and errors", res)
    if res.get("skipped"):
        return
    for k, (s, g) in enumerate(zip(r["steps"], res["steps"])):
        w = expected(s)
        if not same(w, g):
            parts = [p for p in w if not same(w[p], g.get(p))]
            what = "%s of %s" % (s["c"], "an element") if s["op"] == "make" else s["op"]
            return ctx.violation("step %d (%s): %s" % (k + 1, what, ", ".join(parts)),
                                 dict(dim=r["dim"], steps=[{a: b for a, b in x.items()} for x in r["steps"][:k + 1] if x["op"] != "look"]), w, g)
    if any(x != ["err"] for x in res["circle"]):
        return ctx.violation("sources in a circle have a flux", r, "errors", res["circle"])
    ctx.ok()


def run(ctx):
    recs = ctx.tlc("Wiring", sim=(150 if ctx.quick else 3000, 100), parallel=8)
    # many nodes
    recs += ctx.tlc("Wiring", consts=dict(MaxNodes="13", MaxEls="20", MaxSteps="110"), sim=(3 if ctx.quick else 200, 150), parallel=8)
    cases = [dict(kind="wiring", **r) for r in recs]
    for r, res in zip(recs, ctx.run(cases)):
        compare(ctx, r, res)
        ctx.sample([[s["op"], s.get("c"), s.get("ok")] for s in r["steps"] if s["op"] != "look"][:20])
    ctx.extra["circles"] = sum(bool(r["circle"]) for r in recs)
    ctx.extra["calls"] = {op: sum(s["op"] == op for r in recs for s in r["steps"]) for op in
                          ("node", "set", "lock", "read", "flux", "hold", "dropnode", "dropel", "make", "look")}
    ctx.assumptions.append("gains and potentials are such that every flux is exact in floating point")
