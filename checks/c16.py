"""C16: the matrix C interface keeps handles valid and mirrors the library."""
import json, math
import core

UMAX = 2 ** 32 - 1
MIN = -1.7976931348623157e308
CHANGERS = {"scale", "swap", "row_scale", "row_add", "scaled_row_add", "set"}
MAKERS = {"new", "identity", "clone", "transpose", "multiply", "augment", "subset"}


def shape(m):
    return dict(r=0, c=0, v=[]) if m["r"] * m["c"] == 0 else dict(r=m["r"], c=m["c"], v=[float(x) for x in m["v"]])


def follow(h, res):
    """None, or what is wrong with one pass"""
    live = {}
    for i, s in enumerate(h):
        o, op = s["call"], s["call"]["op"]
        what = "call %d (%s)" % (i + 1, json.dumps(o))
        if i >= len(res["steps"]):
            return what, "a call", "none"
        g = res["steps"][i]
        if op in MAKERS:
            if g.get("null") == s["ok"]:
                return what, "a handle" if s["ok"] else "null", "null" if g["null"] else "a handle"
            if s["ok"]:
                live[o["d"]] = s["m"]
        elif op in CHANGERS:
            if g["out"] != (1 if s["ok"] else 0):
                return what, 1 if s["ok"] else 0, g["out"]
        elif op in ("get", "trace"):
            want = float(s["val"][0]) if s["ok"] else MIN if op == "get" else math.nan
            got = core.num(g["out"])
            if not (got == want or (math.isnan(want) and math.isnan(got))):
                return what, want, got
        elif op == "invert":
            want = UMAX if s["status"] == -1 else s["status"]
            if g["out"] != want:
                return what, want, g["out"]
        elif op == "fill":
            if g["out"] != 1:
                return what, 1, g["out"]
        elif op == "free":
            live.pop(o["a"])
        elif op.startswith("huge"):
            if g["out"] is not True:
                return what, "null", "a handle"
        if s["to"]:
            live[s["to"]] = s["m"]
        want = {k: shape(m) for k, m in live.items()}
        got = {k: dict(r=m["r"], c=m["c"], v=[core.num(x) for x in m["v"]]) for k, m in g["regs"].items()}
        if got != want:
            return what + ": live matrices afterwards", want, got
    for k in ("double_frees", "written_after_free"):
        if res[k]:
            return "blocks %s over the whole sequence" % k.replace("_", " "), 0, res[k]
    return None


def run(ctx):
    recs = ctx.tlc("Handles", sim=(80 if ctx.quick else 1200, 90), parallel=8)
    if not ctx.quick:
        recs += ctx.tlc("Handles", consts=dict(Regs='{"A", "B", "C", "D", "E", "F", "G"}', MaxOps="100"), sim=(100, 250), parallel=8)
    cases = []
    for h in recs:
        live, calls = {}, []
        for s in h:
            o = dict(s["call"])
            if o["op"] == "fill":
                o["c"] = live[o["a"]]
            if s["to"]:
                live[s["to"]] = s["m"]["c"]
            calls.append(o)
        cases.append(dict(kind="handles", calls=calls))
    results = ctx.run(cases)
    n = 0
    for case, h, res in zip(cases, recs, results):
        if core.bad(res):
            ctx.violation("calls on matrix handles: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        n += len(h)
        w = follow(h, res["first"]) or follow(h, res["second"])
        if w:
            ctx.violation(w[0], case, w[1], w[2])
            continue
        if res["second"]["leaked"]:
            ctx.violation("blocks never freed although every handle was", case, 0, res["second"]["leaked"])
            continue
        ctx.ok()
        ctx.sample([s["call"]["op"] for s in h])
    ctx.extra["calls"] = n
    ctx.assumptions.append("callers pass live handles; freed blocks are kept and filled with a pattern until the end of a sequence, so that reads and writes after a free show")
