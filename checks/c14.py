"""C14: matrix operations compute their algebraic definition and reject bad shapes."""
import json
import core

REGS = ["A", "B", "C", "D"]


def text(m):
    rows = [m["v"][i * m["c"]:(i + 1) * m["c"]] for i in range(m["r"])]
    return "[" + "; ".join(", ".join(str(x) for x in r) for r in rows) + "]"


def run(ctx):
    small = ctx.go("MatrixOps", sim=(50 if ctx.quick else 800, 60), parallel=8)
    wide = ctx.go("MatrixOps", consts=dict(Lim="10000", Unit="11"), sim=(40 if ctx.quick else 600, 60), parallel=8)
    small, wide = small.result(), wide.result()
    cases, hists = [], []
    for types, recs in ((["f64", "f32", "i8", "i16", "i32", "i64"], small), (["f64", "f32", "i16", "i32", "i64"], wide)):
        for h in recs:
            for t in types:
                cases.append(dict(kind="matrix", type=t, regs=REGS, calls=[s["call"] for s in h]))
                hists.append(h)
    results = ctx.run(cases)
    steps = 0
    # operations that give a Result: these never panic
    results_ops = {"from_vec", "trace"}
    for case, h, res in zip(cases, hists, results):
        if core.bad(res):
            ctx.violation("matrix operations: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        regs = {r: dict(r=0, c=0, v=[]) for r in REGS}
        for i, (s, g) in enumerate(zip(h, res["steps"])):
            steps += 1
            o = s["call"]
            what = "%s matrices, step %d: %s" % (case["type"], i + 1, json.dumps(o))
            c = dict(case, calls=case["calls"][:i + 1])
            if s["to"]:
                regs[s["to"]] = s["m"]
            if g["ok"] != s["ok"]:
                ctx.violation(what, c, "success" if s["ok"] else "reported failure", g)
                break
            if not s["ok"] and g["how"] == "panic" and (o["op"] in results_ops or (o["op"] == "multiply" and o["s"] == 1) or (o["op"] == "augment" and o["s"] > 2)):
                ctx.violation(what + ": panic instead of an error", c, "error", g)
                break
            if s["val"] and g.get("val") != s["val"][0]:
                ctx.violation(what, c, s["val"][0], g.get("val"))
                break
            wrong = [r for r in REGS if dict(r=g["regs"][r]["r"], c=g["regs"][r]["c"], v=g["regs"][r]["v"]) != regs[r]]
            if wrong:
                ctx.violation(what + ": matrix %s afterwards" % wrong[0], c, regs[wrong[0]], g["regs"][wrong[0]])
                break
            if not all(g["regs"][r]["same"] for r in REGS):
                ctx.violation(what + ": iter, indexing and into Vec disagree", c, regs, g["regs"])
                break
            if "-0" not in json.dumps(g["regs"]):
                t = [r for r in REGS if g["regs"][r]["text"] is not None and g["regs"][r]["text"] != text(regs[r])]
                if t:
                    ctx.violation(what + ": text form of %s" % t[0], c, text(regs[t[0]]), g["regs"][t[0]]["text"])
                    break
        else:
            ctx.ok()
            ctx.sample([s["call"]["op"] for s in h])
    ctx.extra["operations"] = steps
    ctx.assumptions.append("element values stay small enough to be exact in every element type")
