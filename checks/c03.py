"""C03: functions compiled from a context share its variables, and nothing else matters."""
import random
import core, exprlib


def q(v):
    return v[0] / v[1]


def concretise(rng, rec):
    names = exprlib.rename(rng, ["x", "y", "z", "k"] + ["v%d" % i for i in range(1, 12)])
    names["unknown"] = "nosuchname"
    ctxs = {}
    init = rec["steps"][0]["store"]
    for c, doms in rec["dom"].items():
        vs = {}
        for x, d in doms.items():
            vs[names[x]] = [q(init[c][x])] + ([q(b) for b in d] or ["-inf", "inf"])
        ctxs[c] = dict(consts={names["k"]: 3 if c == "A" else -2}, vars=vs)
    steps = []
    for s in rec["steps"][1:]:
        st = dict(op=s["op"], ctx=s["ctx"], fun=s["fun"])
        if s["tree"]:
            st["src"] = exprlib.tree_text(rng, s["tree"], names)
        if s["op"] == "call":
            st["args"] = {names.get(k, k): q(v) for k, v in s["args"].items()} if s["args"] else {}
        steps.append(st)
    return dict(kind="store", ctxs=ctxs, steps=steps), names


def run(ctx):
    runs = [ctx.go("Store", consts=dict(MaxSteps="3" if ctx.quick else "4", MaxFuns="2")),
            ctx.go("Store", cfg="StoreDeep", sim=(100 if ctx.quick else 600, 60), parallel=8)]
    recs = [r for f in runs for r in f.result()]
    rng = random.Random(ctx.seed)
    if ctx.quick and len(recs) > 30000:
        deep = [r for r in recs if len(r["steps"]) > 6]
        recs = rng.sample([r for r in recs if len(r["steps"]) <= 6], 24000) + deep
    cs = [concretise(rng, r) for r in recs]
    results = ctx.run([c[0] for c in cs])
    steps = 0
    for rec, (case, names), res in zip(recs, cs, results):
        if core.bad(res):
            ctx.violation("history of compiled functions: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        for i, (s, r) in enumerate(zip(rec["steps"][1:], res["steps"])):
            steps += 1
            what = "step %d (%s %s %s)" % (i + 1, s["op"], case["steps"][i].get("src", ""), case["steps"][i].get("args", ""))
            exp_store = {c: {names[x]: q(v) for x, v in m.items()} for c, m in s["store"].items()}
            val = None
            if s["op"] in ("call", "eval") and s["ok"]:
                val = s["val"][0] / s["val"][1]
            out = r["out"]
            if s["ok"] != ("ok" in out) or "panic" in out:
                ctx.violation(what, case, "success" if s["ok"] else "error", out)
                break
            if val is not None and not core.close(core.num(out["ok"]), val, 1e-9, 1e-12):
                ctx.violation(what, case, val, out)
                break
            if r["store"] != exp_store:
                ctx.violation(what + ": values of the variables", case, exp_store, r["store"])
                break
        else:
            ctx.ok()
            if len(rec["steps"]) > 20:
                ctx.sample(dict(case=case))
    ctx.extra.update(steps_compared=steps)
    ctx.assumptions += ["expression values are rational numbers with parts up to 30000; other results cut a history short"]
