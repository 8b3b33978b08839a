"""C05: one-variable root finding accepts exactly the points it may accept."""
import math, random
import core

BIG = 300000  # points: more than a search that keeps something of every point could examine


def q(p):
    return p[0] / p[1]


def run(ctx):
    runs = [ctx.go("Newton1", consts=dict(MaxPts="3")),
            ctx.go("Newton1", consts=dict(MaxPts="7"), sim=(1500 if ctx.quick else 20000, 30), parallel=6)]
    polys = ctx.go("Poly", consts=dict(MaxDeg="3" if ctx.quick else "5", MaxRoot="3" if ctx.quick else "4"))
    recs = [r for f in runs for r in f.result()]
    if not ctx.quick:
        recs += ctx.tlc("Newton1", consts=dict(MaxPts="5"), sim=(20000, 30), parallel=8)
    rng = random.Random(ctx.seed)
    cases = []
    for r in recs:
        cells = [[c["cell"], c["kind"], q(c["x0"]), q(c["y"]), q(c["s"])] for c in r["cells"]]
        base = dict(kind="newton", guess=q(r["guess"]), cells=cells)
        m = q(r["margin"])
        for limit in range(0, r["k"] + (1 if r["outcome"] == "cut" else 3)):
            exp = "err"
            if r["outcome"] == "accept" and r["k"] <= limit:
                exp = q(r["x"])
            elif r["outcome"] == "fail" and r["k"] <= limit:
                exp = "fail"
            cases.append((dict(base, margin=m, limit=limit), exp))
        if r["outcome"] in ("cycle", "never") and rng.random() < 0.02:  # the search goes on for ever
            for limit in (rng.choice([50, 1000, 20000]), BIG):
                cases.append((dict(base, margin=m, limit=limit), "err"))
        if rng.random() < 0.05:
            for bad in (0.0, -m, -1e-9):
                cases.append((dict(base, margin=bad, limit=rng.choice([1, 5, 50])), "err"))
    for r in polys.result():
        for scale in ([rng.choice([1.0, 0.001, 1e-5, 100.0])] if ctx.quick else [1.0, 0.001, 1e-5, 100.0]):
            for m in ([rng.choice([1e-3, 1e-6])] if ctx.quick else [1e-3, 1e-6]):
                cases.append((dict(kind="newton", guess=r["guess"], margin=m, limit=300, roots=r["roots"], lead=r["lead"] * scale), ("root", r["target"])))
    results = ctx.run([c[0] for c in cases])
    for (case, exp), res in zip(cases, results):
        if core.bad(res):
            ctx.violation("root finding: %s" % core.bad(res), case, exp, res)
            continue
        if res.get("skipped"):
            continue
        out = res["out"]
        if exp in ("err", "fail"):
            if "err" not in out:
                ctx.violation("a point is returned where none is acceptable", case, exp, out)
                continue
            if exp == "fail" and "scripted failure" not in out["err"]:
                ctx.violation("the error of the function is not returned", case, exp, out)
                continue
        elif "ok" not in out:
            ctx.violation("no result where a point is acceptable", case, exp, out)
            continue
        elif isinstance(exp, tuple):
            x = core.num(out["ok"])
            y = case["lead"] * math.prod(x - r for r in case["roots"])
            if abs(y) > case["margin"] * 1.01 or abs(x - exp[1]) > case["margin"] * 20:
                ctx.violation("not the root beyond which the guess is", case, exp, out)
                continue
        elif not core.close(core.num(out["ok"]), exp, 1e-6, 1e-6):
            ctx.violation("returns another point", case, exp, out)
            continue
        ctx.ok()
        if len(case.get("cells", [])) > 4:
            ctx.sample(dict(case=case, expected=exp))
    ctx.assumptions += ["functions are piecewise linear (chosen adversarially by the specification) or polynomials with real roots",
                        "comparisons with the margin that rounding could decide are left out of the specification"]
