"""C06: multi-variable root finding accepts exactly the points it may accept."""
import random
import core, exprlib

BIG = 60000  # points: more than a search that keeps something of every point could examine


def q(p):
    return p[0] / p[1]


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Newton2", consts=dict(MaxPts="2", Wide="FALSE" if ctx.quick else "TRUE")),
            ctx.go("Newton2", consts=dict(MaxPts="6", Wide="TRUE"), sim=(800 if ctx.quick else 8000, 30), parallel=8)]
    linear = ctx.go("LinSys", sim=(120 if ctx.quick else 1200, 60), parallel=4)
    large = ctx.go("LinSys", consts=dict(MaxN="16"), sim=(80 if ctx.quick else 800, 60), parallel=4)
    recs = [r for f in runs for r in f.result()]
    cases = []
    for r in recs:
        names = rng.sample(exprlib.NAMES, 2)
        cells = [[c["cell"], c["kind"], [q(v) for v in c["x0"]], [q(v) for v in c["y"]], [[v / c["jac"][2] for v in row] for row in c["jac"][:2]]] for c in r["cells"]]
        base = dict(kind="mnewton", names=names, guess=dict(zip(names, map(q, r["guess"]))), cells=cells, rows=rng.choice([[0, 1], [1, 0]]))
        m = q(r["margin"])
        limits = range(0, r["k"] + (1 if r["outcome"] == "cut" else 3))
        for limit in limits:
            exp = "err"
            if r["outcome"] == "accept" and r["k"] <= limit:
                exp = dict(zip(names, map(q, r["x"])))
            elif r["outcome"] == "fail" and r["k"] <= limit:
                exp = "fail"
            cases.append((dict(base, margin=m, limit=limit), exp))
        if r["outcome"] in ("cycle", "never") and rng.random() < 0.02:  # the search goes on for ever
            for limit in (rng.choice([50, 1000, 20000]), BIG):
                cases.append((dict(base, margin=m, limit=limit), "err"))
        if rng.random() < 0.05:
            cases.append((dict(base, margin=rng.choice([0.0, -m]), limit=5), "err"))
            cases.append((dict(base, margin=m, limit=5, rows=rng.choice([[0], [1, 0, 0], [0, 1, 1, 0], []])), "err"))
    # without unknowns the only point satisfies every equation
    empty = dict(kind="mnewton", names=[], guess={}, cells=[[[], "ok", [], [], []]], whole=True, margin=0.1)
    cases += [(dict(empty, rows=[], limit=1), {}), (dict(empty, rows=[], limit=7), {}), (dict(empty, rows=[], limit=3, margin=-1.0), "err")]
    for r in linear.result() + large.result():
        n = r["n"]
        names = rng.sample(exprlib.NAMES + ["u%d" % i for i in range(n)], n)
        rows = list(range(n))
        rng.shuffle(rows)
        cell = [[0] * n, "ok", r["sol"], [0.0] * n, r["mat"]]
        base = dict(kind="mnewton", whole=True, names=names, cells=[cell], rows=rows, margin=rng.choice([1e-3, 1e-5]))
        target = dict(zip(names, r["sol"]))
        away = {k: v + rng.choice([-3, 2, 7]) for k, v in target.items()}
        cases.append((dict(base, guess=away, limit=1), "err"))
        cases.append((dict(base, guess=away, limit=rng.choice([3, 10, 50])), target))
        cases.append((dict(base, guess=dict(target), limit=1), target))
        if n > 1:
            z = rng.randrange(n)
            mat = [row[:] for row in r["mat"]]
            mat[z] = [0] * n   # a function that is constant, and not zero
            cases.append((dict(base, cells=[[[0] * n, "ok", r["sol"], [1.0] * n, mat]], guess=away, limit=20), "err"))
    results = ctx.run([c[0] for c in cases])
    for (case, exp), res in zip(cases, results):
        if core.bad(res):
            ctx.violation("root finding: %s" % core.bad(res), case, exp, res)
            continue
        if res.get("skipped"):
            continue
        out = res["out"]
        if exp in ("err", "fail"):
            if "err" not in out:
                ctx.violation("a point is returned where none is acceptable", case, exp, out)
                continue
            if exp == "fail" and "scripted failure" not in out["err"]:
                ctx.violation("the error of the function is not returned", case, exp, out)
                continue
        elif "ok" not in out:
            ctx.violation("no result where a point is acceptable", case, exp, out)
            continue
        elif set(out["ok"]) != set(exp) or any(not core.close(core.num(out["ok"][v]), exp[v], 1e-6, 2e-4 if case.get("whole") else 1e-6) for v in exp):
            ctx.violation("returns another point", case, exp, out)
            continue
        ctx.ok()
        if len(case["names"]) > 4 or len(case["cells"]) > 3:
            ctx.sample(dict(case=case, expected=exp))
    ctx.assumptions += ["functions are piecewise linear (two unknowns, chosen adversarially) or linear (up to seven unknowns)",
                        "comparisons with the margin that rounding could decide are left out of the specification"]
