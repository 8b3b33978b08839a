"""C15: matrix inversion gives the inverse, or an error and an untouched matrix."""
import core


def run(ctx):
    runs = [ctx.go("Inverse", sim=(200 if ctx.quick else 4000, 40), parallel=8),
            ctx.go("Inverse", consts=dict(MaxN="4", MaxOps="14"), sim=(200 if ctx.quick else 3000, 40), parallel=8)]
    recs = [r for f in runs for r in f.result()]
    if not ctx.quick:
        recs += ctx.tlc("Inverse", consts=dict(MaxN="14", MaxOps="60"), sim=(200, 90), parallel=8)
    cases, exp = [], []
    # the elements go as texts: serde_json may misread the last digit of a number
    for r in recs:
        n = r["r"]
        if r["kind"] != "shape":
            m = [x * 2.0 ** (r["rs"][k // n] + r["cs"][k % n]) for k, x in enumerate(r["m"])]
        else:
            m = [float(x) for x in r["m"]]
        cases.append(dict(kind="invert", type="f64", r=r["r"], c=r["c"], v=[repr(x) for x in m]))
        exp.append(r)
        # the same in single precision, where it loses little there
        if sum(abs(a) + abs(b) for a, b in zip(r["rs"], r["cs"])) > 70:
            continue
        if r["kind"] != "good" or n * max(map(abs, r["m"])) * max(map(abs, r["inv"])) <= 300:
            if n <= 4 and max(map(abs, r["m"])) > 12 and r["kind"] not in ("zero", "zero row", "zero column", "shape"):
                continue
            cases.append(dict(kind="invert", type="f32", r=r["r"], c=r["c"], v=[repr(x) for x in m]))
            exp.append(r)
    results = ctx.run(cases)
    count = {}
    for case, r, res in zip(cases, exp, results):
        what = "inverting a %dx%d matrix of %s (%s)" % (r["r"], r["c"], case["type"], r["kind"])
        if core.bad(res):
            ctx.violation("%s: %s" % (what, core.bad(res)), case, None, res)
            continue
        if res.get("skipped"):
            continue
        if r["kind"] != "good":
            if res["ok"]:
                ctx.violation(what, case, "error", res)
            elif (res["r"], res["c"]) != (r["r"], r["c"]) or [core.num(x) for x in res["v"]] != [float(x) for x in case["v"]]:
                ctx.violation(what + ": matrix changed by a failed inversion", case, case["v"], res)
            else:
                ctx.ok()
                count[r["kind"]] = count.get(r["kind"], 0) + 1
            continue
        n = r["r"]
        want = [x * 2.0 ** -(r["cs"][k // n] + r["rs"][k % n]) for k, x in enumerate(r["inv"])]
        if not res["ok"]:
            ctx.violation(what, case, want, res)
            continue
        big = max(map(abs, r["inv"]))
        tol = 1e-7 * big if case["type"] == "f64" else 1e-3 * big
        good = (res["r"], res["c"]) == (n, n) and len(res["v"]) == n * n
        if good:
            for k, (x, w) in enumerate(zip(res["v"], want)):
                x = core.num(x)
                s = 2.0 ** (r["cs"][k // n] + r["rs"][k % n])
                if not abs(x * s - w * s) <= tol:
                    good = False
        if not good:
            ctx.violation(what, case, want, res)
            continue
        ctx.ok()
        ctx.sample(dict(m=case["v"], inverse=want))
        count["inverted %d" % n] = count.get("inverted %d" % n, 0) + 1
    ctx.extra["cases_by_kind"] = count
    ctx.assumptions.append("elements are integers times powers of two, so that the exact inverse is known; singular matrices above 4x4 have a zero row or column or a repeated row")
