"""C04: a variable's value is the result of the operation, clamped to its domain."""
import math, random
import core


def num(q):
    n, d = q
    return "inf" if (n, d) == (1, -1) else "-inf" if (n, d) == (-1, -1) else n / d


def run(ctx):
    runs = [ctx.go("Clamp", consts=dict(MaxSteps="2" if ctx.quick else "3")),
            ctx.go("Clamp", cfg="ClampDeep", sim=(300 if ctx.quick else 2000, 60), parallel=8)]
    recs = [r for f in runs for r in f.result()]
    cases = []
    for r in recs:
        steps = [[op, num(a)] for op, a, _ in r["steps"]]
        ints = all(isinstance(a, float) and a == int(a) for _, a in steps)
        bytes_ = ints and all(0 <= a <= 127 for _, a in steps)
        lo, hi = num(r["lo"]), num(r["hi"])
        small = all(isinstance(x, float) and x == int(x) and 0 <= x <= 127 for x in (lo, hi))
        types = ["f64"] + (["i32"] if ints else []) + (["u8"] if bytes_ and small else [])
        if all(isinstance(a, float) for _, a in steps):
            types.append("f32")
        for t in types:
            # construction takes one type for value and bounds
            cases.append((r, dict(kind="clamp", type=t, lo=lo, hi=hi, steps=steps)))
    # without bounds the unit of measurement is arbitrary: let it drift by powers
    # of two with each product and quotient, through the whole range of doubles
    rng = random.Random(ctx.seed)
    for r in recs:
        if (num(r["lo"]), num(r["hi"])) == ("-inf", "inf") and len(r["steps"]) > 4:
            for _ in range(3):
                unit = rng.choice([0, 900, -950])
                steps, want = [], []
                for op, a, v in r["steps"]:
                    x = num(a)
                    if op in ("*=", "/="):
                        if isinstance(x, float) and x != 0:
                            f = rng.choice([0, 500, 900, -500, -950]) - unit
                            f = max(-1060, min(1000, f if op == "*=" else -f))
                            unit += f if op == "*=" else -f
                            x = math.ldexp(x, f)
                    elif isinstance(x, float):
                        x = math.ldexp(x, unit)
                    steps.append([op, x])
                    want.append([op, a, v, unit])
                if all(abs(w[3]) < 1000 for w in want):
                    cases.append((dict(r, steps=want), dict(kind="clamp", type="f64", lo="-inf", hi="inf", steps=steps)))
    results = ctx.run([c[1] for c in cases])
    n = 0
    for (r, case), res in zip(cases, results):
        if core.bad(res):
            ctx.violation("operations on a variable: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        for i, (s, got) in enumerate(zip(r["steps"], res["steps"])):
            n += 1
            v, lo, hi = [core.num(x) for x in got]
            exp = float(num(s[2]))
            unit = s[3] if len(s) > 3 else 0
            if not math.isinf(exp):
                exp = math.ldexp(exp, unit)
            if lo != float(case["lo"]) or hi != float(case["hi"]):
                ctx.violation("step %d %s changes the domain" % (i, s[:2]), case, [case["lo"], case["hi"]], [lo, hi])
                break
            if not (lo <= v <= hi):
                ctx.violation("step %d %s leaves the domain" % (i, s[:2]), case, exp, v)
                break
            if not core.close(v, exp, 1e-12, math.ldexp(1e-12, unit)):
                ctx.violation("step %d %s" % (i, s[:2]), case, exp, v)
                break
        else:
            ctx.ok()
            if len(case["steps"]) > 20:
                ctx.sample(dict(case=case, expected=[num(s[2]) for s in r["steps"]]))
    ctx.extra.update(steps_compared=n)
    ctx.assumptions += ["operations whose result is not a number (such as inf - inf) are left out"]
