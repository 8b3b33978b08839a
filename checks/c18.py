"""C18: solved networks obey the element laws and balance."""
import json, random
import core

TYPES = {"dc_circuit": dict(res="resistor", vs="voltage_source", cs="current_source"),
         "heat_transfer": dict(cond="conductor", conv="convection_interface", vs="temperature_delta", cs="heat_flux")}


def concretise(rng, r):
    """the laws are homogeneous: g and u are other units of conductance and potential"""
    ty = TYPES[r["study"]]
    g, u = rng.choice([1, 1, 1 / 1024, 128]), rng.choice([1, 1, 1 / 256, 64])

    def gain(e):
        x = [a / b for a, b in e["gain"]]
        if e["ty"] == "res":
            return [x[0] / g]
        if e["ty"] == "cs":
            return [x[0] * g * u]
        if e["ty"] == "vs":
            return [x[0] * u]
        return [x[0] / g] + x[1:] if len(x) == 2 and rng.random() < 0.5 else x[:-1] + [x[-1] * g]
    num = [p - 1 for p in r["num"]]
    nodes = [[num[v], [r["pot"][v] * u], True] for v in range(r["n"]) if r["fixed"][v]]
    nodes += [[num[v], [x * u for x in r["hints"][v]], False] for v in range(r["n"]) if not r["fixed"][v] and r["hints"][v]]
    rng.shuffle(nodes)
    els = [[ty[e["ty"]], e["i"] - 1, e["o"] - 1, gain(e)] for e in r["els"]]
    return dict(kind="network", study=r["study"], n=r["n"], nodes=nodes, els=els, margin=rng.choice([1e-4, 1e-6]) * min(u, g * u), limit=60), g, u


def expected(r, g, u):
    ty = TYPES[r["study"]]
    return dict(nodes={str(r["num"][v] - 1): [r["pot"][v] * u] for v in range(r["n"])},
                elements={"%s.%d" % (ty[e["ty"]], k): [e["flux"] / 20 * g * u] for k, e in enumerate(r["els"])})


def laws(case, soln, tol, g, u):
    """What of the element laws and the balance a result breaks"""
    v = {int(k): core.num(x[0]) for k, x in soln["nodes"].items()}
    fixed = {c[0]: c[1][0] for c in case["nodes"] if c[2]}
    net = {i: 0.0 for i in range(case["n"])}
    if sorted(v) != sorted(net) or len(soln["elements"]) != len(case["els"]):
        return "the nodes or elements of the result are not those of the model"
    size = u + max(abs(x) for x in v.values())
    for i in fixed:
        if not core.close(v[i], fixed[i], 1e-9, 1e-9):
            return "fixed node %d" % i
    for k, (ty, i, o, gain) in enumerate(case["els"]):
        if "%s.%d" % (ty, k) not in soln["elements"]:
            return "element %d is missing" % k
        f = core.num(soln["elements"]["%s.%d" % (ty, k)][0])
        net[o] += f
        net[i] -= f
        if ty in ("voltage_source", "temperature_delta"):
            good = abs(v[o] - v[i] - gain[0]) < tol * size
        elif ty in ("current_source", "heat_flux"):
            good = abs(f - gain[0]) < tol * g * u
        else:
            c = 1 / gain[0] if ty == "resistor" else gain[1] / gain[0] if len(gain) == 2 else gain[0]
            good = abs(f - c * (v[i] - v[o])) < tol * size * g
        if not good:
            return "law of element %d (%s)" % (k, ty)
    for i in net:
        if i not in fixed and not abs(net[i]) < tol * size * g:
            return "balance at node %d" % i


def compare(ctx, r, case, g, u, res):
    if core.bad(res):
        ctx.violation("study: %s" % core.bad(res), case, r["outcome"], res)
        return
    if res.get("skipped"):
        return
    if r["outcome"] == "err":
        if "ok" in res:
            return ctx.violation("a study without solution succeeds", case, "an error", res)
    elif r["outcome"] == "free":
        if "ok" in res:
            w = laws(case, res["ok"], 1e-3, g, u)
            if w:
                return ctx.violation("undetermined study: %s" % w, case, "an error or a solution", res)
    else:
        want = expected(r, g, u)
        if "err" in res:
            return ctx.violation("a determined study fails", case, want, res)
        got = res["ok"]
        for part in ("nodes", "elements"):
            if set(got[part]) != set(want[part]):
                return ctx.violation("%s of the result" % part, case, want[part], got[part])
            for k, x in want[part].items():
                y = [core.num(y) for y in got[part][k]]
                if len(y) != 1 or not core.close(y[0], x[0], 2e-3, 1e-4 * u * (g if part == "elements" else 1)):
                    return ctx.violation("%s %s" % (part[:-1], k), case, want, got)
    ctx.ok()


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Network", cfg="NetworkAll", consts=dict(MaxE="3" if ctx.quick else "4")),
            ctx.go("Network", sim=(500 if ctx.quick else 10000, 60), parallel=8)]
    recs = [r for f in runs for r in f.result()]
    recs += ctx.tlc("Network", consts=dict(MaxN="14", MaxExtra="14"), sim=(100 if ctx.quick else 2000, 80), parallel=8)
    cases = [concretise(rng, r) for r in recs]
    for r, (c, g, u), res in zip(recs, cases, ctx.run([c[0] for c in cases])):
        compare(ctx, r, c, g, u, res)
        if len(c["els"]) > 5:
            ctx.sample([r["outcome"], [e[:3] for e in c["els"]]])
    ctx.extra["outcomes"] = {o: sum(r["outcome"] == o for r in recs) for o in ("ok", "err", "free")}
    ctx.assumptions.append("conductances are positive, between 1/20 and 20 in units of 1/1024, 1 or 128; resistances are not 0")
