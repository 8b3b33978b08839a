"""C08: solving a built system."""
import random
import core, exprlib


# (equations, domains, solution)
FIXED = [
    (["x + y = 8", "x - y = 2"], dict(x=[0.0, 5.0], y=[0.0, 9.0]), dict(x=5.0, y=3.0)),
    (["2*x = 10"], dict(x=[0.0, 5.0]), dict(x=5.0)),
]


def spell_rows(rng, rec, names, known, scaled=None):
    """texts of the rows; known: context names -> value, used for coefficients;
    scaled: spells the constant terms"""
    def number(v):
        c = [k for k, x in known.items() if x == v]
        return rng.choice(c) if c and rng.random() < 0.5 else exprlib.spell_number(rng, float(v))

    def term(c, vs):
        """words of c * product of vs, c > 0"""
        f = [scaled(c)] if scaled and not vs else [number(c)] if c != 1 or not vs or rng.random() < 0.1 else []
        f += [names[v] for v in vs]
        if len(vs) == 2 and vs[0] == vs[1] and rng.random() < 0.7:
            f = f[:-2] + [names[vs[0]] + (" ^ 2" if rng.random() < 0.5 else "^2")]
        elif rng.random() < 0.3:
            rng.shuffle(f)
        w = [x for y in f for x in ("*", y)][1:]
        return ["("] + w + [")"] if rng.random() < 0.1 else w

    rows = []
    for i in range(rec["n"]):
        ts = [(rec["mat"][i][j], [j]) for j in range(len(rec["mat"][i])) if rec["mat"][i][j]] if rec["kind"] == "lin" \
            else [(t["c"], [v - 1 for v in t["vars"]]) for t in rec["terms"][i]]
        ts.append((-rec["rhs"][i], []))
        rng.shuffle(ts)
        sides = ["", ""]
        for c, vs in ts:
            if c == 0:
                continue
            s = rng.choice([0, 0, 0, 1])
            if s == 1:
                c = -c
            w = term(abs(c), vs)
            sides[s] += (" - " if c < 0 else "" if sides[s] == "" else " + ") + (rng.choice(["", " "])).join(w)
        k = rng.random()
        sides = [x or "0" for x in sides]
        if k < 0.1:
            sides = ["(%s)*2" % sides[0], "2*(%s)" % sides[1]]
        elif k < 0.2 and sides[1] != "0":
            sides = ["%s - (%s)" % tuple(sides), "0"]
        if rng.random() < 0.4:
            sides.reverse()
        rows.append(rng.choice([" = ", "=", " =", "= "]).join(sides))
    return rows


def residual(rec, i, x):
    if rec["kind"] == "lin":
        return sum(a * v for a, v in zip(rec["mat"][i], x)) - rec["rhs"][i]
    r = -rec["rhs"][i]
    for t in rec["terms"][i]:
        p = t["c"]
        for v in t["vars"]:
            p *= x[v - 1]
        r += p
    return r


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Solve", sim=(680 if ctx.quick else 6000, 150), parallel=8),
            ctx.go("Solve", consts=dict(MaxN="18"), sim=(50 if ctx.quick else 500, 300), parallel=4)]
    recs = [r for f in runs for r in f.result()]
    ctx.extra["sizes"] = {str(k): sum(r["n"] == k for r in recs) for k in sorted({r["n"] for r in recs})}
    cases = []
    solved_poly = 0
    for r in recs:
        for order in (rng.sample(r["orders"], min(2, len(r["orders"]))) if ctx.quick else r["orders"]):
            for contradict in ([False, True] if order in r["spare"] and r["kind"] == "lin" and rng.random() < 0.3 else [False]):
                pool = rng.sample(exprlib.NAMES, r["n"] + 6)
                names, kn = pool[:r["n"]], pool[r["n"]:]
                known = {kn[0]: 2.0, kn[1]: 3.0, kn[2]: 5.0, kn[3]: 7.0, kn[4]: -1.0}
                consts = dict(list(known.items())[:2])
                vars_ = {k: [v, "-inf", "inf"] for k, v in list(known.items())[2:4]}
                vars_[kn[4]] = [-1.0, -1.0, 0.0]
                rows = spell_rows(rng, r, names, known)
                eqs = [rows[i - 1] for i in order]
                if contradict:
                    a, b = rows[order[0] - 1].split("=")
                    eqs[-1] = "%s + %d = %s" % (b, rng.choice([1, 3, 50]), a)
                specs = []
                for s in r["specs"]:
                    name = names[s["j"] - 1] if s["j"] else rng.choice(kn + ["pi", "nosuchname", "sin", names[0] + "q"])
                    g = s["guess"] + (rng.uniform(-0.05, 0.05) if r["kind"] == "poly" else 0)
                    specs.append([name, g] + (s["dom"] or ["-inf", "inf"]))
                margin = rng.choice([1e-3, 1e-6, 1e-8])
                case = dict(kind="system", ctx=dict(consts=consts, vars=vars_), eqs=eqs, specs=specs, margin=margin,
                            limit=rng.choice([30, 60, 200]))
                cases.append((case, r, names, contradict))
                if rng.random() < 0.03:
                    cases.append((dict(case, margin=rng.choice([0, -margin])), r, names, True))
                    cases.append((dict(case, limit=0), r, names, True))
    for (case, r, names, contradict), res in zip(cases, ctx.run([c[0] for c in cases])):
        if core.bad(res):
            ctx.violation("solving a system: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        if "build" in res:
            ctx.violation("the builder refuses the equations", case, "a system", res)
            continue
        want = [bool(s["j"]) for s in r["specs"]]
        if res["specs"] != want:
            ctx.violation("specifying variables", case, want, res["specs"])
            continue
        out = res["out"]
        must_fail = contradict or not r["ok"]
        if "err" in out:
            if not must_fail and r["kind"] != "poly":
                ctx.violation("a regular linear system is not solved" if r["kind"] == "lin" else "an equation is not solved from a guess beyond its roots", case, dict(zip(names, r["sol"])), out)
                continue
            ctx.ok()
            continue
        if must_fail:
            ctx.violation("a system without a solution in the domains is reported as solved", case, "error", out)
            continue
        if set(out["ok"]) != set(names):
            ctx.violation("other names than the unknowns", case, names, out)
            continue
        x = [core.num(out["ok"][n]) for n in names]
        m = case["margin"]
        worst = max(abs(residual(r, i, x)) for i in range(r["n"]))
        if not worst <= 3 * m + 1e-9:
            ctx.violation("the values do not satisfy the equations (residual %g)" % worst, case, dict(zip(names, r["sol"])), out)
            continue
        if r["kind"] != "poly" and any(abs(a - b) > (3 if r["kind"] == "lin" else 20) * m + 1e-8 for a, b in zip(x, r["sol"])):
            ctx.violation("not the solution", case, dict(zip(names, r["sol"])), out)
            continue
        if any(d and not d[0] <= v <= d[1] for d, v in zip(r["dom"], x)):
            ctx.violation("a value outside its domain", case, r["dom"], out)
            continue
        solved_poly += r["kind"] == "poly"
        ctx.ok()
        if r["n"] > 3:
            ctx.sample(dict(case=case, solution=r["sol"]))
    probes = [dict(kind="system", ctx=dict(consts={}, vars={}), eqs=eqs, specs=[[k, 1.0] + d for k, d in doms.items()], margin=1e-6, limit=100)
              for eqs, doms, _ in FIXED]
    for (_, _, want), case, res in zip(FIXED, probes, ctx.run(probes)):
        if core.bad(res) or "out" not in res:
            ctx.violation("solving a system", case, want, res)
        elif "err" in res["out"]:
            ctx.violation("a solution on the upper bound of a domain is not found", case, want, res["out"])
        elif any(not core.close(core.num(res["out"]["ok"][k]), v, 1e-5, 1e-5) for k, v in want.items()):
            ctx.violation("not the solution", case, want, res["out"])
    ctx.extra.update(polynomial_systems_solved=solved_poly)
    if solved_poly == 0:
        raise core.ToolError("no polynomial system was solved")
    ctx.assumptions += ["solutions of linear systems are integers, with unimodular matrices of up to 18 unknowns",
                        "for polynomial systems an error is accepted (the property promises success only for linear ones)"]
