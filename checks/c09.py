"""C09: solving one equation for its single unknown."""
import math, random
import core, eqgen, exprlib

MONO = {
    "exp": [("e^{x}", math.exp), ("2^{x}", lambda x: 2 ** x), ("e^({x}+1)", lambda x: math.exp(x + 1))],
    "ln": [("ln({x})", math.log), ("log10({x})", math.log10), ("log(2,{x})", math.log2), ("3*ln( {x} )", lambda x: 3 * math.log(x))],
    "cube": [("{x}^3", lambda x: x ** 3), ("{x}*{x}*{x}", lambda x: x ** 3), ("{x}^ 3 + {x}", lambda x: x ** 3 + x)],
    "recip": [("1/{x}", lambda x: 1 / x), ("12 / {x}", lambda x: 12 / x), ("{x}^-1", lambda x: 1 / x)],
    "root": [("{x}^0.5", math.sqrt), ("{x}^(1/2)", math.sqrt), ("10*{x}^.5", lambda x: 10 * math.sqrt(x))],
    "sinh": [("sinh({x})", math.sinh), ("sinh({x}) - 1", lambda x: math.sinh(x) - 1), ("{x}^2", lambda x: x * x)],
}
NOROOT = ["{x}^2 + {c} = 0", "abs({x}) + {c} = 0", "e^{x} = -{c}", "cosh({x}) = 0 - {c}", "{x}^2 - 2*{x} + 1 = -{c}", "{x} = {x} + {c}", "0*{x} = {c}",
          "{c} = -({x}^4)", "sin({x}) = 1 + {c}", "1 + {c} = arctan({x})", "{c}/{x} = 0 * {x}", "{x} - {x} = {c}"]


# (equation, guess and domain, solution)
FIXED = [
    ("2*x = 10", [1.0, 0.0, 5.0], 5.0),
    ("x^2 = 25", [1.0, 0.0, 5.0], 5.0),
    ("x^2 = 16", [1.0, 0.0, 5.0], 4.0),
    ("x^2 = 16", [-1.0, -5.0, 0.0], -4.0),
    ("ln(x) = 0", [30.0, 0.5, 40.0], 1.0),
]


def spell(rng, s, x, knowns, values):
    """(text, function that must be zero) of a solve of the specification"""
    def number(v):
        c = [k for k in knowns if values[k] == v]
        return rng.choice(c) if c and rng.random() < 0.5 else exprlib.spell_number(rng, float(v))
    kind = s["kind"]
    if kind == "linear":
        ts = [(c, True) for c in s["coefs"]] + [(c, False) for c in s["consts"] if c]
        rng.shuffle(ts)
        sides = ["", ""]
        for c, hasx in ts:
            i = rng.choice([0, 0, 1])
            c = -c if i else c
            w = ([number(abs(c))] if abs(c) != 1 or not hasx or rng.random() < 0.1 else []) + ([x] if hasx else [])
            if rng.random() < 0.3:
                w.reverse()
            sides[i] += (" - " if c < 0 else " + " if sides[i] else "") + rng.choice(["*", " * "]).join(w)
        sides = [t or "0" for t in sides]
        if not any(h for _, h in ts):
            raise core.ToolError("no unknown")
        return rng.choice(["=", " = "]).join(sides), lambda v: sum(s["coefs"]) * v + sum(s["consts"])
    if kind == "poly":
        def f(v):
            return s["lead"] * math.prod(v - r for r in s["roots"])
        if s["form"] == "factored":
            parts = ["(%s %s %s)" % (x, "-" if r >= 0 else "+", number(abs(r))) for r in s["roots"]]
            rng.shuffle(parts)
            t = "*".join(([str(s["lead"])] if s["lead"] > 1 else []) + parts)
            t = ("-" if s["lead"] < 0 else "") + t
        else:
            ts = [(c, k) for k, c in enumerate(s["coefs"]) if c]
            rng.shuffle(ts)
            t = ""
            for c, k in ts:
                w = [number(abs(c))] if abs(c) != 1 or k == 0 else []
                w += ["%s^%d" % (x, k)] if k > 2 or (k == 2 and rng.random() < 0.7) else [x] * k
                t += (" - " if c < 0 else " + " if t else "") + "*".join(w)
        sides = [t, "0"] if rng.random() < 0.6 else [t + " + " + number(3), "6/2"]
        if rng.random() < 0.3:
            sides.reverse()
        return " = ".join(sides), f
    if kind == "mono":
        form, f = rng.choice(MONO[s["form"]])
        y = f(s["root"])
        sides = [form.format(x=x), rng.choice([exprlib.spell_number(rng, y) if y >= 0 else "0-" + exprlib.spell_number(rng, -y), form.format(x=exprlib.spell_number(rng, float(s["root"])))])]
        if rng.random() < 0.3:
            sides.reverse()
        return "=".join(sides), lambda v: f(v) - y
    c = number(s["consts"][0])
    if kind == "noroot":
        return NOROOT[s["bad"] % len(NOROOT)].format(x=x, c=c), None
    known = list(knowns)
    if kind == "nounknown":
        return eqgen.equation(rng, [], known), None
    if kind == "two":
        others = [n for n in exprlib.NAMES if n not in values and n != x]
        return eqgen.equation(rng, [x] + rng.sample(others, rng.choice([1, 1, 2, 3])), known), None
    return eqgen.equation(rng, [x], known, valid=False), None


def run(ctx):
    rng = random.Random(ctx.seed)
    recs = ctx.tlc("OneEq", consts=dict(Reach="5" if ctx.quick else "9"), sim=(500 if ctx.quick else 4000, 80), parallel=8)
    cases = []
    for r in recs:
        pool = rng.sample(exprlib.NAMES, 8)
        values = {pool[0]: 2.0, pool[1]: 3.0, pool[2]: 5.0, pool[3]: 4.0, pool[4]: 1.0}
        consts = {k: values[k] for k in pool[:3]}
        vars_ = {pool[3]: 4.0, pool[4]: [1.0, 0.0, 2.0]}
        solves, info = [], []
        for s in r["solves"]:
            x = rng.choice(pool[5:])
            margin = rng.choice([1e-3, 1e-5, 1e-7])
            bare = not s["dom"] and (s["kind"] in ("linear", "noroot", "two", "nounknown", "malformed")) and rng.random() < 0.25
            text, fun = spell(rng, s, x, [] if bare else list(values), values)
            limit = rng.choice([60, 100, 200])
            ok = s["ok"]
            if rng.random() < 0.03:
                margin, limit, ok = rng.choice([(0.0, 50), (-1e-3, 50), (margin, 0)]) + (False,)
            solves.append(dict(text=text, margin=margin, limit=limit) | ({} if bare else {"with": [s["guess"]] + (s["dom"] or ["-inf", "inf"])}))
            info.append((x, s, ok, fun, margin))
        cases.append((dict(kind="one", ctx=dict(consts=consts, vars=vars_), solves=solves), info))
    n = 0
    for (case, info), res in zip(cases, ctx.run([c[0] for c in cases])):
        if core.bad(res):
            ctx.violation("solving an equation: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        for i, ((x, s, ok, fun, margin), r) in enumerate(zip(info, res["steps"])):
            out = r["out"]
            n += 1
            what = "solve %d of %s (%s, guess %s, domain %s)" % (i + 1, case["solves"][i]["text"], s["kind"], s["guess"], s["dom"])
            if not r["same"]:
                ctx.violation(what + " changes the caller's context", case, None, r["ctx"])
                break
            if ok != ("ok" in out) and not (s["free"] and ok):
                ctx.violation(what, case, [x, s["root"]] if ok else "error", out)
                break
            if "ok" not in out:
                continue
            name, v = out["ok"][0], core.num(out["ok"][1])
            tol = 20 * margin if s["kind"] == "poly" else 3 * margin + 1e-8
            near = min(abs(v - r) for r in s["roots"]) if s["free"] else abs(v - s["root"])
            if name != x or not near <= tol or not abs(fun(v)) <= margin * 1.05 + 1e-8:
                ctx.violation(what, case, [x, s["root"]], out)
                break
            if s["dom"] and not s["dom"][0] <= v <= s["dom"][1]:
                ctx.violation(what + ": value outside the domain", case, s["dom"], out)
                break
        else:
            ctx.ok()
            ctx.sample(dict(case=case))
    probes = [dict(kind="one", ctx=dict(consts={}, vars={}), solves=[dict(text=t, margin=1e-6, limit=100) | {"with": w}]) for t, w, _ in FIXED]
    for (_, _, want), case, res in zip(FIXED, probes, ctx.run(probes)):
        if core.bad(res):
            ctx.violation("solving an equation: %s" % core.bad(res), case, want, res)
            continue
        out = res["steps"][0]["out"]
        if "err" in out:
            ctx.violation("a root on the upper bound of the domain is not found", case, want, out)
        elif out["ok"][0] != "x" or not core.close(core.num(out["ok"][1]), want, 1e-5, 1e-5):
            ctx.violation("not the root", case, want, out)
    ctx.extra.update(solves_compared=n)
    ctx.assumptions += ["roots are integers; guesses lie on the side from which Newton's method converges without passing the root, strictly inside the domain; from a guess outside it a root may be missed"]
