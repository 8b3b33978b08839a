"""C10: solving a program of equations given in any order."""
import decimal, random
import core, c08, c09, eqgen, exprlib

FIXED = [
    ("leftover-inconsistent", "x = 1\nx = 2", None),
    ("redundant-coupled", "a + b = 3\n2*a + 2*b = 6\na - b = 1", {"a": 2.0, "b": 1.0}),
    ("redundant-coupled", "a + b = 3\na - b = 1\n2*a + 2*b = 6", {"a": 2.0, "b": 1.0}),
]


def plain(v):
    return format(decimal.Decimal(str(v)), "f")


def twins(rng, r, names, taken, rows, spell):
    """spell an equation and its copy for another unknown so that one text is the
    beginning or the end of the other"""
    for k, x in enumerate(r["rows"]):
        if not x["twin"]:
            continue
        i, v = x["twin"][0] - 1, x["twin"][1] - 1
        u = len(names) - 1
        c, kind = x["c"][u], rng.choice(["prefix", "suffix"])
        long = names[v]
        for _ in range(20):
            cut = rng.randrange(1, len(long)) if len(long) > 1 else 0
            short = (long[:cut] if kind == "prefix" else long[cut:]) if cut else "g"
            if short[0] not in "_0123456789" and short not in exprlib.RESERVED and short not in names + taken:
                break
        else:
            return
        if not cut:
            long = short + "_1" if kind == "prefix" else "k" + short
            if long in names + taken or long in exprlib.RESERVED:
                return
            names[v] = long
        names[u] = short
        ts = [(-x["c"][j], names[j]) for j in range(u) if x["c"][j]]
        for row, name in ((i, long), (k, short)):
            text = spell(x["rhs"])
            for d, n in ts:
                text += " %s %d*%s" % ("-" if d < 0 else "+", abs(d), n)
            rows[row] = text + " = %d*%s" % (c, name) if kind == "prefix" else "%s*%d = %s" % (name, c, text)
        return


def absorb(rng, r, names, rows, spell):
    """spell an equation so that it begins or ends with the text of another one"""
    eqs = [i for i, x in enumerate(r["rows"]) if x["kind"] == "eq"]
    pairs = [(i, k) for i in eqs for k in eqs if i != k and not r["rows"][k]["twin"] and not r["rows"][i]["twin"]
             and all(b for a, b in zip(r["rows"][i]["c"], r["rows"][k]["c"]) if a) and any(r["rows"][i]["c"])]
    if not pairs:
        return
    i, k = rng.choice(pairs)
    a, b = r["rows"][i], r["rows"][k]
    diff = [(y - x, names[j]) for j, (x, y) in enumerate(zip(a["c"], b["c"])) if y]
    ts = [(c, names[j]) for j, c in enumerate(a["c"]) if c]
    rng.shuffle(ts)
    rows[i] = rng.choice([" + ", "+"]).join(rng.choice(["%d*%s" if c != 1 else "%.0s%s", "%d*%s"]) % (c, n) for c, n in ts) + " = " + spell(a["rhs"])
    if rng.random() < 0.6:
        rows[k] = " + ".join("%d*%s" % d for d in diff) + " - (%s) + " % spell(b["rhs"] - a["rhs"]) + rows[i]
    else:
        rows[k] = rows[i] + " + (%s)" % spell(b["rhs"] - a["rhs"]) + "".join(" - (%d*%s)" % d for d in diff)


def build(rng, r, mode):
    nv = len(r["sol"])
    pool = rng.sample(exprlib.NAMES + ["u%d" % i for i in range(40)], nv + 4)
    names, kn = pool[:nv], pool[nv:]
    values = {kn[0]: 2.0, kn[1]: 3.0, kn[2]: 5.0} if mode == "basic" else {}
    margin, limit = rng.choice([1e-4, 1e-6, 1e-8]), rng.choice([20, 50, 100])
    # unit of the values: near the margin, in a program of linear equations
    unit = rng.choice([3, 40]) * decimal.Decimal(str(margin)) if r["fault"] == "none" and rng.random() < 0.3 else None
    scaled = (lambda v: exprlib.at(unit, v)) if unit else None
    mat = [x["c"] for x in r["rows"]]
    rhs = [x["rhs"] for x in r["rows"]]
    # equations and their copies use other spellings when the names have changed
    for _ in range(2):
        rows = c08.spell_rows(rng, dict(n=len(r["rows"]), kind="lin", mat=mat, rhs=rhs), names, values, scaled)
        twins(rng, r, names, kn, rows, scaled or str)
    if rng.random() < 0.5:
        absorb(rng, r, names, rows, scaled or str)
    # (a domain of the size of the margin leaves no room for a difference quotient)
    declared = {names[j]: [float(unit * d[0]), "-inf", "inf"] if unit else d for j, d in enumerate(r["decl"]) if d}
    checks = [[x["c"], x["rhs"]] for x in r["rows"]]
    for i, x in enumerate(r["rows"]):
        used = [names[j] for j, c in enumerate(x["c"]) if c]
        if x["kind"] == "bad":
            rows[i] = eqgen.broken_line(rng, used, list(values))
        elif x["kind"] == "none":
            rows[i] = rng.choice(["0*{x} = {c}", "{x} = {x} + {c}", "{x}^2 + 1 + {x}*0 = -{c}" if x["off"] > 0 else "0*{x} - {c} = 0"]).format(x=used[0], c=abs(x["off"]))
    curved = set()
    for j in r["alone"] if not unit else []:
        i = [k for k, x in enumerate(r["rows"]) if x["kind"] == "eq" and [q for q, c in enumerate(x["c"]) if c] == [j - 1]]
        s = r["sol"][j - 1]
        if len(i) == 1 and not r["decl"][j - 1] and s >= 2 and r["fault"] == "none" and rng.random() < 0.5:
            m = rng.choice(list(c09.MONO))
            up = m in ("exp", "cube", "sinh")
            curved.add(names[j - 1])
            declared[names[j - 1]] = [s + rng.choice([1, 2]) if up else max(1, s - rng.choice([1, 2]))] + rng.choice([["-inf", "inf"], [0, s + 5]])
            rows[i[0]] = c09.spell(rng, dict(kind="mono", form=m, root=s), names[j - 1], [], {})[0]
            checks[i[0]] = None
    if r["fault"] == "outside" and r["det"]:
        t = r["target"] - 1
        k = rng.choice([1, 2])
        lo, hi = r["sol"][t] + k, r["sol"][t] - k
        declared[names[t]] = rng.choice([[lo + 1, lo, lo + 4], [lo + 1, lo, lo + 4], [lo, lo, lo], [lo + 1, lo, 1000000], [hi - 1, hi - 4, hi], [hi, hi, hi], [hi - 1, -1000000, hi]])
    lines = rows[:]
    for _ in range(rng.choice([0, 0, 1, 3])):
        lines.append(rng.choice(["", "  ", rng.choice(rows)]))
    rng.shuffle(lines)
    if r["fault"] == "limit":
        limit = rng.choice([0, 1]) if len(r["det"]) and all(s not in (1, ) for s in r["sol"]) else 0
        declared = {}
    if r["fault"] == "margin":
        margin = rng.choice([0, -1e-3])
    case = dict(kind="program", mode=mode, margin=margin, limit=limit)
    if mode == "basic":
        consts, vs = dict(list(values.items())[:2]), dict(list(values.items())[2:])
        case.update(ctx=dict(consts=consts, vars=vs), declared=declared)
    else:
        for n, d in declared.items():
            if d[1] == "-inf":
                lines.append("guess %s for %s" % (plain(d[0]), n))
            else:
                lines += ["keep %s on [%s, %s]" % (n, plain(d[1]), plain(d[2]))]
                if n in curved or rng.random() < 0.6:
                    lines += ["guess %s for %s" % (plain(d[0]), n)]
        rng.shuffle(lines)
    case["text"] = "\n".join(lines)
    return case, names, values, checks, declared, float(unit or 1), rows


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Program", sim=(140 if ctx.quick else 1500, 200), parallel=8),
            # many small blocks, a few large ones
            ctx.go("Program", consts=dict(MinBlocks="24", MaxBlocks="30", MaxBlock="1"), sim=(8 if ctx.quick else 60, 300), parallel=2),
            ctx.go("Program", consts=dict(MaxBlocks="2", MaxBlock="10"), sim=(20 if ctx.quick else 80, 300), parallel=2),
            # large ones with a domain for every unknown, one of which the solution is outside of
            ctx.go("Program", consts=dict(MaxBlocks="2", MaxBlock="12", Fault='"outside"'), sim=(20 if ctx.quick else 100, 300), parallel=2)]
    recs = [r for f in runs for r in f.result()]
    cases = []
    for r in recs:
        if not r["rows"]:
            continue
        fails = r["fails"] and (r["fault"] not in ("limit", "margin") or bool(r["det"]))
        if r["fault"] in ("limit", "margin") and not r["det"]:
            continue
        for mode in ["basic", "full"]:
            for _ in range(2 if ctx.quick else 4):
                cases.append((build(rng, r, mode), r, fails))
    for (cc, r, fails), res in zip(cases, ctx.run([c[0][0] for c in cases])):
        case, names, values, checks, declared, unit, _ = cc
        if core.bad(res):
            ctx.violation("solving a program: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        want = {names[j - 1]: r["sol"][j - 1] * unit for j in r["det"]}
        if fails:
            if "ok" in res:
                ctx.violation("a program that fails (%s) is reported as solved" % r["fault"], case, "error", res)
            else:
                ctx.ok()
            continue
        if "err" in res:
            ctx.violation("a solvable program is not solved", case, want, res)
            continue
        fixed = dict(values, pi=3.141592653589793, e=2.718281828459045)
        got = {k: core.num(v) for k, v in res["ok"].items()}
        if set(got) != set(want) | set(fixed):
            ctx.violation("the result names other variables", case, sorted(want), sorted(got))
            continue
        m = case["margin"]
        wrong = [k for k in want if not abs(got[k] - want[k]) <= 100 * m + 1e-6] + [k for k in fixed if got[k] != fixed[k]]
        if wrong:
            ctx.violation("wrong values for %s" % wrong, case, want, got)
            continue
        out = [n for n, d in declared.items() if n in got and d[1] != "-inf" and not d[1] <= got[n] <= d[2]]
        if out:
            ctx.violation("values outside the domain: %s" % out, case, want, got)
            continue
        for i, row in enumerate(checks):
            if row and all(not c or names[j] in got for j, c in enumerate(row[0])):
                y = sum(c * got[names[j]] for j, c in enumerate(row[0]) if c) - row[1] * unit
                if not abs(y) <= 2.1 * m + 1e-8:
                    ctx.violation("an equation does not hold (residual %g)" % y, case, want, got)
                    break
        else:
            ctx.ok()
            if r["largest"] > 2:
                ctx.sample(dict(case=case, expected=want))
    for (key, text, want), res in zip(FIXED, ctx.run([dict(kind="program", mode="full", text=t, margin=1e-6, limit=50) for _, t, _ in FIXED])):
        if core.bad(res):
            ctx.violation(core.bad(res), text, None, res)
        elif want is None:
            if "ok" in res:
                ctx.violation("the inconsistent program %r is reported as solved" % text, text, "error", res, key=key)
        elif "err" in res or any(not core.close(core.num(res["ok"][k]), v, 1e-6, 1e-6) for k, v in want.items()):
            ctx.violation("the program %r is not solved" % text, text, want, res, key=key)
    ctx.assumptions += ["programs of up to four blocks of up to four linear equations with integer solutions, with monotone nonlinear equations in variables that stand alone",
                        "programs with redundant equations inside a coupled subsystem are left out (known findings)"]
