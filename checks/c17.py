"""C17: the solver C interfaces keep handles valid and mirror the library."""
import decimal, json, math, random, re
import core, c08, exprlib

PLAIN = ["x", "y", "z", "k", "w"]


def broken(rng, row):
    a, b = row.split("=", 1)
    return rng.choice([a + "= " + b + " *", a + "+ =" + b, a + "= (" + b, a + ") =" + b, a + "==" + b, a + "=" + b + " = 1", "(" + row + ")", a + "=" + b + " 3 3", a + "^ ="])


def at(scale, v):
    """the text of v times ten to the scale"""
    return format(decimal.Decimal(v).scaleb(scale), "f")


def spell(rng, e, names, base, scale):
    used = [n for n in PLAIN if e["c"].get(n)]
    row = c08.spell_rows(rng, dict(n=1, kind="lin", mat=[[e["c"][n] for n in used]], rhs=[e["rhs"]]), [names[n] for n in used], {}, (lambda v: at(scale, v)) if scale else None)[0]
    if not e["ok"]:
        return broken(rng, row)
    if base == "default" and rng.random() < 0.3:
        # at a small scale a term of size one would round the others away
        row += rng.choice([" + sin(0)", " - 0*pi", " + ln(1)"] + [" + cos(0) - 1"] * (scale >= 0))
    return row


def concretise(rng, h):
    names = dict(zip(PLAIN, rng.sample([n for n in exprlib.NAMES if not re.match(r"(if|else|end|const|keep|guess)", n)], len(PLAIN))))
    if all(s["base"] != "default" for s in h) and rng.random() < 0.7:
        names[rng.choice(PLAIN)] = "pi"
    # every value in another unit of measurement: the equations are homogeneous
    scale = rng.choice([0, 0, 0, 5] if any(s["dom"] or any(d for _, d in s["decls"]) for s in h) else [0, -6, -9])
    real = lambda v: float(at(scale, v))
    calls = []
    for s in h:
        c = dict(op=s["op"], o=s["o"], to=s["to"], t=s["t"], dom=[real(v) for v in s["dom"]] or [1, "-inf", "inf"])
        if s["op"] == "new_ctx":
            c["base"] = s["base"]
        if s["name"]:
            c["name"] = names[s["name"]]
        if s["op"] == "add_const":
            c["val"] = real(s["val"])
        if s["op"] in ("solve_equation", "solve_system", "basic_solve", "solve_text"):
            c["margin"] = max(1e-7 * 10.0 ** scale, 1e-17) if s["margin"] else -1e-3
        if s["eqs"]:
            lines = [spell(rng, e, names, s["base"], scale) for e in s["eqs"]]
            if s["op"] == "basic_solve":
                lines += [""] * rng.choice([0, 1])
                rng.shuffle(lines)
            if s["op"] == "solve_text":
                for n, d in s["decls"]:
                    if d:
                        lines += ["keep %s on [%s, %s]" % (names[n], at(scale, d[1]), at(scale, d[2])), "guess %s for %s" % (at(scale, d[0]), names[n])]
                rng.shuffle(lines)
            c["text"] = "\n".join(lines)
        calls.append(c)
        if s["op"] == "is_full" and rng.random() < 0.1:
            calls.append(dict(c, op="debug"))
    return dict(kind="solver_handles", calls=calls), names, 10.0 ** scale


def parse_plain(t):
    out = {}
    for line in t.split("\n"):
        k, v = line.split("=")
        if k in out:
            raise ValueError("twice")
        out[k] = float(v)
    return out


def parse_full(t):
    m = re.fullmatch(r'\{ log: ("(?:[^"\\]|\\.)*"), \nsoln: ("(?:[^"\\]|\\.)*") \}', t, re.S)
    if not m:
        raise ValueError("form")
    log = re.sub(r"\\'", "'", m.group(1))
    soln = json.loads(m.group(2))
    out = {}
    for item in soln.split(", "):
        if item:
            k, v = item.split(": ")
            out[k] = float(v)
    return json.loads(log), out


def follow(h, case, names, unit, res):
    calls = [c for c in case["calls"]]
    i = -1
    for j, c in enumerate(calls):
        if j >= len(res["steps"]):
            return "call %d" % j, "a call", "none"
        g = res["steps"][j]
        what = "call %d (%s)" % (j + 1, json.dumps(c))
        if g.get("missing"):
            return what, "a live object", "none"
        if not g["kept"]:
            return what + ": a text owned by the caller changed", None, None
        if c["op"] == "debug":
            continue
        i += 1
        s = h[i]
        if s["code"] and g["code"] not in s["code"]:
            return what, s["code"], g["code"]
        if s["op"] in ("new_ctx", "new_builder", "build", "new_decl", "solve_equation", "solve_system", "basic_solve", "solve_text"):
            if g["made"] == s["null"]:
                return what, "null" if s["null"] else [(names[x["n"]], unit * x["num"] / x["den"]) for x in s["soln"]] or "an object", g["text"] or g["made"]
        if g["text"] is not None:
            want = {names[x["n"]]: unit * x["num"] / x["den"] for x in s["soln"]}
            log = None
            try:
                if s["op"] in ("solve_equation", "solve_system"):
                    got = parse_plain(g["text"])
                else:
                    log, got = parse_full(g["text"])
            except ValueError:
                return what + ": form of the solution text", want, g["text"]
            if s["op"] in ("basic_solve", "solve_text") and s["base"] == "default":
                want.update(pi=math.pi, e=math.e)
            if set(got) != set(want) or any(not core.close(got[k], want[k], 1e-4, 1e-4 * unit) for k in want):
                return what + ": solution", want, g["text"]
            if g["lib"] is not None:
                if log != g["lib"]["log"] or any(not core.close(got[k], core.num(g["lib"]["soln"].get(k, "nan")), 1e-9, 1e-9 * unit) for k in got):
                    return what + ": differs from the library", g["lib"], g["text"]
    for k in ("double_frees", "written_after_free"):
        if res[k]:
            return "blocks %s over the whole sequence" % k.replace("_", " "), 0, res[k]
    return None


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("SolverHandles", sim=(60 if ctx.quick else 1500, 500), parallel=8),
            ctx.go("SolverHandles", consts=dict(UseDom="FALSE"), sim=(40 if ctx.quick else 500, 500), parallel=4)]
    recs = [r for f in runs for r in f.result()]
    if not ctx.quick:
        recs += ctx.tlc("SolverHandles", consts=dict(Slots="{1, 2, 3, 4}", MaxOps="200"), sim=(100, 1500), parallel=8)
    cs = [concretise(rng, h) for h in recs]
    n = 0
    for h, (case, names, unit), res in zip(recs, cs, ctx.run([c[0] for c in cs], case_timeout=60)):
        if core.bad(res):
            ctx.violation("calls on solver handles: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        n += len(h)
        w = follow(h, case, names, unit, res["first"]) or follow(h, case, names, unit, res["second"])
        if w:
            ctx.violation(w[0], case, w[1], w[2])
            continue
        if res["second"]["leaked"]:
            ctx.violation("blocks never freed although every object was", case, 0, res["second"]["leaked"])
            continue
        ctx.ok()
        ctx.sample([s["op"] for s in h])
    ctx.extra["calls"] = n
    ctx.assumptions.append("callers pass live objects and C texts; freed blocks are kept and filled with a pattern until the end of a sequence, so that reads and writes after a free show")
