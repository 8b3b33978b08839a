"""C01: well-formed expressions evaluate to their conventional value.
C02 shares the machinery with the malformed token sequences."""
import math, random
import core, exprlib


def cases(ctx, want_ok):
    q = ctx.quick
    small = [ctx.go("Expr", consts=dict(MaxLen="5" if q else "6"))]
    if want_ok:
        # longer sequences of operators and parentheses only, and of calls only
        small += [ctx.go("Expr", cfg="ExprOps", consts=dict(MaxLen="8" if q else "9")),
                  ctx.go("Expr", cfg="ExprCalls", consts=dict(MaxLen="8" if q else "10"))]
    deep = [ctx.go("Expr", cfg="ExprDeep", sim=(60 if q else 400, 90), parallel=8, consts=dict(MaxLen="24")),
            ctx.go("Expr", cfg="ExprDeep", sim=(40 if q else 300, 40), parallel=4, consts=dict(MaxLen="9"))]
    lexed = [ctx.go("Lexer", consts=dict(MaxLen="5" if q else "6")),
             ctx.go("Lexer", cfg="LexerNum", consts=dict(MaxLen="5" if q else "6"))]
    small, deep, lexed = [[r for f in g for r in f.result()] for g in (small, deep, lexed)]
    rng = random.Random(ctx.seed)
    out = []
    seen = set()
    for rec, reps in [(r, 1) for r in small] + [(r, 3) for r in deep]:
        if rec["ok"] != want_ok:
            continue
        key = tuple(rec["toks"])
        if key in seen:
            continue
        seen.add(key)
        for rep in range(reps):
            out.append((rec,) + exprlib.spell(rng, rec, table=False))
        if rec["ok"] and tuple(rec["val"]) != (1, 0):
            out.append((rec,) + exprlib.spell(rng, rec, table=True) + (True,))
    return out + texts(lexed, want_ok)


def texts(recs, want_ok):
    """Texts character by character: numbers, names and what is neither"""
    out = []
    for r in recs:
        if r["said"] and r["ok"] == want_ok:
            uses_x = any(op == "v" for op, _ in r["prog"]) or "x" in r["src"]
            values = [n / d if d else 3.0 if r["src"] else None for n, d in r["vals"]]
            for op, p in r["prog"]:
                if op in ("k", "v"):
                    values[p - 1] = math.e if op == "k" else 3.0
            rec = dict(toks=[], ok=r["ok"], prog=r["prog"], val=[1, 0])
            case = dict(kind="expr", src=r["src"], vals={"x": "3.0"} if uses_x else {}, ctx={}, plain=not uses_x)
            out.append((rec, case, [], values))
    return out


def directed(rng):
    """Long shapes of the same grammar: deep nesting, long chains, signs"""
    for n in (10, 40, 120):
        yield ["("] * n + ["n"] + [")"] * n, [["n", n + 1]]
        t, p = [], []
        for i in range(n):
            t += ["f1", "("]
        t += ["v"] + [")"] * n
        yield t, [["v", 2 * n + 1]] + [["f1", 2 * i + 1] for i in reversed(range(n))]
        for op in "+-*/":
            t, p = ["n"], [["n", 1]]
            for i in range(n):
                t += [op, "n"]
                p += [["n", len(t)], [op, len(t) - 1]]
            yield t, p
        yield ["-"] * n + ["n"], [["n", n + 1]] + [["neg", i + 1] for i in reversed(range(n))]
    for n in (3, 5):
        yield ["n"] + ["^", "n"] * n, [["n", 2 * i + 1] for i in range(n + 1)] + [["^", 2 * i] for i in range(n, 0, -1)]


def run(ctx):
    cs = cases(ctx, True)
    rng = random.Random(ctx.seed + 7)
    for toks, prog in directed(rng):
        rec = dict(toks=toks, ok=True, prog=prog, val=[1, 0])
        cs.append((rec,) + exprlib.spell(rng, rec))
    results = ctx.run([c[1] for c in cs])
    compared = fragile = 0
    for c, res in zip(cs, results):
        rec, case, words, values = c[:4]
        table = len(c) > 4
        exp = exprlib.expected(rec["prog"], words, values)
        if table:
            # the specification's own exact value
            n, d = rec["val"]
            spec = ("err",) if d == 0 else ("ok", n / d)
            if exp[0] != "any" and (exp[0] != spec[0] or (exp[0] == "ok" and not core.close(exp[1], spec[1], 1e-9, 1e-12))):
                raise core.ToolError("specification and its IEEE reading disagree on %r: %r %r" % (case["src"], spec, exp))
            exp = spec
        if core.bad(res):
            ctx.violation("evaluating %r: %s" % (case["src"], core.bad(res)), case, exp, res)
            continue
        if res.get("skipped"):
            continue
        if exp[0] == "any":
            fragile += 1
        for mode, r in res.items():
            if mode == "after":
                if r != {"ok": 1.0}:
                    ctx.violation("a later evaluation of 7 - 2 * 3 is affected by %r" % case["src"], case, 1.0, r)
                continue
            if "panic" in r or "differs" in r:
                ctx.violation("%s evaluation of %r" % (mode, case["src"]), case, exp, r)
            elif exp[0] == "err" and "err" not in r:
                ctx.violation("%s evaluation of %r divides by zero" % (mode, case["src"]), case, "error", r)
            elif exp[0] == "ok":
                if "ok" not in r or not core.close(core.num(r["ok"]), exp[1], 1e-7, 1e-10):
                    ctx.violation("%s evaluation of %r" % (mode, case["src"]), case, exp, r)
            compared += 1
        ctx.ok()
        if len(words) > 9:
            ctx.sample(dict(src=case["src"], expected=exp, postfix=rec["prog"]))
    ctx.extra.update(evaluations=compared, rounding_decides=fragile)
    ctx.assumptions += ["IEEE double arithmetic and the platform's elementary functions are the reading of the postfix programs",
                        "expressions whose value rounding decides are only required not to panic"]
