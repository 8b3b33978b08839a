"""C02: everything outside the grammar of spec/Expr.tla is an error."""
import random
import core, exprlib, c01


def run(ctx):
    cs = c01.cases(ctx, False)
    # empty text and words alone
    rng = random.Random(ctx.seed + 3)
    for w in ["", " ", "    "]:
        cs.append((dict(toks=[]), dict(kind="expr", src=w, vals={}, ctx={}, plain=True), [], []))
    for w in exprlib.BADWORDS:
        for tmpl in ["%s", "2 * %s", "%s + 1", "sin(%s)", "log(2, %s)", "-%s", "(%s)", "1 %s", "x %s", "%s 2"]:
            cs.append((dict(toks=["u"]), dict(kind="expr", src=tmpl % w, vals={"x": "1.0"}, ctx={}, plain=False), [], []))
    for n in (20, 150):
        for src in ["(" * n + "1" + ")" * (n - 1), "(" * (n - 1) + "1" + ")" * n, "1 +" * n, "1" + " 1" * n, "sin " * n + "1", "sin(" * n + ")" * n,
                    "1" + "*" * n + "1", "," * n, "-" * n, "log(" + "1," * n + "1)"]:
            cs.append((dict(toks=["long"]), dict(kind="expr", src=src, vals={}, ctx={}, plain=True), [], []))
    results = ctx.run([c[1] for c in cs])
    n = 0
    for (rec, case, words, values), res in zip(cs, results):
        if core.bad(res):
            ctx.violation("evaluating the malformed %r: %s" % (case["src"], core.bad(res)), case, "error", res)
            continue
        if res.get("skipped"):
            continue
        for mode, r in res.items():
            if mode == "after":
                if r != {"ok": 1.0}:
                    ctx.violation("a later evaluation of 7 - 2 * 3 is affected by %r" % case["src"], case, 1.0, r)
            elif "err" not in r:
                ctx.violation("%s evaluation of the malformed %r" % (mode, case["src"]), case, "error", r)
            n += 1
        ctx.ok()
        if len(words) > 6:
            ctx.sample(case["src"])
    ctx.extra.update(evaluations=n)
