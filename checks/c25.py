"""C25: the C++ classes for contexts, builders and systems."""
import json, random
import core, c17


def lines(case):
    out = []
    for c in case["calls"]:
        op = c["op"]
        x = [c["val"]] if op == "add_const" else c["dom"] if "specify" in op else [c["margin"]] if op == "solve_system" else [1e-7] if op == "late solve" else []
        text = c.get("base") if op == "new_ctx" else c.get("name") if op in ("add_const", "specify") else "w" if op == "late specify" else c.get("text", "w = 3" if op == "late constrain" else "")
        out.append(["call", op, str(c["o"]), str(c["to"]), text or ""] + [str(v) for v in x])
    return out


def follow(h, case, names, unit, res):
    live = {}
    j = -1
    for i, c in enumerate(case["calls"]):
        what = "call %d (%s)" % (i + 1, json.dumps(c))
        if i >= len(res["steps"]):
            return what + ": %s" % (res.get("dead") or res.get("crash") or "no answer"), None, None
        g = res["steps"][i]
        if c["op"] == "debug":
            s = dict(op="debug", null=False, code=[], soln=[])
        else:
            j += 1
            s = h[j]
        op, o, to = s["op"], c["o"], c["to"]
        # an error is told by an exception; a status otherwise
        throws = s["null"] or (op == "constrain" and s["code"] == [-1])
        either = op == "constrain" and sorted(s["code"]) == [-1, 0]
        if ("throws" in g) != throws and not either:
            return what, "an exception" if throws else "none", g.get("throws", "none")
        if "throws" in g:
            if len(g["throws"].split()) < 4:
                return what + ": what the exception says", "what failed", g["throws"]
        else:
            if s["code"] and g["code"] not in s["code"]:
                return what, s["code"], g["code"]
            if op == "solve_system":
                want = {names[x["n"]]: unit * x["num"] / x["den"] for x in s["soln"]}
                try:
                    got = c17.parse_plain(g["out"])
                except ValueError:
                    return what + ": form of the solution text", want, g["out"]
                if set(got) != set(want) or any(not core.close(got[k], want[k], 1e-4, 1e-4 * unit) for k in want):
                    return what + ": solution", want, g["out"]
        # what the library holds
        if op == "new_ctx":
            live["ctx", to] = "context"
        elif op == "new_builder" and not s["null"]:
            live["bld", to] = "builder"
        elif op == "build":
            del live["bld", o]
            if not s["null"]:
                live["sys", to] = "system"
        elif op == "solve_system":
            del live["sys", o]
        elif op.startswith("free"):
            live.pop(({"free_ctx": "ctx", "free_builder": "bld", "free_system": "sys"}[op], o), None)
        elif op.startswith("move"):
            k = {"move_ctx": "ctx", "move_builder": "bld", "move_system": "sys"}[op]
            live[k, to] = live.pop((k, o))
        want = {}
        for k in live.values():
            want[k] = want.get(k, 0) + 1
        if g["live"] != want:
            return what + ": what the library holds", want, g["live"]
    if "left" not in res:
        return "at the end: %s" % (res.get("dead") or res.get("crash")), None, None
    if res["left"]:
        return "left when every object is gone", 0, res["left"]
    return None


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("CppSolver", sim=(60 if ctx.quick else 1200, 500), parallel=8),
            ctx.go("CppSolver", consts=dict(UseDom="FALSE"), sim=(40 if ctx.quick else 400, 500), parallel=4)]
    if not ctx.quick:
        runs.append(ctx.go("CppSolver", consts=dict(Slots="{1, 2, 3, 4}", MaxOps="200"), sim=(100, 1500), parallel=8))
    exe, err = core.build_cpp(ctx, "solver", "geqslib")
    recs = [r for f in runs for r in f.result()]
    if err:
        return ctx.violation("geqslib.h does not compile", None, None, err)
    n = 0
    cs = [c17.concretise(rng, h) for h in recs]
    cases = [lines(c[0]) for c in cs]
    for h, (case, names, unit), ls, res in zip(recs, cs, cases, core.run_lines(ctx, exe, cases, timeout=400)):
        if res.get("skipped"):
            continue
        w = follow(h, case, names, unit, res)
        n += len(h)
        if w:
            ctx.violation(w[0], ls, w[1], w[2])
            continue
        ctx.ok()
        ctx.sample([s["op"] for s in h])
    ctx.extra["calls"] = n
    ctx.assumptions.append("an object that was moved from is only let go of")
