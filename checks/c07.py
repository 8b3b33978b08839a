"""C07: what a system builder accepts."""
import random
import core, eqgen, exprlib


def concretise(rng, rec):
    used = set()
    for s in rec["steps"]:
        used |= set(s["eq"]["names"])
        for e in s["list"]:
            used |= set(e["names"])
    used = sorted(used)
    pool = rng.sample(exprlib.NAMES, len(used) + 4)
    names = dict(zip(used, pool))
    known = pool[len(used):]
    before = {}

    def spell(e):
        """a text for the equation; now and then the very text of an earlier one"""
        texts = before.setdefault((tuple(sorted(e["names"])), e["valid"]), [])
        if not texts or rng.random() < 0.7:
            texts.append(eqgen.equation(rng, [names[n] for n in e["names"]], known, e["valid"]))
        return rng.choice(texts)
    case = dict(kind="builder", steps=[], ctx=dict(consts={known[0]: 4, known[1]: -0.5}, vars={known[2]: 2, known[3]: [1, 0, 3]}))
    for s in rec["steps"]:
        t = dict(op=s["op"])
        if s["op"] in ("new", "add"):
            t["text"] = spell(s["eq"])
        elif s["op"] == "list":
            t["list"] = [spell(e) for e in s["list"]]
        else:
            t["probe"] = list(names.values()) + known + ["pi", "sin", "nosuchname"]
        case["steps"].append(t)
    return case, names


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Builder", consts=dict(MaxSteps="4" if ctx.quick else "5")),
            ctx.go("Builder", cfg="BuilderDeep", sim=(150 if ctx.quick else 2500, 60), parallel=8)]
    recs = [r for f in runs for r in f.result()]
    cs = [concretise(rng, r) for r in recs for _ in range(2)]
    recs = [r for r in recs for _ in range(2)]
    steps = 0
    for rec, (case, names), res in zip(recs, cs, ctx.run([c[0] for c in cs])):
        if core.bad(res):
            ctx.violation("history of a builder: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        forked = None
        for i, (s, r) in enumerate(zip(rec["steps"], res["steps"])):
            steps += 1
            t = case["steps"][i]
            what = "step %d: %s %s" % (i + 1, s["op"], t.get("text", t.get("list", "")))
            out, state = r["out"], r["state"]
            unk = sorted(names[n] for n in s["unk"])
            if s["op"] == "build":
                if forked is not None:
                    unk = forked
                if forked is not None:
                    s = dict(s, full=forked_full)
                if s["full"] != ("ok" in out):
                    ctx.violation(what, case, "a system" if s["full"] else "no system", out)
                    break
                if s["full"] and sorted(out["ok"]) != sorted(unk):
                    ctx.violation(what + ": unknowns of the system", case, unk, out)
                    break
                forked = None
                continue
            if s["op"] == "list":
                allowed = [(o[0], sorted(names[n] for n in o[1]), o[2]) for o in s["outs"]]
                got = ("ok" if "ok" in out else "err", state["vars"], state["full"])
                if got not in allowed or ("ok" in out and out["ok"] != state["full"]):
                    ctx.violation(what, case, dict(allowed=allowed), [out, state])
                    break
                if len(allowed) > 1:
                    forked, forked_full = state["vars"], state["full"]
                continue
            got = out.get("ok", "err")
            if got not in s["outs"]:
                ctx.violation(what, case, s["outs"], out)
                break
            if s["op"] == "new" and s["outs"] == ["err"]:
                continue
            if state != dict(vars=unk, full=s["full"]):
                ctx.violation(what + ": unknowns", case, dict(vars=unk, full=s["full"]), state)
                break
        else:
            ctx.ok()
            if len(rec["steps"]) > 15:
                ctx.sample(dict(case=case))
    ctx.extra.update(steps_compared=steps)
    ctx.assumptions += ["a system is not started from an equation without unknowns"]
