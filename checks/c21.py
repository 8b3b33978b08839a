"""C21: the procedure reported with a solution. Procedures recorded from the
real solver are checked by TLC against spec/Procedure.tla."""
import json, random, re
import core, c10

BUILTIN = {"pi", "e"}


def words(t):
    return re.sub(r"\s+", " ", t).strip()


def equations(entry, ids):
    """the equations of an entry, in order, whatever the layout of the entry"""
    out = []
    for line in entry.split("\n"):
        line = line.strip().lstrip("[").rstrip("]").strip().rstrip(",")
        for t in (line, re.sub(r"^[A-Za-z]+:\s*", "", line)):
            try:
                t = json.loads(t) if t.startswith('"') else t
            except ValueError:
                pass
            if words(str(t)) in ids:
                out.append(ids[words(t)])
                break
    if not out:       # all on one line
        found = [(m.start(), i) for t, i in ids.items() for m in re.finditer(re.escape(json.dumps(t)), words(entry))]
        out = [i for _, i in sorted(found)]
    return out


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Program", sim=(150 if ctx.quick else 1500, 200), parallel=6),
            # many steps, large steps
            ctx.go("Program", consts=dict(MinBlocks="24", MaxBlocks="30", MaxBlock="1", Fault='"none"'), sim=(4 if ctx.quick else 20, 300), parallel=2),
            ctx.go("Program", consts=dict(MaxBlocks="2", MaxBlock="9", Fault='"none"'), sim=(10 if ctx.quick else 40, 300), parallel=2)]
    recs = [r for f in runs for r in f.result()]
    cases = []
    for r in recs:
        if not r["rows"] or r["fails"] or r["fault"] in ("limit", "margin"):
            continue
        for mode in ["basic", "full"]:
            for _ in range(2 if ctx.quick else 4):
                cases.append((c10.build(rng, r, mode), r))
    runs, of = [], []
    for ((case, names, values, checks, declared, unit, rows), r), res in zip(cases, ctx.run([c[0][0] for c in cases])):
        if core.bad(res):
            ctx.violation("solving a program: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        if "err" in res:
            ctx.violation("a solvable program is not solved", case, None, res)
            continue
        ids, eqs = {}, []
        for row, x in zip(rows, r["rows"]):
            if words(row) not in ids:
                ids[words(row)] = len(eqs) + 1
                eqs.append([j + 1 for j, c in enumerate(x["c"]) if c])
        number = {n: j + 1 for j, n in enumerate(names)}
        steps = []
        for entry in res["log"]:
            es = equations(entry, ids)
            named = re.findall(r'Var: "?([^\s"]+)', entry)
            steps.append(dict(eqs=es, var=number.get(named[0], -1) if named else 0))
        result = [number[k] for k in res["ok"] if k in number]
        runs.append(dict(rows=eqs, steps=steps, result=result))
        of.append((case, res["log"]))
    if not runs:
        return
    verdicts = ctx.tlc("Procedure", files={"runs.json": json.dumps(runs)})
    if len(verdicts) != len(runs):
        raise core.ToolError("%d verdicts on %d runs" % (len(verdicts), len(runs)))
    most = 0
    for v in verdicts:
        case, log = of[v["run"] - 1]
        if v["verdict"] == "accepted":
            ctx.ok()
            if len(log) > most:
                most = len(log)
                ctx.sample(dict(case=case, procedure=log))
        else:
            ctx.violation("step %d of the procedure: %s" % (v["at"], v["verdict"]), case, None, log)
    ctx.extra.update(recorded_procedures=len(runs), longest_procedure=most)
    ctx.assumptions += ["the programs of C10; steps are told apart by the texts of their equations"]
