"""C19: models are validated, saved and loaded."""
import json, random, struct
import core, c18

KIND = dict(resistor="R", conductor="R", convection_interface="R", wire="R", voltage_source="V", temperature_delta="V", pump="V")


def awkward(rng):
    while True:
        k = rng.randrange(4)
        x = rng.choice([0.1, 1 / 3, 2 / 3, 1e-7, 123456789.123, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e21, 4.35, 0.0]) if k == 0 else \
            struct.unpack("<d", rng.getrandbits(64).to_bytes(8, "little"))[0] if k == 1 else rng.random() * 10 ** rng.randrange(-8, 9) if k == 2 else rng.uniform(0, 100)
        if x == x and abs(x) != float("inf"):
            return abs(x)


class Glue:
    def __init__(self, rng, plain):
        self.rng, self.plain = rng, plain
        self.table = [0] + ([k / 4 for k in range(1, 41)] if plain else [awkward(rng) for _ in range(40)])

    def pot(self, ids):
        return [self.table[i] * (-1 if i % 2 else 1) for i in ids]

    def gain(self, ids):
        return [self.table[i] for i in ids]

    def meta(self, k):
        return None if k == 0 else {"m%d" % j: self.table[j] for j in range(1, k)}

    def model(self, m):
        return dict(model_type=m["study"], nodes=m["nodes"],
                    configuration={str(c["i"]): dict(potential=self.pot(c["pot"]), is_locked=c["lock"], metadata=self.meta(c["meta"])) for c in (m["conf"] or [])},
                    elements=[dict(element_type=e["ty"], input=e["i"], output=e["o"], gain=self.gain(e["gain"])) for e in (m["els"] or [])])

    def shuffled(self, d):
        items = list(d.items())
        self.rng.shuffle(items)
        return dict(items)

    def text(self, m, how):
        rng = self.rng
        d = self.model(m)
        d["configuration"] = self.shuffled({k: self.shuffled(v) for k, v in d["configuration"].items()})
        d["elements"] = [self.shuffled(e) for e in d["elements"]]
        # an absent metadata field stands for none
        for c in d["configuration"].values():
            if c["metadata"] is None and rng.random() < 0.3:
                del c["metadata"]
        if how == "field":
            d.pop(rng.choice(["model_type", "nodes", "configuration", "elements"]))
        if how == "type":
            d.update(rng.choice([dict(nodes="4"), dict(nodes=None), dict(elements={}), dict(elements=[1]), dict(model_type=3), dict(configuration=[1]),
                                 dict(configuration={"0": {"potential": 1.0, "is_locked": True, "metadata": None}}),
                                 dict(configuration={"0": {"potential": [1.0], "is_locked": 1, "metadata": None}}),
                                 dict(configuration={"0": {"potential": [None], "is_locked": True, "metadata": None}}),
                                 dict(elements=[{"element_type": "resistor", "input": 0, "output": 0, "gain": 1.0}]),
                                 dict(elements=[{"element_type": "resistor", "input": "0", "output": 0, "gain": [1.0]}]),
                                 dict(elements=[{"element_type": "resistor", "input": 0, "gain": [1.0]}])]))
        if how == "negative":
            d.update(rng.choice([dict(nodes=-1), dict(elements=[{"element_type": "resistor", "input": -1, "output": 0, "gain": [1.0]}])]))
        if how == "fraction":
            d.update(rng.choice([dict(nodes=2.5), dict(elements=[{"element_type": "resistor", "input": 0, "output": 0.5, "gain": [1.0]}])]))
        if how == "key":
            d["configuration"] = {rng.choice(["a", "-1", "1.5", ""]): {"potential": [1.0], "is_locked": True, "metadata": None}}
        if rng.random() < 0.3:
            d["$schema"] = "./neapolitan_model_schema.json"
        t = json.dumps(self.shuffled(d), indent=rng.choice([None, 2]))
        if how == "cut":
            t = t[:rng.randrange(0, len(t) - 1)]
        if how == "tail":
            t += rng.choice(["}", " x", "{}", ","])
        if how == "none":
            t = rng.choice(["", "null", "[]", "3", "model", "{}", "\"dc_circuit\"", "{\"nodes\": 3}"])
        return t

    def case(self, h):
        steps = []
        for s in h:
            if s["op"] == "conf":
                s = dict(op="conf", i=s["i"], pot=self.pot(s["pot"]), lock=s["lock"], meta=self.meta(s["meta"]))
            elif s["op"] == "elem":
                e = s["e"]
                s = dict(op="elem", type=e["ty"], **{"in": e["i"], "out": e["o"]}, gain=self.gain(e["gain"]))
            elif s["op"] == "load":
                s = dict(op="load", text=self.text(s["model"], s["how"]))
            elif s["op"] == "save":
                s = dict(op="save", into=self.rng.choice(["", "old text"]))
            elif s["op"] == "run":
                s = dict(op="run")
            steps.append(s)
        return dict(kind="model", steps=steps, margin=1e-6, limit=60)


def equal(a, b):
    """the same JSON value; numbers may differ in the last place (reading JSON rounds)"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return abs(a - b) <= 1e-15 * abs(a) + 5e-324
    return type(a) == type(b) and a == b


def same_text(text, want):
    try:
        return equal(json.loads(text), want)
    except ValueError:
        return False


TYPE = dict(R="resistor", V="voltage_source", C="current_source")


def broken(model, soln):
    """the laws a result breaks, one component of the potentials at a time"""
    dims = {len(x) for x in soln["nodes"].values()} | {len(x) for x in soln["elements"].values()}
    want = 2 if model["model_type"] == "plane" else 1
    if dims - {want}:
        return "number of components"
    for d in range(want):
        case = dict(n=model["nodes"], nodes=[[int(k), [c["potential"][d]], c["is_locked"]] for k, c in model["configuration"].items()], els=[])
        part = dict(nodes={k: [x[d]] for k, x in soln["nodes"].items()}, elements={})
        if model["nodes"] == 0:
            return None if not soln["nodes"] and not soln["elements"] else "empty model"
        for k, e in enumerate(model["elements"]):
            t = e["element_type"]
            if "%s.%d" % (t, k) not in soln["elements"]:
                return "element %d missing" % k
            g = e["gain"]
            if t == "inflow":
                g = [g[d]]
            if t in ("conductor", "convection_interface"):
                g = [g[0] / g[1] if len(g) == 2 else 1 / g[0]]
            kind = TYPE[KIND.get(t, "C")]
            case["els"].append([kind, e["input"], e["output"], g])
            part["elements"]["%s.%d" % (kind, k)] = [soln["elements"]["%s.%d" % (t, k)][d]]
        if len(soln["elements"]) != len(model["elements"]):
            return "elements"
        w = c18.laws(case, part, 1e-2, 1, 1)
        if w:
            return w


def same(a, b):
    if ("ok" in a) != ("ok" in b):
        return False
    if "err" in a:
        return True
    return all(set(a["ok"][p]) == set(b["ok"][p]) and all(len(x) == len(b["ok"][p][k]) and all(core.close(core.num(y), core.num(z), 1e-3, 1e-3) for y, z in zip(x, b["ok"][p][k]))
                                                         for k, x in a["ok"][p].items()) for p in ("nodes", "elements"))


def follow(h, glue, case, res):
    for k, s in enumerate(h):
        c = case["steps"][k]
        what = "call %d (%s)" % (k + 1, json.dumps(c)[:300])
        if k >= len(res["steps"]):
            return what, "a call", "none"
        g = res["steps"][k]
        if g.get("missing"):
            return what, "a builder", "none"
        if s["op"] == "run":
            m = glue.model(s["model"])
            for who in ("direct", "loaded"):
                r = g[who]
                if r is None:
                    continue
                if s["outcome"] == "err" and "ok" in r:
                    return what + " of an invalid model", "an error", r
                if glue.plain and s["outcome"] == "ok" and "err" in r:
                    return what + " of a determined model (%s)" % who, "a solution", r
                if glue.plain and "ok" in r:
                    w = broken(m, r["ok"])
                    if w:
                        return what + ": %s (%s)" % (w, who), json.dumps(m), r
            if glue.plain and s["outcome"] == "ok" and g["loaded"] is not None and not same(g["direct"], g["loaded"]):
                return what + ": the loaded model", g["direct"], g["loaded"]
            continue
        if g["ok"] != s["ok"]:
            return what, "accepted" if s["ok"] else "refused", g
        if s["op"] == "save":
            for f in ("unchanged", "loaders_agree") + (("equal",) if glue.plain else ()):
                if not g[f]:
                    return what + ": " + f, True, g
            if not same_text(g["text"], glue.model(s["model"])):
                return what + ": the text", glue.model(s["model"]), g["text"]
            if not same_text(g["again"], glue.model(s["model"])):
                return what + ": the loaded model", glue.model(s["model"]), g["again"]
        if s["op"] == "load":
            if not g["loaders_agree"]:
                return what + ": loaders_agree", True, g
            if s["ok"] and not same_text(g["again"], glue.model(s["model"])):
                return what + ": the loaded model", glue.model(s["model"]), g["again"]
            if glue.plain and s["ok"] and s["same"] and not g["equal"]:
                return what + ": the loaded model is another than the built one", True, g
        if s["op"] == "types" and g["refused"] != s["refused"]:
            return what, s["refused"], g["refused"]
    return None


def run(ctx):
    rng = random.Random(ctx.seed)
    recs = ctx.tlc("ModelBuild", sim=(400 if ctx.quick else 10000, 100), parallel=8)
    if not ctx.quick:
        recs += ctx.tlc("ModelBuild", consts=dict(MaxSteps="150"), sim=(200, 400), parallel=8)
    glues = [Glue(rng, k % 3 > 0) for k in range(len(recs))]
    cases = [g.case(h) for g, h in zip(glues, recs)]
    n = {}
    for h, glue, case, res in zip(recs, glues, cases, ctx.run(cases)):
        if core.bad(res):
            ctx.violation("calls of the model builder: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        w = follow(h, glue, case, res)
        if w:
            ctx.violation(w[0], case, w[1], w[2])
            continue
        ctx.ok()
        ctx.sample([s["op"] for s in h])
        for s in h:
            k = s["op"] + (" " + s["outcome"] if s["op"] == "run" else " " + s["how"] if s["op"] == "load" else "" if s["ok"] else " refused")
            n[k] = n.get(k, 0) + 1
    ctx.extra["calls"] = n
    ctx.assumptions.append("potentials and gains are finite; gains of a study that is run are between 1/4 and 10")
