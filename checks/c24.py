"""C24: the C++ matrix class."""
import json, re
import core

MINUS_ZERO = re.compile(r"(?<![\d.])-0(?=[,;\]]|$)")


def plain(t):
    return MINUS_ZERO.sub("0", t)


def lines(h):
    shape, out = {}, []
    for s in h:
        o = s["call"]
        x = list(o["x"])
        if o["op"] == "fill":
            t = s["shown"][o["a"]]["text"] if s["shown"] else ""
            x = [t.split(";")[0].count(",") + 1] + o["vals"]
        out.append(["call", o["op"], s["how"], o["a"], o["b"], o["d"]] + [str(v) for v in x])
    return out


def follow(h, res):
    for i, s in enumerate(h):
        what = "call %d (%s, %s)" % (i + 1, json.dumps(s["call"]), s["how"])
        if i >= len(res["steps"]):
            return what + ": %s" % (res.get("dead") or res.get("crash") or "no answer"), s["shown"], None
        g = res["steps"][i]
        if ("throws" in g) != s["throws"]:
            return what, "an exception" if s["throws"] else "none", g.get("throws", "none")
        if s["throws"]:
            said = re.findall(r"\d+", g["throws"])
            if len(g["throws"].split()) < 4 or s["out"] not in g["throws"] or any(str(n) not in said for n in s["named"]):
                return what + ": what the exception says", [s["out"]] + list(s["named"]), g["throws"]
        elif plain(g["out"]) != s["out"]:
            return what, s["out"], g["out"]
        shown = {k: dict(v, text=plain(v["text"])) for k, v in g["shown"].items()}
        if shown != (s["shown"] or {}):
            return what + ": the objects afterwards", s["shown"], shown
        if g["live"] != len(shown):
            return what + ": matrices held by the library", len(shown), g["live"]
    if "left" not in res:
        return "at the end: %s" % (res.get("dead") or res.get("crash")), None, None
    if res["left"]:
        return "matrices left when every object is gone", 0, res["left"]
    return None


def run(ctx):
    runs = [ctx.go("CppMatrix", sim=(80 if ctx.quick else 1500, 90), parallel=8)]
    if not ctx.quick:
        runs.append(ctx.go("CppMatrix", consts=dict(Regs='{"A", "B", "C", "D", "E", "F", "G"}', MaxOps="100"), sim=(150, 250), parallel=8))
    exe, err = core.build_cpp(ctx, "matrix", "gmatlib")
    recs = [r for f in runs for r in f.result()]
    if err:
        return ctx.violation("gmatlib.h does not compile", None, None, err)
    n = 0
    cases = [lines(h) for h in recs]
    for h, case, res in zip(recs, cases, core.run_lines(ctx, exe, cases)):
        if res.get("skipped"):
            continue
        w = follow(h, res)
        n += len(h)
        if w:
            ctx.violation(w[0], case, w[1], w[2])
            continue
        ctx.ok()
        ctx.sample([s["call"]["op"] for s in h])
    ctx.extra["calls"] = n
    ctx.assumptions.append("the driver is compiled with g++; what a program does with an object that has no elements is seen through is_square and element access only")
