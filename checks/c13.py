"""C13: unit conversions and constants."""
import json, math, random
import core, unitlib

MAP = [("\u00c2\u00b5", "~u"), ("\u00c2\u00b0", "~o")]


def enc(s):
    for a, b in MAP:
        s = s.replace(a, b)
    assert s.isascii(), s
    return s


def dec(s):
    for a, b in MAP:
        s = s.replace(b, a)
    return s


def size(vec):
    r = 1.0
    for k, e in (vec or {}).items():
        q, u = k.split(":", 1)
        r *= unitlib.RAW[q][dec(u)] ** e
    return r


def run(ctx):
    rng = random.Random(ctx.seed)
    files = {"units_raw.json": json.dumps({q: [enc(u) for u in us] for q, us in unitlib.RAW.items()})}
    table = ctx.go("Units", files=files)
    walks = ctx.go("Units", files=files, consts=dict(Mode='"walk"'), sim=(60 if ctx.quick else 1500, 10), parallel=8)
    table, walks = table.result(), walks.result()
    data = ctx.run([dict(kind="units")])[0]
    if core.bad(data):
        ctx.violation("unit_data: %s" % core.bad(data), None, None, data)
        return
    want = {}
    for r in table:
        want.setdefault((r["q"], dec(r["unit"])), set()).add(size(r["size"]))
    n = 0
    for (q, u), sizes in want.items():
        got = data["units"].get(q, {}).get(u)
        if got is None:
            ctx.violation("unit %s of %s is missing" % (u, q))
        elif not any(core.close(core.num(got), s, 1e-6, 0) for s in sizes):
            ctx.violation("size of unit %s of %s" % (u, q), None, sorted(sizes), got)
        else:
            n += 1
            ctx.ok()
    quantities = {}
    for (q, u) in want:
        quantities.setdefault(u, set()).add(q)
    for name, v in unitlib.CONSTS.items():
        got = data["consts"].get("#" + name)
        if got is None or not core.close(core.num(got), v, 1e-9, 0):
            ctx.violation("value of constant #%s" % name, None, v, got)
        else:
            ctx.ok()
    # conversions: chains of the specification, and every unit (quick: a sample of the
    # composed ones) to and from another unit of its quantity
    pairs = []
    for w in walks:
        for s in w["path"]:
            pairs.append((dec(s["a"]), dec(s["b"]), size(s["size"]) if s["in"] == 1 else None if s["in"] == 0 else "any", s["in"]))
    byq = {}
    for (q, u) in want:
        byq.setdefault(q, []).append(u)
    for q, us in byq.items():
        raw = [u for u in us if u in unitlib.RAW.get(q, {})]
        some = us if not ctx.quick else raw + rng.sample(us, min(len(us), 40))
        for u in some:
            b = rng.choice(us)
            if len(want[q, u]) > 1 or len(want[q, b]) > 1:
                continue
            f = min(want[q, u]) / min(want[q, b])
            k = len(quantities[u] & quantities[b])
            pairs += [(u, b, f if k == 1 else "any", k), (b, u, 1 / f if k == 1 else "any", k)]
    # a name that is no unit has no factor, not even to itself
    for u in ["foo", "", "M", "m^5", "m/", "/s", "m-", "kg*m", "nosuchunit", "hours2", " m", "m "]:
        if u not in quantities:
            pairs.append((u, u, None, 0))
    amb = {u for (q, u), s in want.items() if len(s) > 1}
    chunk = 40
    cases = [dict(kind="convert", pairs=[p[:2] for p in pairs[i:i + chunk]]) for i in range(0, len(pairs), chunk)]
    m = 0
    for i, (case, res) in enumerate(zip(cases, ctx.run(cases, case_timeout=120))):
        if core.bad(res):
            ctx.violation("convert: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        for (a, b, f, k), r in zip(pairs[i * chunk:], res["out"]):
            m += 1
            if a in amb or b in amb or f == "any":
                # a name of two quantities: the factor of one of them, or an error
                both = quantities.get(a, set()) & quantities.get(b, set())
                fs = {x / y for q in both for x in want[q, a] for y in want[q, b]}
                if "ok" in r and not any(core.close(core.num(r["ok"]), x, 1e-6, 0) for x in fs):
                    ctx.violation("factor [%s->%s]" % (a, b), None, sorted(fs), r)
            elif f is None:
                if "ok" in r:
                    ctx.violation("converting %s to %s, which have no quantity in common, is not an error" % (a, b), None, "error", r)
            elif "ok" not in r or not core.close(core.num(r["ok"]), f, 1e-6, 0):
                ctx.violation("factor [%s->%s]" % (a, b), None, f, r)
        ctx.ok()
    ctx.sample(dict(walk=walks[0]))
    ctx.extra.update(units_compared=n, conversions_compared=m, names_with_two_sizes=sorted(amb))
    ctx.assumptions += ["sizes of listed units and values of constants are compared with a reviewed copy of the tables",
                        "for a name that occurs in two quantities an error or the factor of either quantity is accepted where both names occur in both"]
