"""C22: tags built into the page."""
import html, random
import core

IDS = ["files", "x", "main.nxs-tab", "a b", "bob's file-tab", 'say "hi"', "a&b", "a&amp;b", "\u00fcber-tab", "registered-html-tag-", "registered-html-tag-x", "t-1", "T", "t",
       "0", "<tag>", "div", "registered-html-tag", "id='z", "close-button", "undefined", "toString", "__proto__", "constructor"]

TAGS = ["t%d" % k for k in range(1, 13)]


def quote(s):
    return html.escape(s, True)


def build(rng, rec, tree):
    names = dict(zip(["s1", "s2"] + TAGS, rng.sample(IDS, 2 + len(TAGS))))
    ops = []
    for s in rec["hist"]:
        o = dict(s["op"])
        if o["op"] == "build":
            o["blank"] = o["from"] == 0 and rng.random() < 0.3
            n = 1 + bool(o["cls"] or o["blank"]) + bool(o["text"] or o["blank"])
            steps = list(range(n + len(o["sets"])))
            rng.shuffle(steps)
            later = iter(sorted(k for k in steps if k >= n))      # callbacks stay in order
            o["order"] = [k if k < n else next(later) for k in steps]
        ops.append(o)
    page = '<div id="%s" class="c0"></div>%s<span id="%s">words</span>' % (quote(names["s1"]), rng.choice(["", "\n", "  "]), quote(names["s2"]))
    return dict(kind="tags", tree=tree, page=page, names=names, ops=ops)


def run(ctx):
    rng = random.Random(ctx.seed)
    recs = ctx.tlc("Tags", sim=(25 if ctx.quick else 400, 200), parallel=8)
    # many elements
    recs += ctx.tlc("Tags", consts=dict(MaxOps="70", TagIds="{%s}" % ", ".join('"%s"' % t for t in TAGS)), sim=(4 if ctx.quick else 60, 600), parallel=8)
    cases = [(build(rng, r, tree), r) for r in recs for tree in ("src", "target")]
    steps = 0
    for (case, r), res in zip(cases, core.run_js(ctx, [c[0] for c in cases])):
        where = "sources" if case["tree"] == "src" else "compiled scripts"
        if "crash" in res:
            ctx.violation("tags (%s): %s" % (where, res["crash"]), case, None, None)
            continue
        real = dict(case["names"], **res["names"])
        for k, (s, g) in enumerate(zip(r["hist"], res["results"])):
            o = s["op"]
            show = dict(case, ops=case["ops"][:k + 1])
            kind, val = g["r"]
            want = s["out"]
            if (want == "error") != (kind == "error"):
                ctx.violation("%s (%s)" % (o["op"], where), show, want, g["r"])
                break
            if o["op"] in ("generate", "drop") and val != want:
                ctx.violation("%s of an id (%s)" % (o["op"], where), show, want, val)
                break
            page = [[e["depth"], e["el"]["kind"], real.get(e["el"]["id"], e["el"]["id"]), e["el"]["cls"], e["el"]["text"],
                     {t: c for t, c in e["el"]["cbs"].items() if c}] for e in s["page"]]
            if page != g["page"]:
                ctx.violation("the page after %s (%s)" % (o["op"], where), show, page, g["page"])
                break
            steps += 1
        else:
            ctx.ok()
            ctx.sample(dict(ops=[x["op"] for x in case["ops"]], page=res["results"][-1]["page"]))
    ctx.extra["operations_compared"] = steps
    ctx.assumptions += ["the page is a small document of our own (harness_js/dom.js), not a browser",
                        "tags have an id that is not in the page when they are built; contents are plain words"]
