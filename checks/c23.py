"""C23: file tabs, side panels and messages of the user interface."""
import random
import core

NAMES = ["main.nxs", "files", "model", "x", "a b", "bob's file", 'say "hi".nxs', "proj-tabs-bar", "left-ribbon", "file", "f-tab", "f", "main.nxs-tab", "f-close-button",
         "f-filename", "\u00fcber.nxs", "X", "undefined", "0", "top-bar", "a/b/c.nxs", "debug-ribbon", "x-tab", "file-x", "file-files", "constructor", "__proto__", "100%", "x1", "x10", "main.nxs2"]
TEXTS = ["solved", "", "not converged: 3 unknowns", "WARNING: x", "a  b", "bob's"]
FILE, TAB, NAME, CLOSE = "left-ribbon-menu-file-item debug", "top-ribbon-menu-file-item debug", "filename-tag debug", "close-button debug"
REST = ["File Edit Solve Help", "Files Model", ""]

FILES = ["n%d" % k for k in range(1, 15)]


def build(rng, rec, tree):
    names = dict(zip(FILES, rng.sample(NAMES, len(FILES))), **dict(zip(["m1", "m2", "m3"], rng.sample(TEXTS, 3))))
    ops = []
    for s in rec["hist"]:
        o = dict(s["op"], at=rng.random() < 0.5)
        if "name" in o:
            o["name"] = names.get(o["name"], o["name"])
        ops.append(o)
    return dict(kind="app", tree=tree, ops=ops), names


def expect(s, names):
    files = [[names[n], FILE] for n in s["files"]]
    return dict(files=files, tabs=[[TAB, names[n], "X", NAME, CLOSE] for n in s["tabs"]],
                left="".join(f[0] for f in files).strip() if s["panel"] == "files" else "view a file to see modelling tools", rest=REST)


def run(ctx):
    rng = random.Random(ctx.seed)
    recs = ctx.tlc("Tabs", cfg="TabsSmall", consts=dict(MaxOps="9" if ctx.quick else "12"))
    recs += ctx.tlc("Tabs", sim=(20 if ctx.quick else 300, 200), parallel=8)
    # many files
    recs += ctx.tlc("Tabs", consts=dict(MaxOps="80", MaxFiles="20", Names="{%s}" % ", ".join('"%s"' % f for f in FILES)), sim=(4 if ctx.quick else 60, 600), parallel=8)
    cases = [(build(rng, r, tree), r) for r in recs for tree in ("src", "target")]
    steps = 0
    colours = {}          # kind of message -> its colour; they differ
    for ((case, names), r), res in zip(cases, core.run_js(ctx, [c[0][0] for c in cases])):
        where = "sources" if case["tree"] == "src" else "compiled scripts"
        if "crash" in res:
            ctx.violation("the interface (%s): %s" % (where, res["crash"]), case, None, None)
            continue
        lit = None
        for k, (s, g) in enumerate(zip(r["hist"], res["results"])):
            o = s["op"]
            show = dict(case, ops=case["ops"][:k + 1])
            if g["r"][0] == "error":
                ctx.violation("%s (%s)" % (o["op"], where), show, "done", g["r"])
                break
            want = expect(s, names)
            got = {x: g[x] for x in want}
            if want != got:
                ctx.violation("the window after %s (%s)" % (o["op"], where), show, want, got)
                break
            # the tab of the panel shown stands out, always in the same colours
            if s["marked"]:
                at = g["colors"] if s["marked"] == "files" else g["colors"][::-1]
                lit = lit or at
                if at != lit or at[0] == at[1]:
                    ctx.violation("the highlighted tab (%s)" % where, show, dict(shown=s["marked"], colours=lit), g["colors"])
                    break
            kind, text = s["ribbon"]["kind"], names.get(s["ribbon"]["text"], s["ribbon"]["text"])
            if kind != "none":
                prefix = dict(print="", warn="WARNING: ", error="ERROR: ")[kind]
                said, colour = g["ribbon"]
                if (said != prefix + text) if text != "?" else (not said or said.startswith(("WARNING", "ERROR"))):
                    ctx.violation("the message (%s)" % where, show, prefix + text, said)
                    break
                if colours.setdefault((case["tree"], kind), colour) != colour or any(c == colour and x != (case["tree"], kind) and x[0] == case["tree"] for x, c in colours.items()):
                    ctx.violation("the colour of the message (%s)" % where, show, {x[1]: c for x, c in colours.items() if x[0] == case["tree"]}, [kind, colour])
                    break
            steps += 1
        else:
            ctx.ok()
            ctx.sample(dict(ops=case["ops"], window=res["results"][-1] if res["results"] else None))
    ctx.extra["operations_compared"] = steps
    ctx.assumptions += ["the page is a small document of our own (harness_js/dom.js), not a browser",
                        "file names do not contain < or &; files are added while the list of files is shown"]
