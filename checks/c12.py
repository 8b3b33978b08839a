"""C12: conditional blocks."""
import random
import core, exprlib

NAMES = ["ifx", "x_if", "elsewhere", "endpoint", "x_end", "belse", "iff", "endif", "send", "bend", "end_1", "else_", "if_", "diff", "fi", "x", "y", "T1", "Xend", "gift", "legend2", "elseif", "Else", "IF1", "orelse", "x_else"]
BADOPS = ["=<", "=>", "=", "<>", "><", "<<", ">>", "===", "<=>", "!==", "= =", ">==", "=!"]
JUNK = ["x = 99", "if 1 < 2:", "else:", "end", "", " note: a == b", "const c = 5", "guess 4 for x"]


def render_side(rng, t, cn, un, x):
    if t[0] == "h":
        s = "%d.5" % (abs(t[1]) // 2)
        return s if t[1] > 0 else rng.choice(["-%s", "0 - %s", "-(%s)"]) % s
    if t[0] == "x":
        return x
    def conv(t):
        if t[0] == "s":
            return ["v", "s%d" % t[1]]
        return t if t[0] in ("n", "v") else [t[0]] + [conv(a) for a in t[1:]]
    names = dict(cn, **{"s%d" % (i + 1): n for i, n in enumerate(un)})
    return exprlib.tree_text(rng, conv(t), names).strip()


def leaf(rng, b, l, x, y):
    p, q, root = l["p"], l["q"], l["root"]
    if b["kind"] != "pair":
        q = 0
    d = p * root + q * (b["sum"] - root)
    def term(c, n, first):
        s = ("" if abs(c) == 1 and rng.random() < 0.8 else "%d*" % abs(c)) + n
        return ("-" if c < 0 else "" if first else "+") + s if first else (" - " if c < 0 else " + ") + s
    def const(c, first):
        return (str(c) if first else (" - %d" if c < 0 else " + %d") % abs(c))
    lhs = [(p, x)] + ([(q, y)] if q else [])
    rng.shuffle(lhs)
    form = rng.choice(["plain", "plain", "swap", "expr", "zero", "zero2", "move", "paren"])
    left = "".join(term(c, n, i == 0) for i, (c, n) in enumerate(lhs))
    eq = rng.choice(["=", " = ", "  =  "])
    if form == "plain":
        return left + eq + str(d)
    if form == "swap":
        return str(d) + eq + left
    if form == "expr":
        return left + const(-d, False)
    if form == "zero":
        return left + const(-d, False) + eq + rng.choice(["0", "0", "0.0", "0*3"])
    if form == "zero2":
        return "0" + eq + left + const(-d, False)
    if form == "paren":
        return "(%s)%s(%d)" % (left, eq, d)
    return term(lhs[0][0], lhs[0][1], True) + eq + str(d) + "".join(term(-c, n, False) for c, n in lhs[1:])


def count(t):
    return 0 if t["leaf"] else 1 + count(t["t"]) + count(t["f"])


def block(rng, b, cn, un, x, y):
    """the lines of a block"""
    n = count(b["tree"])
    badat = b["badop"] % n if b["badop"] else None
    at = [0]

    def walk(t, depth):
        ind = rng.choice(["", " " * depth, "    " * depth, "\t" * depth, " \t" * depth])
        if t["leaf"]:
            return [ind + leaf(rng, b, t, x, y)]
        op = t["op"]
        if badat == at[0]:
            op = rng.choice(BADOPS)
        at[0] += 1
        sp = rng.choice(["", " ", " "])
        head = ind + "if" + rng.choice([" ", " ", "  "]) + render_side(rng, t["l"], cn, un, x) + sp + op + sp + render_side(rng, t["r"], cn, un, x) + rng.choice(["", "", " "]) + ":"
        return [head] + walk(t["t"], depth + 1) + [ind + "else:"] + walk(t["f"], depth + 1) + [ind + "end"]
    return walk(b["tree"], 0)


def build(rng, r):
    k = len(r["blocks"])
    pool = rng.sample(NAMES + ["v%d" % i for i in range(2 * k)], 3 + 2 * k)
    cn = dict(zip(["c1", "c2", "c3"], pool))
    un, yn = pool[3:3 + k], pool[3 + k:]
    want = {cn[c]: v for c, v in r["consts"].items()}
    chunks, declares = [], []
    for c, v in r["consts"].items():
        declares.append("const %s = %s" % (cn[c], v))
    for i, (b, s) in enumerate(zip(r["blocks"], r["solved"])):
        chunks.append(block(rng, b, cn, un, un[i], yn[i]))
        if b["kind"] != "pair" and rng.random() < 0.2:
            # the same lines again say nothing new
            chunks += [chunks[-1]] * rng.choice([1, 2, 3])
        if b["kind"] == "self" or rng.random() < 0.3:
            declares.append("guess %d for %s" % (b["guess"], un[i]))
        if b["kind"] == "pair":
            chunks.append([rng.choice(["%s + %s = %d", "0 = %s + %s - (%d)"]) % (un[i], yn[i], b["sum"])])
        want[un[i]] = s
        if b["kind"] == "pair":
            want[yn[i]] = ["is", b["sum"] - s[1]] if s[0] == "is" else s
    rng.shuffle(chunks)
    loose = rng.random() < 0.5        # comments, blank lines and declarations inside the blocks
    lines = [l for c in chunks for l in c]
    out = []
    for l in lines:
        while loose and rng.random() < 0.15:
            out.append(declares.pop() if declares and rng.random() < 0.2 else rng.choice(["", "  ", "// " + rng.choice(JUNK), "\t// " + rng.choice(JUNK)]))
        if loose and rng.random() < 0.15:
            l += " " + declares.pop() if declares and rng.random() < 0.2 else rng.choice([" ", "   ", " // " + rng.choice(JUNK), "//" + rng.choice(JUNK)])
        out.append(l)
    at = rng.choice([0, len(out)])
    out[at:at] = declares
    return "\n".join(out) + rng.choice(["", "\n", "\n\n"]), want, un


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Cond", sim=(500 if ctx.quick else 6000, 12), parallel=6),
            ctx.go("Cond", consts=dict(Chain="TRUE", MaxDepth="8"), sim=(60 if ctx.quick else 600, 12), parallel=2),           # deep blocks
            ctx.go("Cond", consts=dict(MinBlocks="9", MaxBlocks="12", MaxDepth="1"), sim=(40 if ctx.quick else 300, 20), parallel=2)]  # many blocks
    recs = [r for f in runs for r in f.result()]
    cases = []
    for r in recs:
        for _ in range(1 if ctx.quick else 3):
            text, want, un = build(rng, r)
            fails = r["bad"] or any(s[0] == "none" for s in r["solved"])
            cases.append((dict(kind="program", mode="full", text=text, margin=1e-6, limit=60), r, want, fails))
    ops = {}
    for (case, r, want, fails), res in zip(cases, ctx.run([c[0] for c in cases])):
        if core.bad(res):
            ctx.violation("conditionals: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        if fails:
            if "ok" in res:
                ctx.violation("a program with %s is solved" % ("an invalid operator" if r["bad"] else "an inconsistent conditional"), case, "error", res)
            else:
                ctx.ok()
            continue
        unsure = any(s[0] == "any" for s in r["solved"])
        if "err" in res:
            if unsure:
                ctx.ok()
            else:
                ctx.violation("a program with conditionals is not solved", case, want, res)
            continue
        got = {k: core.num(v) for k, v in res["ok"].items() if k not in ("pi", "e")}
        def right(k, w):
            vs = w[1] if isinstance(w, list) and w[0] == "any" else [w[1]] if isinstance(w, list) else [w]
            return any(abs(got[k] - v) <= 1e-4 for v in vs)
        wrong = set(got) ^ set(want) or [k for k, w in want.items() if not right(k, w)]
        if wrong:
            ctx.violation("a conditional is solved with another branch: %s" % sorted(wrong), case, want, got)
            continue
        ctx.ok()
        for b in r["blocks"]:
            ops[b["kind"]] = ops.get(b["kind"], 0) + 1
        if len(r["blocks"]) > 1:
            ctx.sample(dict(text=case["text"], values=want))
    ctx.extra.update(blocks_compared=ops)
    ctx.assumptions += ["leaf equations are linear; comparisons with solved values are not decided by rounding"]
