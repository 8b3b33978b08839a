"""C27: whole programs, with everything that the language offers."""
import random
import core, exprlib
from c11 import BADCONST, BADUNIT, FAMILIES, JUNK, Text
from c12 import NAMES

CONVS = {3: ["yd->ft", "yard->ft"], 12: ["ft->in", "ft->inch"], 24: ["day->h", "days->hour"], 60: ["h->min", "hour->minute", "min->s"],
         100: ["m->cm", "dm->mm"], 1000: ["km->m", "in->mil", "kN->N", "m->mm"]}
PHYS = ["g", "R", "C", "F", "NA", "h", "Red", "T_zero"]
FUNS = {0: [["sin", ["n", 0]], ["ln", ["n", 1]], ["tanh", ["n", 0]], ["log10", ["n", 1]], ["arctan", ["n", 0]]],
        1: [["cos", ["n", 0]], ["cosh", ["n", 0]], ["log10", ["n", 10]], ["ln", ["v", "e"]], ["log", ["n", 7], ["n", 7]]],
        2: [["log", ["n", 3], ["n", 9]], ["log10", ["n", 100]], ["ln", ["*", ["v", "e"], ["v", "e"]]]],
        3: [["log", ["n", 2], ["n", 8]], ["log10", ["n", 1000]], ["log", ["n", 5], ["n", 125]]]}
OPS = ["==", "<=", ">=", "<", ">", "!="]


def tree(rng, t):
    """the expression with its conversions, constants and functions spelled"""
    if not isinstance(t, list) or t[0] in ("n", "v"):
        return t
    if t[0] == "conv":
        return ["w", "[%s]" % rng.choice(CONVS[t[1]])]
    if t[0] == "one":
        n = "#" + rng.choice(PHYS)
        return ["/", ["w", n], ["w", n]]
    if t[0] == "fn":
        return ["call"] + rng.choice(FUNS[t[1]])
    return [t[0]] + [tree(rng, x) for x in t[1:]]


def value(t, at, sol):
    """the value of a tree at some values; comparisons are those of the solution"""
    op, a = t[0], t[1:]
    if op == "v":
        return at[a[0]]
    if op in ("n", "conv", "fn"):
        return a[0]
    if op == "one":
        return 1
    if op == "if":
        return value(a[3] if holds(a[1], value(a[0], sol, sol), value(a[2], sol, sol)) else a[4], at, sol)
    x = [value(u, at, sol) for u in a]
    if op == "neg":
        return -x[0]
    if op == "abs":
        return abs(x[0])
    return {"+": lambda: x[0] + x[1], "-": lambda: x[0] - x[1], "*": lambda: x[0] * x[1], "/": lambda: x[0] / x[1], "^": lambda: x[0] ** x[1]}[op]()


def holds(code, a, b):
    a, b = round(a, 6), round(b, 6)
    return [a == b, a <= b, a >= b, a < b, a > b, a != b][code - 1]


def residual(e, at, sol):
    """how far an equation is from holding, relative to its sides"""
    if e[0] == "cond":
        return residual(e[4] if holds(e[2], value(e[1], sol, sol), value(e[3], sol, sol)) else e[5], at, sol)
    l, r = value(e[1], at, sol), value(e[2], at, sol)
    return abs(l - r) / (1 + abs(l) + abs(r))


class Writer:
    def __init__(self, rng, r, loose=True):
        self.rng, self.r, self.loose = rng, r, loose
        pool = sum(rng.sample(FAMILIES, 3 if len(r["sol"]) < 12 else 6), []) + rng.sample(NAMES, 8 if len(r["sol"]) < 12 else len(NAMES))
        pool = list(dict.fromkeys(pool))
        ns = sorted(r["sol"]) + ["u1", "u2"]
        self.names = dict(zip(ns, rng.sample(pool, len(ns))))
        self.names["e"] = "e"
        self.text = Text(rng, True)
        self.tight = rng.choice([None, 0.0, 1.0])

    def expr(self, t):
        return exprlib.tree_text(self.rng, tree(self.rng, t), self.names, tight=self.tight).strip()

    def equation(self, e, depth=0):
        """the lines of an equation"""
        rng = self.rng
        ind = rng.choice(["", " " * depth, "    " * depth, "\t" * depth])
        if e[0] == "eq":
            return [ind + self.expr(e[1]) + rng.choice([" = ", "=", "  ="]) + self.expr(e[2])]
        sp = rng.choice(["", " "])
        head = ind + "if " + self.expr(e[1]) + sp + OPS[e[2] - 1] + sp + self.expr(e[3]) + rng.choice(["", " "]) + ":"
        first = self.equation(e[4], depth + 1)
        other = first if e[4] == e[5] and rng.random() < 0.7 else self.equation(e[5], depth + 1)
        return [head] + first + [ind + "else:"] + other + [ind + "end"]

    def declarations(self):
        r, t, out = self.r, self.text, []
        for c in r["consts"]:
            out.append(t.declare(dict(t="const", name=c, v=r["sol"][c]), self.names))
        for x, g in (r["plan"]["guess"] or {}).items():
            if g:
                out.append(t.declare(dict(t="guess", name=x, v=g[0]), self.names))
        for x, d in (r["plan"]["dom"] or {}).items():
            if d:
                out.append(t.declare(dict(t="keep", name=x, lo=d[0], hi=d[1]), self.names))
        self.rng.shuffle(out)
        return out

    def program(self):
        rng, r = self.rng, self.r
        chunks = [self.equation([e[0], e[1], e[2], e[3], e[4], e[5]] if e[0] == "cond" else e) for e in r["eqs"]]
        if r["fault"] == "unit":
            chunks.append(["%s = 2*%s" % (rng.choice(["w9", self.names[min(n for n in r["sol"] if n not in r["consts"])]]), rng.choice(BADCONST + BADUNIT))])
        if r["fault"] == "text":
            x = self.names[min(n for n in r["sol"] if n not in r["consts"])]
            chunks.append([rng.choice(["%s = ", "= %s", "%s + = 3", "%s = (2", "%s = 2)", "%s = 3 *", "2 %s = 4", "%s = sin()", "%s = 1 + nosuchname(2)", "%s == 2", "%s = 2 = 3"]) % x])
        decls = self.declarations()
        rng.shuffle(chunks)
        lines = [l for c in chunks for l in c]
        out = []
        for l in lines:
            while self.loose and rng.random() < 0.2:
                k = rng.random()
                out.append(decls.pop() if decls and k < 0.4 else rng.choice(["", "  ", "// " + rng.choice(JUNK), "\t//" + rng.choice(JUNK)]))
            if self.loose and rng.random() < 0.2:
                l += " " + decls.pop() if decls and rng.random() < 0.3 else rng.choice([" ", " // " + rng.choice(JUNK), "//" + rng.choice(JUNK)])
            out.append(l)
        at = rng.choice([0, len(out)])
        out[at:at] = decls
        return "\n".join(out) + rng.choice(["", "\n", "\n\n"])


def rename(t, p):
    if isinstance(t, list):
        return ["v", p + t[1]] if t and t[0] == "v" and t[1] not in ("e", "u1", "u2") else [rename(x, p) for x in t]
    return t


def together(rs):
    """programs without a name in common, as one"""
    out = dict(sol={}, consts=[], eqs=[], groups=[], plan=dict(guess={}, dom={}), fault=rs[-1]["fault"])
    for i, r in enumerate(rs):
        p = "pqr"[i]
        out["sol"].update({p + n: v for n, v in r["sol"].items()})
        out["consts"] += [p + n for n in r["consts"]]
        out["eqs"] += [rename(e, p) for e in r["eqs"]]
        out["groups"] += r["groups"]
        for k in ("guess", "dom"):
            out["plan"][k].update({n if n in ("u1", "u2") else p + n: v for n, v in (r["plan"][k] or {}).items()})
    return out


def features(r, text):
    out = ["fault " + r["fault"]]
    s = str(r["eqs"])
    out += [w for w in ("cond", "'if'", "conv", "one", "fn", "abs", "'^'", "'/'") if w in s]
    out += ["several programs"] if len(r["sol"]) > 12 else []
    return out + ["group of %d" % g["n"] for g in r["groups"] if g["n"] > 1]


def run(ctx):
    rng = random.Random(ctx.seed)
    recs = ctx.tlc("Whole", sim=(90 if ctx.quick else 900, 40), parallel=8)
    cases = []
    sound = [r for r in recs if r["fault"] == "none"]
    recs = recs + [together([rng.choice(sound) for _ in range(rng.choice([1, 2, 2]))] + [r]) for r in rng.sample(recs, len(recs) // 5)]
    for r in recs:
        for _ in range(2 if ctx.quick else 3):
            w = Writer(rng, r)
            text = w.program()
            if rng.random() < 0.1:
                text = text.replace("\n", "\r\n")
            want = {w.names[n]: v for n, v in r["sol"].items()}
            cases.append((dict(kind="program", mode="full", text=text, margin=rng.choice([1e-8, 1e-10]), limit=rng.choice([25, 40, 100])), r, want, w.names, r["fault"] in ("outside", "unit", "text")))
    counts = {}
    for (case, r, want, names, fails), res in zip(cases, ctx.run([c[0] for c in cases])):
        if core.bad(res):
            ctx.violation("a program: %s" % core.bad(res), case, None, res)
            continue
        if res.get("skipped"):
            continue
        if fails:
            if "ok" in res:
                ctx.violation("a program that is wrong (%s) is solved" % r["fault"], case, "error", res)
                continue
        elif "err" in res:
            ctx.violation("a program is not solved", case, want, res)
            continue
        else:
            got = {k: core.num(v) for k, v in res["ok"].items() if k not in ("pi", "e")}
            wrong = set(got) ^ set(want) or [k for k, v in want.items() if not abs(got[k] - v) <= 0.3]
            if not wrong:  # one value may depend on another a million times over: the equations tell, not the distance
                back = {n: got[v] for n, v in names.items() if v in got}
                wrong = [e for e in r["eqs"][:len(r["eqs"]) - (r["fault"] == "left")] if not residual(e, back, r["sol"]) <= 1e-6] + [c for c in r["consts"] if back[c] != r["sol"][c]]
            if wrong:
                ctx.violation("a program is solved to other values: %s" % sorted(wrong), case, want, got)
                continue
        ctx.ok()
        for k in features(r, case["text"]):
            counts[k] = counts.get(k, 0) + 1
        if len(case["text"]) < 700:
            ctx.sample(dict(text=case["text"], values=want))
    ctx.extra["programs_with"] = counts
    ctx.assumptions += ["unknowns have whole-numbered values of one digit; equations are linear in their unknowns, but for powers and products with a guess on their outer side",
                        "no comparison is decided by rounding"]
