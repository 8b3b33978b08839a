"""C11: comments, declarations and substitutions in a program."""
import random, re
import core, exprlib, unitlib

FAMILIES = [["x", "x2", "xx", "x_1", "xconst", "constx", "X"], ["k", "k1", "k10", "kk", "keepk", "keep_", "K"], ["ab", "a", "abc", "a_b", "b", "guessa", "AB"],
            ["y", "fory", "y_for", "on_1", "only", "y1", "y12"], ["T", "T2", "T_0", "t", "Tend", "endT", "ifT"], ["q", "guess1", "guess12", "q1", "qq", "for_q", "q_"]]
JUNK = ["", " ", "#nosuch", "[foo->bar]", " if x > 3:", "else:", "end", "// x = 1", " guess for", "=", "((", " \u00fc\u00df \u20ac", "const = 3", "keep on [", " 50% [m->s] #g", "duplicate x 1, 2:", "\t tab", "in m/s", "a / b // c", "see http://x/y_1", " x = 3 / 4 /", "/", "///", "/* y */", "1/2 \\ ~`!@$%&;:'\"?<>|"]
BADCONST = ["#nosuch", "#zz9", "#h_", "#g9", "#R_x", "#Tzero"]
BADUNIT = ["[foo->bar]", "[m->s]", "[m->foo]", "[foo->m]", "[kg->Pa]", "[minute->oz]", "[m^4->ft^4]", "[m/kg->ft/lbm]"]


class Text:
    """a program as segments (type, text, value)"""

    def __init__(self, rng, plain):
        self.rng, self.plain = rng, plain

    def kw(self, w):
        r = self.rng
        return r.choice([w, w, w.upper(), w.capitalize(), "".join(r.choice([c.upper(), c]) for c in w)])

    def sp(self, least=1):
        return " " * self.rng.choice([least, least, least + 1, least + 3])

    def number(self, v, sub=True):
        r = self.rng
        if v == 1 and sub and not self.plain and r.random() < 0.2:
            return r.choice(["#true", "[in->inch]", "[s->sec]", "[m^2->meter^2]"])
        if v == 0 and sub and not self.plain and r.random() < 0.2:
            return "#false"
        s = exprlib.spell_number(r, float(abs(v)))
        if s.startswith("."):
            s = "0" + s
        return ("-" + r.choice(["", "", " "]) if v < 0 else "") + s

    def declare(self, it, names):
        n = names.get(it["name"], it["name"])
        if it["t"] == "const":
            return self.kw("const") + self.sp() + n + self.sp(0) + "=" + self.sp(0) + self.number(it["v"])
        if it["t"] == "guess":
            return self.kw("guess") + self.sp() + self.number(it["v"]) + self.sp() + self.kw("for") + self.sp() + n
        return (self.kw("keep") + self.sp() + n + self.sp() + self.kw("on") + self.sp() + "[" + self.sp(0)
                + self.number(it["lo"]) + "," + self.sp(0) + self.number(it["hi"]) + self.sp(0) + "]")

    def equation(self, it, names, info):
        """segments of an equation; info gets the function value of the unknown"""
        r, e, x = self.rng, it["eq"], names[it["name"]]
        s0, s1 = self.sp(0), self.sp(0)
        if e[0] == "lin":
            ts = [(c, True) for c in e[1]] + [(c, False) for c in e[2]]
            r.shuffle(ts)
            sides = ["", ""]
            for (kind, v), hasx in ts:
                i = r.choice([0, 0, 1])
                if kind == "n":
                    neg, w = (v < 0) != (i == 1), exprlib.spell_number(r, float(abs(v)))
                    if v == 0 and not hasx:
                        continue
                else:
                    neg, w = i == 1, names[v]
                f = [w] + ([x] if hasx else [])
                if w == "1" and hasx and r.random() < 0.7:
                    f = [x]
                if r.random() < 0.3:
                    f.reverse()
                sides[i] += (self.sp(0) + "-" + self.sp(0) if neg else "+" if sides[i] else "") + (s0 + "*" + s1).join(f)
            sides = [t or "0" for t in sides]
            return [("lit", s0.join([sides[0], "=", sides[1]]), None)]
        if e[0] == "pow":
            c, p = names[e[2]], "^" if r.random() < 0.6 else " ^ "
            t = c + p + str(e[3])
            form = r.choice(["{x} = {s}{t}", "{x}={s}{t}", "0{u}{t} = {x}", "{x}{w}{t} = 0", "{x}*2 = {s}2*{t}"])
            return [("lit", form.format(x=x, t=t, s="-" if e[1] < 0 else "", u="-" if e[1] < 0 else " + ", w=" + " if e[1] < 0 else " - "), None)]
        if e[0] == "quad":
            a, b = [("(%s %s %s)" % (x, "-" if k >= 0 else "+", abs(k))) for k in e[1:]]
            return [("lit", r.choice(["%s*%s = 0", "0 = %s * %s", "%s*%s=0*3"]) % (a, b), None)]
        m, p = e[1], e[2]
        if e[0] == "sub":
            info[it["name"]] = m * self.subs[e[3]][2] ** p
            t = "*%s%s" % (names[e[3]], "" if p == 1 else r.choice(["^", " ^ "]) + str(p))
            return [("lit", r.choice(["{x} = {m}{t}", "{m}{t}={x}", "{x} + 1 = 1 + {m}{t}" if abs(info[it["name"]]) > 1e-3 else "{x}={m} {t}"]).format(x=x, m=m, t=t), None)]
        if e[0] == "phys":
            n = r.choice(list(unitlib.CONSTS))
            if unitlib.CONSTS[n] == 0 and p < 0:
                n = "g"
            k, sub = unitlib.CONSTS[n], "#" + n
        else:
            a, b, k = unitlib.pair(r, 1e-6, 1e6)
            sub = "[%s->%s]" % (a, b)
        info[it["name"]] = m * k ** p
        t = r.choice(["^", " ^ "]) + str(p) if p != 1 or r.random() < 0.1 else ""
        if r.random() < 0.5:
            return [("lit", x + s0 + "=" + s1 + ("%d" % m) + "*" + s0, None), (e[0], sub, k), ("lit", t, None)]
        return [("lit", self.sp(0) if m > 0 else "-", None), (e[0], sub, k), ("lit", t + " * %d = " % abs(m) + x, None)]

    def substitute(self, it, names):
        """segments of a constant that is a substitution"""
        kind, sub, k = self.subs[it["name"]]
        return [("lit", self.kw("const") + self.sp() + names[it["name"]] + self.sp(0) + "=" + self.sp(0), None), (kind, sub, k)]

    def comment(self, it, names, info):
        i = it["inner"]
        if i["t"] == "junk":
            s = self.rng.choice(JUNK)
        elif i["t"] == "eq":
            s = "".join(x[1] for x in self.equation(dict(i, name=i["name"]), {**names, **{n: n for n in ("x", "y", "z") if n not in names}}, {}))
        else:
            s = self.declare(i, names)
        return "//" + self.sp(0) + s + self.sp(0)

    def bad(self, v):
        r = self.rng
        t = r.choice(BADCONST) if v <= 2 else r.choice(BADUNIT)
        return r.choice(["w9 = 2*%s", "const w9 = %s", "guess %s for w9", "keep w9 on [%s, 9]", "%s", "w9 = %s^2"]) % t

    def program(self, rec, names, comments=True):
        r, segs, info = self.rng, [], {}
        self.subs = {}
        for it in rec["items"]:
            if it["t"] == "sub" and it["inner"] == "phys":
                n = r.choice([n for n in unitlib.CONSTS if unitlib.CONSTS[n] != 0])
                self.subs[it["name"]] = "phys", "#" + n, unitlib.CONSTS[n]
            elif it["t"] == "sub":
                a, b, k = unitlib.pair(r, 1e-6, 1e6)
                self.subs[it["name"]] = "conv", "[%s->%s]" % (a, b), k
        state = "start"        # what the current line holds: start, text or comment
        for it in rec["items"]:
            t = it["t"]
            if t == "comment" and not comments:
                continue
            one = self.substitute(it, names) if t == "sub" else [("comment", self.comment(it, names, info), None)] if t == "comment" else \
                self.equation(it, names, info) if t == "eq" else [("lit", self.bad(it["v"]), None)] if t == "bad" else [(t, self.declare(it, names), it)]
            same = state != "comment" and (t == "comment" or state == "decl" or (state == "eq" and t not in ("eq", "bad"))) and r.random() < 0.35
            if state != "start":
                segs.append(("lit", self.sp() if same else self.sp(0) + "\n" + r.choice(["", "", "", "\n", " \n\n"]), None))
            if not same:
                segs.append(("lit", self.sp(0), None))
            segs += one
            state = "comment" if t == "comment" else "eq" if t in ("eq", "bad") or (same and state == "eq") else "decl"
        if r.random() < 0.5:
            segs.append(("lit", self.sp(0) + "\n", None))
        return segs, info


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def lines(s):
    return [l.rstrip() for l in s.split("\n")]


def matches(segs, kind, got):
    """the text got is segs with every segment of a kind replaced by its value"""
    pat = "".join(r"\(?(-?[0-9.]+(?:e-?[0-9]+)?)\)?" if k == kind else re.escape(t) for k, t, _ in segs)
    m = re.fullmatch(pat, got, re.S)
    want = [v for k, _, v in segs if k == kind]
    return bool(m) and all(core.close(float(a), b, 1e-9, 0) for a, b in zip(m.groups(), want))


def run(ctx):
    rng = random.Random(ctx.seed)
    runs = [ctx.go("Decor", sim=(450 if ctx.quick else 6000, 60), parallel=8),
            ctx.go("Decor", cfg="DecorWide", sim=(6 if ctx.quick else 100, 250), parallel=4)]
    recs = [x for f in runs for x in f.result()]
    cases, infos = [], []

    def add(case, *info):
        cases.append(case)
        infos.append(info)
    for r in recs:
        for k in ("guess", "dom", "consts", "roots"):
            r[k] = r[k] or {}
        r["decl"], r["known"] = r["decl"] or {}, r["known"] or {}
        r["subs"] = [n for n, v in r["consts"].items() if not isinstance(v, int)]
        r["consts"] = {n: v for n, v in r["consts"].items() if isinstance(v, int)}
        if r["bad"] and rng.random() < 0.6:
            continue
        keys = list(r["prior"]) + list(r["consts"]) + list(r["subs"])
        while True:  # names of two families, or of all
            fams = rng.sample(FAMILIES, 2) if len(keys) < 12 else rng.sample(FAMILIES, 6)
            pool = [n for i, f in enumerate(fams) for n in rng.sample(f, min(len(f), max(4 + (i == 0), -(-len(keys) // len(fams)))))]
            if len(pool) >= len(keys):
                break
        rng.shuffle(pool)
        names = dict(zip(keys, pool))
        tx = Text(rng, False)
        segs, info = tx.program(r, names)
        text = "".join(s[1] for s in segs)
        if rng.random() < 0.1:
            text = text.replace("\n", "\r\n")
        values = {names[x]: info.get(x, v[0] if v else None) for x, v in r["roots"].items()}
        declared, prior = {}, {names[n]: p for n, p in r["prior"].items() if p}
        for n, d in r["decl"].items():
            declared[names[n]] = (d["guess"] or [1.0]) + (d["dom"] or [-float("inf"), float("inf")])
        known = {names[n]: float(v) for n, v in r["known"].items()}
        consts = dict({names[n]: v for n, v in r["consts"].items()}, **{names[n]: v[2] for n, v in tx.subs.items()})
        add(dict(kind="compile", text=text, ctx=dict(consts=known, vars={}), declared=prior, values={k: repr(float(v)) for k, v in values.items()}), "compile", r, names, values, declared, dict(known, **consts))
        if not r["bad"]:
            outside = [x for x, v in info.items() if x in r["dom"] and not r["dom"][x][0] <= v <= r["dom"][x][1]]
            unclear = [x for x, v in info.items() if x in r["dom"] and 0 < min(abs(v - b) for b in r["dom"][x]) < 1e-3 * max(1, abs(v))]
            big = [x for x, v in info.items() if not 1e-2 <= abs(v) <= 1e4 and v]
            if not unclear and not big:
                add(dict(kind="program", mode="full", text=text, margin=rng.choice([1e-5, 1e-7]), limit=200), "solve", r, names, values, r["fails"] or bool(outside), consts)
            # the functions for one kind of item
            plain = Text(rng, True)
            segs, _ = plain.program(r, names)
            add(dict(kind="text", fun="comments", text="".join(s[1] for s in segs)), "comments", segs)
            segs, _ = plain.program(r, names, comments=False)
            text = "".join(s[1] for s in segs)
            for fun, kind in [("consts", "phys"), ("conversions", "conv"), ("conditionals", None), ("const_values", "const"), ("guess_values", "guess"), ("domains", "keep")]:
                add(dict(kind="text", fun=fun, text=text), fun, kind, segs, names, r)
        else:
            add(dict(kind="program", mode="full", text=text, margin=1e-6, limit=100), "bad", r)
    counts = {}
    for case, info, res in zip(cases, infos, ctx.run(cases)):
        if core.bad(res):
            ctx.violation("%s: %s" % (info[0], core.bad(res)), case, None, res)
            continue
        if res.get("skipped"):
            continue
        counts[info[0]] = counts.get(info[0], 0) + 1
        if info[0] == "bad":
            if "ok" in res:
                ctx.violation("a program that names an unknown constant or unit is solved", case, "error", res)
                continue
        elif info[0] == "compile":
            _, r, names, values, declared, consts = info
            if r["bad"]:
                if "ok" in res:
                    ctx.violation("a program that names an unknown constant or unit compiles", case, "error", res)
                else:
                    ctx.ok()
                continue
            if "err" in res:
                ctx.violation("a valid program does not compile", case, None, res)
                continue
            got = {k: [core.num(x) for x in v] for k, v in res["declared"].items()}
            for n, d in got.items():  # a domain that does not hold the usual start: any start in it
                lo, hi = declared.get(n, d)[1:]
                if n not in [names[x] for x in r["guess"]] and n not in case["declared"] and not lo <= 1 < hi and lo <= d[0] < hi:
                    declared[n] = [d[0], lo, hi]
            if got != declared:
                ctx.violation("declarations of a program", case, declared, got)
                continue
            known = {k: core.num(v[1]) for k, v in res["ctx"].items() if v[0] in ("num", "var") and k not in ("pi", "e")}
            if set(known) != set(consts) or any(not core.close(known[k], consts[k], 1e-6, 0) for k in consts):
                ctx.violation("constants of a program", case, consts, known)
                continue
            neq = sum(it["t"] == "eq" for it in r["items"])
            left = [l for l in res["ok"].split("\n") if l.strip()]
            sides = res["sides"]
            if len(left) != neq or len(sides) != neq:
                ctx.violation("a program of %d equations compiles to %d lines" % (neq, len(left)), case, None, res["ok"])
                continue
            off = [i for i, s in enumerate(sides) if len(s) != 2 or "err" in s[0] or "err" in s[1]
                   or not core.close(core.num(s[0]["ok"]), core.num(s[1]["ok"]), 1e-6, 1e-9 if min([abs(v) for v in values.values() if v], default=1) < 1e-3 else 1e-6)]
            if off:
                ctx.violation("an equation does not hold for its root after compiling: %r" % left[off[0]], case, values, sides[off[0]])
                continue
        elif info[0] == "solve":
            _, r, names, values, fails, consts = info
            if fails != ("err" in res):
                ctx.violation("solving a program %s" % ("whose solution lies outside a domain" if fails else "with declarations"), case, "error" if fails else values, res)
                continue
            if not fails:
                got = {k: core.num(v) for k, v in res["ok"].items() if k not in ("pi", "e")}
                quad = {names[it["name"]] for it in r["items"] if it["t"] == "eq" and it["eq"][0] == "quad"}
                want = dict(values, **consts)
                wrong = [k for k in want if k not in got or not abs(got[k] - want[k]) <= (2 * case["margin"] ** 0.5 if k in quad else 3 * case["margin"] + 1e-6 * abs(want[k]))]
                if set(got) != set(want) or wrong:
                    ctx.violation("values of a solved program: %s" % (wrong or "other names"), case, want, got)
                    continue
        elif "err" in res:
            ctx.violation("%s fails" % info[0], case, None, res)
            continue
        elif info[0] == "comments":
            want = "".join(t for k, t, _ in info[1] if k != "comment")
            if lines(res["ok"]) != lines(want):
                ctx.violation("removing comments", case, want, res["ok"])
                continue
        else:
            fun, kind, segs, names, r = info
            if fun in ("consts", "conversions", "conditionals"):
                if not matches(segs, kind, res["ok"]):
                    ctx.violation("%s changes the text in another way than its items" % fun, case, None, res["ok"])
                    continue
            else:
                want = norm(" ".join(["".join(t if k != kind else " " for k, t, _ in segs)]))
                src = {"const": r["consts"], "guess": r["guess"], "keep": r["dom"]}[kind]
                wmap = {names[k]: v for k, v in src.items()}
                gmap = {k: [core.num(x) for x in v] if isinstance(v, list) else core.num(v) for k, v in res["map"].items()}
                if norm(res["ok"]) != want or gmap != wmap:
                    ctx.violation("%s of a program" % fun, case, [want, wmap], [res["ok"], gmap])
                    continue
        ctx.ok()
        if info[0] == "solve":
            ctx.sample(dict(case=case, values=info[3]))
    ctx.extra.update(comparisons=counts)
    ctx.assumptions += ["each name is declared at most once per kind; values of constants are literals or a single substitution"]
