"""Spelling of token sequences of spec/Expr.tla and the IEEE reading of the
postfix programs it gives them."""
import math, random

F1 = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "ln", "log10", "abs"]
RESERVED = set(F1) | {"log", "if", "pi", "e", "wsum3", "inf", "nan", "infinity"}
NAMES = ["a", "x", "y", "x1", "snake_case_2", "CamelCase", "E5", "e2", "sinx", "ifx", "abs_", "ln2", "pi2", "logs", "x_",
         "Q", "very_long_name_with_many_parts_0123456789", "X", "n9_", "endif", "cosine", "tanh1", "p", "Pi", "Sin", "If"]
BADWORDS = ["1..", "..", "1.2.", ".5.", "..5", "1._", "1e.", "2.x", "zz9q", "2x", "1.2.3", "$", "é", "x?", "1e", "0x1F", "1_000", "_x", "3pi", "#g", "x.y", ".", "!", "2sin", "[", "{", "1,5x", "%", "--x?", "unknown"]
OPWORDS = set("+-*/^(),")


def is_word(t):
    return t not in OPWORDS


def spell_number(rng, v):
    """a numeral for the float v (small integers and short decimals)"""
    if v == int(v) and abs(v) < 1e15:
        i = str(int(v))
        return rng.choice([i, i, i, i + ".0", i + ".", "0" + i, i + ".000", "00" + i + ".00", i + "." + "0" * 20])
    s = repr(v)
    if "e" in s:
        return "%.12f" % v
    if s.startswith("0.") and rng.random() < 0.3:
        return s[1:]
    return s + rng.choice(["", "", "0", "00", "0" * 18])


def at(unit, v):
    """the text of v times the unit, a decimal.Decimal"""
    return format(unit * v, "f")


def join(rng, words, tight=0.5):
    """Words to text; spaces where words would otherwise merge, else optional"""
    out = rng.choice(["", "", " ", "  "])
    for i, w in enumerate(words):
        if i:
            if is_word(words[i - 1]) and is_word(w):
                out += " " * rng.choice([1, 1, 2])
            elif rng.random() > tight:
                out += " " * rng.choice([1, 1, 2, 3])
        out += w
    return out + rng.choice(["", "", " "])


class Fragile(Exception):
    pass


class DivZero(Exception):
    pass


def pw(a, b):
    if math.isnan(a) or math.isnan(b):
        try:
            return math.pow(a, b)
        except (ValueError, OverflowError):
            return math.nan
    try:
        return math.pow(a, b)
    except OverflowError:
        return -math.inf if a < 0 and b == int(b) and int(b) % 2 else math.inf
    except ValueError:
        if a == 0:
            odd = b == int(b) and int(b) % 2 == 1
            return math.copysign(math.inf, a) if odd else math.inf
        return math.nan


def safe(f, over=math.inf):
    def g(x):
        if math.isnan(x):
            return math.nan
        try:
            return f(x)
        except ValueError:
            return math.nan
        except OverflowError:
            return over if not callable(over) else over(x)
    return g


def _log(f):
    def g(x):
        if x == 0:
            return -math.inf
        return safe(f)(x)
    return g


ln = _log(math.log)
FUN = {"sin": safe(math.sin), "cos": safe(math.cos), "tan": safe(math.tan), "arcsin": safe(math.asin), "arccos": safe(math.acos),
       "arctan": safe(math.atan), "sinh": safe(math.sinh, lambda x: math.copysign(math.inf, x)), "cosh": safe(math.cosh),
       "tanh": safe(math.tanh), "ln": ln, "log10": _log(math.log10), "abs": abs}


def logab(a, b):
    """log(base, x)"""
    n, d = ln(b), ln(a)
    if d == 0:
        return math.nan if n == 0 or math.isnan(n) else math.copysign(math.inf, n) * math.copysign(1, d)
    try:
        return n / d
    except ZeroDivisionError:
        return math.nan


def is_int(x):
    return not math.isinf(x) and not math.isnan(x) and x == int(x) and abs(x) < 2 ** 50


def evaluate(prog, words, values, noise=None):
    """The value of a postfix program. words[p-1] is the spelling of token p;
    values gives the values of the operand words. noise: a Random that disturbs
    every inexact result, to recognise results that rounding decides."""
    st = []

    def put(x, *args):
        if noise is not None and not (is_int(x) and all(is_int(a) for a in args)) and not math.isnan(x):
            x = x * (1 + noise.uniform(-1, 1) * 1e-12)
        st.append(x)

    def add(a, b):
        return a + b
    for op, p in prog:
        if op in ("n", "k", "v"):
            st.append(values[p - 1])
        elif op == "neg":
            st.append(-st.pop())
        elif op in "+-*/^":
            b, a = st.pop(), st.pop()
            if op == "+":
                r = a + b
            elif op == "-":
                r = a - b
            elif op == "*":
                r = a * b
            elif op == "/":
                if b == 0:
                    raise DivZero
                if noise is None and not is_int(b) and abs(b) < 1e-9:
                    raise Fragile
                try:
                    r = a / b
                except OverflowError:
                    r = math.inf
            else:
                r = pw(a, b)
            put(r, a, b)
        elif op == "f1":
            a = st.pop()
            w = words[p - 1]
            if w in ("sin", "cos", "tan") and abs(a) > 1e6:
                raise Fragile
            r = FUN[w](a)
            if w == "abs":
                st.append(r)
            else:
                put(r, 0.5)
        elif op == "f2":
            b, a = st.pop(), st.pop()
            put(logab(a, b), 0.5)
        elif op == "f3":
            c, b, a = st.pop(), st.pop(), st.pop()
            put(a + 10 * b + 100 * c, a, b, c)
        else:
            y, x, b, o, a = st.pop(), st.pop(), st.pop(), st.pop(), st.pop()
            if o not in (1, 2, 3, 4, 5, 6):
                raise Fragile
            o = int(o)
            t = [a == b, a <= b, a >= b, a < b, a > b, a != b][o - 1]
            st.append(x if t else y)
        if not math.isnan(st[-1]) and not math.isinf(st[-1]) and abs(st[-1]) > 1e250:
            raise Fragile
    return st[0]


def expected(prog, words, values):
    """("ok", value) | ("err",) | ("any",): what evaluating the program gives"""
    rs = []
    for seed in (None, 1, 2, 3):
        try:
            rs.append(("ok", evaluate(prog, words, values, None if seed is None else random.Random(seed))))
        except DivZero:
            rs.append(("err",))
        except Fragile:
            return ("any",)
    if len({r[0] for r in rs}) > 1:
        return ("any",)
    if rs[0][0] == "ok":
        v = [r[1] for r in rs]
        if any(math.isnan(x) != math.isnan(v[0]) for x in v):
            return ("any",)
        if not math.isnan(v[0]):
            if math.isinf(v[0]) or any(math.isinf(x) for x in v):
                if any(x != v[0] for x in v):
                    return ("any",)
            elif max(abs(x - v[0]) for x in v) > 1e-8 * max(abs(v[0]), 1e-3):
                return ("any",)
    return rs[0]


def spell(rng, rec, table=False):
    """A case for the harness from a record of Expr.tla. table: use the values
    that the specification itself computed with."""
    toks = rec["toks"]
    ns = rng.sample(NAMES, 6)
    consts = {n: float(rng.choice([4.0, 0.5, 7.25, -3.0, 1000.0, 0.001, -1.0, 1.0])) for n in ns[:2]}
    vars_ = {n: float(rng.choice([3.0, -2.5, 0.125, 12.0, 1.0, 0.0, -1.0])) for n in ns[2:5]}
    if rng.random() < 0.5:
        vars_ = {ns[2]: vars_[ns[2]]}
    if table:
        consts = {ns[0]: 4.0}
        vars_ = {ns[2]: 3.0}
    words, values = [], []
    table_n = [2, 3, 1, 5, 4, 0, 7, 2, 6, 3, 1, 10]
    opcodes = set()      # positions of numerals that are the operator of a conditional
    stack = []
    for i, t in enumerate(toks):
        if t == "(":
            stack.append([toks[i - 1] if i and toks[i - 1][0] == "f" else "", 0])
        elif t == "," and stack:
            stack[-1][1] += 1
            if stack[-1] == ["f5", 1] and i + 2 < len(toks) and toks[i + 1] == "n" and toks[i + 2] == ",":
                opcodes.add(i + 1)
        elif t == ")" and stack:
            stack.pop()
    for i, t in enumerate(toks):
        val = None
        if t == "n":
            if table:
                val = float(table_n[i % 12])
            elif i in opcodes:
                val = float(rng.randint(1, 6))
            else:
                val = float(rng.choice([rng.randint(0, 12), rng.randint(0, 12), round(rng.uniform(0, 5), rng.randint(1, 6)), rng.choice([100, 0.5, 0.25, 1234567, 65536, 0.001])]))
            w = spell_number(rng, val)
        elif t == "k":
            if not table and rng.random() < 0.3:
                w = rng.choice(["pi", "e"])
                val = math.pi if w == "pi" else math.e
            else:
                w = rng.choice(list(consts))
                val = consts[w]
        elif t == "v":
            w = rng.choice(list(vars_))
            val = vars_[w]
        elif t == "f1":
            w = "abs" if table else rng.choice(F1)
        elif t == "f2":
            w = "log"
        elif t == "f3":
            w = "wsum3"
        elif t == "f5":
            w = "if"
        elif t == "u":
            w = rng.choice([b for b in BADWORDS if b not in ns])
        else:
            w = t
        words.append(w)
        values.append(val)
    src = join(rng, words, tight=rng.choice([0.0, 0.5, 1.0]))
    plain = all(t not in ("v", "f3") and (t != "k" or words[i] in ("pi", "e")) for i, t in enumerate(toks))
    case = dict(kind="expr", src=src, vals={k: repr(v) for k, v in vars_.items()},
                ctx=dict(consts={k: repr(v) for k, v in consts.items()}, own_functions=True), plain=plain)
    return case, words, values


# ------------------------------------------------------------------ trees
# Expression trees of the specifications: ["n", k], ["q", num, den], ["v", name],
# ["neg", a], [op, a, b], ["abs", a], ["if", a, opcode, b, t, f]
PREC = {"+": 2, "-": 2, "*": 3, "/": 3, "neg": 3, "^": 4}


def tree_words(rng, t, names, extra=0.08, number=None):
    """(words, precedence) of a tree, with parentheses where they are needed and
    now and then where they are not"""
    op = t[0]
    if op == "n":
        w, p = ([(number or spell_number)(rng, float(t[1]))], 9) if t[1] >= 0 else (["-", (number or spell_number)(rng, float(-t[1]))], 3)
    elif op == "v":
        w, p = [names[t[1]]], 9
    elif op == "w":
        w, p = [t[1]], 9
    elif op == "call":
        w = [t[1], "("]
        for i, x in enumerate(t[2:]):
            w += ([","] if i else []) + tree_words(rng, x, names, extra, number)[0]
        w, p = w + [")"], 9
    elif op == "neg":
        a, pa = tree_words(rng, t[1], names, extra, number)
        w, p = ["-"] + (a if pa >= 3 and not (pa == 3 and t[1][0] in "*/") else ["("] + a + [")"]), 3
    elif op == "abs":
        a, _ = tree_words(rng, t[1], names, extra, number)
        w, p = ["abs", "("] + a + [")"], 9
    elif op == "if":
        w = ["if", "("]
        for i, x in enumerate(t[1:]):
            w += ([","] if i else []) + ([str(x)] if i == 1 else tree_words(rng, x, names, extra, number)[0])
        w, p = w + [")"], 9
    else:
        p = PREC[op]
        a, pa = tree_words(rng, t[1], names, extra, number)
        b, pb = tree_words(rng, t[2], names, extra, number)
        if op == "^":
            a = a if pa > 4 else ["("] + a + [")"]
            b = b if pb >= 4 else ["("] + b + [")"]
        else:
            a = a if pa >= p else ["("] + a + [")"]
            b = b if pb > p or (b[0] == "-" and pb == 3 and t[2][0] in ("neg", "n")) else ["("] + b + [")"]
        w = a + [op] + b
    if rng.random() < extra:
        w, p = ["("] + w + [")"], 9
    return w, p


def tree_text(rng, t, names, extra=0.08, tight=None, number=None):
    w, _ = tree_words(rng, t, names, extra, number)
    return join(rng, w, rng.choice([0.0, 0.5, 1.0]) if tight is None else tight)


def rename(rng, names, pool=None):
    """distinct spellings for the specification's names"""
    pool = pool or NAMES
    return dict(zip(names, rng.sample(pool, len(names))))
