"""Texts of equations over given names."""
import exprlib

DECOYS1 = ["sin", "cos", "arctan", "tanh", "abs", "cosh"]


def leaf(rng):
    return ["n", rng.choice([0, 1, 2, 3, 5, 7, 10, 42])]


def tree(rng, leaves):
    """a random expression tree with exactly these leaves, in this order"""
    if len(leaves) == 1:
        t = leaves[0]
        if rng.random() < 0.25:
            t = [rng.choice(["neg", "abs"]), t]
        return t
    k = rng.randrange(1, len(leaves))
    if len(leaves) >= 4 and rng.random() < 0.2:
        cut = sorted(rng.sample(range(1, len(leaves)), 3))
        parts = [leaves[a:b] for a, b in zip([0] + cut, cut + [len(leaves)])]
        a, b, t, f = [tree(rng, p) for p in parts]
        return ["if", a, rng.randint(1, 6), b, t, f]
    a, b = tree(rng, leaves[:k]), tree(rng, leaves[k:])
    return [rng.choice("++--*/^"), a, b]


def equation(rng, names, known, valid=True):
    """text of an equation that uses all of names, perhaps some of known, and no
    other names; names and known are spelled"""
    leaves = [["v", n] for n in names] + [["v", rng.choice(names)] for _ in range(rng.choice([0, 0, 1, 2])) if names]
    leaves += [["v", k] for k in known if rng.random() < 0.25]
    leaves += [leaf(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    while len(leaves) < 2:
        leaves.append(leaf(rng))
    rng.shuffle(leaves)
    k = rng.randrange(1, len(leaves))
    same = {x[1]: x[1] for x in leaves if x[0] == "v"}
    sides = []
    for part in (leaves[:k], leaves[k:]):
        t = exprlib.tree_words(rng, tree(rng, part), same)[0]
        if rng.random() < 0.15:
            t = [rng.choice(DECOYS1), "("] + t + [")"]
        elif rng.random() < 0.05:
            t = ["log", "(", "2", ","] + t + [")"]
        elif rng.random() < 0.1:
            t = [rng.choice(["pi", "e", "2"]), "*", "("] + t + [")"]
        sides.append(t)
    if valid:
        words = sides[0] + ["="] + sides[1]
    else:
        words = broken(rng, *sides)
    tight = rng.choice([0.0, 0.5, 1.0])
    out = ""
    for i, w in enumerate(words):
        if i and exprlib.is_word(w) and exprlib.is_word(words[i - 1]) and "=" not in (w, words[i - 1]):
            out += " "
        elif i and rng.random() > tight:
            out += rng.choice([" ", " ", "  "])
        out += w
    return rng.choice(["", "", " "]) + out + rng.choice(["", "", " "])


def broken(rng, a, b):
    """words of a text that is not an equation, using the same names"""
    k = rng.randrange(13)
    if k == 0:
        return a + b if exprlib.is_word(a[-1]) == exprlib.is_word(b[0]) else a + ["+"] + b   # no '='
    if k == 1:
        return a + ["="] + b + ["="] + rng.choice([["1"], a, b])
    if k == 2:
        return a + ["=", "="] + b
    if k == 3:
        return a + [rng.choice("+*/^"), "="] + b
    if k == 4:
        return a + ["="] + b + [rng.choice("+-*/^")]
    if k == 5:
        return a + ["=", "("] + b
    if k == 6:
        return a + [")", "="] + b
    if k == 7:
        return ["("] + a + ["="] + b + [")"]
    if k == 8:
        return a + ["+", "sin", "="] + b
    if k == 9:
        return a + ["*", rng.choice(["sin", "if", "log"]), "(", ")", "="] + b
    if k == 10:
        return a + b + ["="] if exprlib.is_word(a[-1]) != exprlib.is_word(b[0]) else a + ["="] + [",", ] + b
    if k == 11:
        return a + ["="] + b + [rng.choice([",", ";"])]
    return a + ["+", "1", rng.choice(["2", "1.1.1", "pi"]), "="] + b


def broken_line(rng, names, known):
    """a malformed equation that still contains an '='"""
    while True:
        t = equation(rng, names, known, valid=False)
        if "=" in t:
            return t
