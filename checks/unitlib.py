"""The sizes of units and the values of constants that the specification of the
conversions (spec/Units.tla) is evaluated with: a reviewed copy of the tables,
kept apart from the code."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
CONSTS = json.load(open(os.path.join(HERE, "consts_golden.json")))
RAW = json.load(open(os.path.join(HERE, "units_golden.json")))
SIMPLE = "LENGTH MASS TIME FORCE PRESSURE ENERGY POWER VELOCITY VOLUME AREA".split()


def pair(rng, low=0.0, high=1e300):
    """(a, b, factor) of two raw units of one quantity that can be written in a program"""
    while True:
        q = rng.choice(SIMPLE)
        names = [u for u in RAW[q] if u.isascii() and "." not in u and "%" not in u and sum(u in RAW[p] for p in RAW) == 1 and "/" not in u]
        a, b = rng.choice(names), rng.choice(names)
        f = RAW[q][a] / RAW[q][b]
        if low <= f <= high:
            return a, b, f
