"""Terms in which variables occur several times, at every place of every kind of structure."""
import itertools
from ref import N, V, F, L, C, W

LEAVES = {"X": V("X"), "Y": V("Y"), "Z": V("Z"), "1": N(1), "_": W}
KINDS = {
    "list": lambda t: L(*t), "args": lambda t: F("f", *t), "annots": lambda t: F("f", annots=tuple(F("k%d" % i, x) for i, x in enumerate(t))),
    "open": lambda t: C(t[0], t[1]) if len(t) == 2 else C(t[0], KINDS["open"](t[1:])) if len(t) > 2 else C(t[0], L()) if t else L(),
    "cells": lambda t: L(*[F("g", x) for x in t]), "rows": lambda t: L(*[L(x) for x in t]), "deep": lambda t: F("f", t[0], KINDS["deep"](t[1:])) if t else F("e"),
    "halves": lambda t: F("f", L(*t[:len(t) // 2]), L(*t[len(t) // 2:])), "mixed": lambda t: F("f", L(*t[1:]), annots=(F("k", t[0]),)) if t else F("f"),
}


def terms(tier):
    """Names of terms: at most two different variables, of which one occurs twice, or one in every place."""
    top = 6 if tier == "thorough" else 5
    for kind in KINDS:
        for n in range(1, top + 1):
            for leaves in itertools.product("XY1", repeat=n):
                # The variables in the order of their names.
                seen = [x for i, x in enumerate(leaves) if x != "1" and x not in leaves[:i]]
                if seen == sorted(seen) and seen[:1] != ["Y"]:
                    yield kind, "".join(leaves)


def term(kind, leaves, names=LEAVES):
    return KINDS[kind](tuple(names[x] for x in leaves))
