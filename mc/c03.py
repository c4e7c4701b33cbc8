"""C03: queries give exactly the derivable answers and undo failed branches."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C03"
RULE = ("tried: up to three rules of one name, with and without arguments, whose bodies show when they are tried; arities: one name with every set of beliefs and rules of arities zero to three; every query up to the stated nesting over the leaf alphabet, in every place where a query can stand; the sequence "
        "of answers, the bindings visible in and after it and the error outcome are compared with the model, which "
        "derives answers independently; a state is a distinct (program, observations so far), a transition a step of the agent")
ASSUMPTIONS = ["rule sets terminate (acyclic data for recursive rules)", "annotated queries are covered by C02",
               "disjunctions of constants (true | true) may be simplified", "the order of beliefs is not specified: any order is accepted, rules must come in program order after them"]

X, Y, Z, U = V("X"), V("Y"), V("Z"), V("U")


def lit(t):
    return ("lit", t)


LEAVES = {
    "px": lit(F("p", X)), "py": lit(F("p", Y)), "qx": lit(F("q", X)), "qy": lit(F("q", Y)),
    "rxy": lit(F("r", X, Y)), "ryx": lit(F("r", Y, X)), "rxx": lit(F("r", X, X)), "none": lit(F("nope", X)),
    "p1": lit(F("p", N(1))), "sx": lit(F("s", X)), "sy": lit(F("s", Y)), "txy": lit(F("t", X, Y)),
    "uxf": lit(F("u", X, F("f", Y))), "ends": lit(F("path", F("a"), X)), "path": lit(F("path", X, Y)),
    "fx": ("uni", X, F("f", Y)), "x1": ("uni", X, N(1)), "xy": ("uni", X, Y), "y2": ("uni", Y, ("o", "+", N(1), N(1))),
    "lt": ("cmp", "<", X, N(2)), "eq": ("cmp", "==", X, Y), "ne": ("cmp", "\\==", X, N(1)),
    "true": ("true",), "false": ("false",),
    "mem": ("act", ".member", (X, L(N(1), Y, N(2)))), "rng": ("act", ".range", (N(2), Y)),
    "fall": ("act", ".findall", (X, F("p", X), Y)), "cnt": ("act", ".count", (F("p", X), Y)),
    "fail": ("act", ".fail", ()), "cons": ("uni", C(X, Y), L(N(1), N(2))), "lx": lit(F("l", C(X, Y))),
    "varq": lit(F("neg", X)), "vv": lit(F("same", X, Y)), "both": lit(F("b", X)), "nx": lit(F("n", X, Y)),
}
BELIEFS = [F("p", N(1)), F("p", N(2)), F("q", N(2)), F("q", N(3)), F("r", N(1), N(2)), F("r", N(2), N(2)),
           F("e", F("a"), F("b")), F("e", F("b"), F("c")), F("e", F("a"), F("c")), F("l", L(N(1), N(2))), F("l", L(F("a"))),
           F("b", N(1)), F("s", N(9))]
RULES = [
    (F("s", X), ("and", lit(F("p", X)), lit(F("q", X)))),
    (F("s", F("g", X)), lit(F("q", X))),
    (F("t", X, Y), ("or", lit(F("r", X, Y)), ("and", lit(F("p", Y)), ("uni", X, N(0))))),
    (F("t", X, X), ("true",)),
    (F("u", X, Y), ("and", ("uni", Y, F("f", Z)), lit(F("p", Z)))),
    (F("u", N(5), Z), ("true",)),
    (F("path", X, Y), lit(F("e", X, Y))),
    (F("path", X, Y), ("and", lit(F("e", X, Z)), lit(F("path", Z, Y)))),
    (F("neg", X), ("and", lit(F("p", X)), ("not", lit(F("q", X))))),
    (F("same", X, X), ("true",)),
    (F("b", X), lit(F("bb", X))),
    (F("bb", N(2)), ("true",)),
    (F("b", N(3)), ("not", ("false",))),
    (F("n", X, Y), ("and", lit(F("p", X)), ("act", ".member", (Y, L(X, F("k", X)))))),
]

SMALL = ("px", "qx", "qy", "rxy", "x1", "fx", "none", "lt", "mem", "txy", "true")
TINY = ("px", "qy", "x1", "xy", "sx", "rxy", "false")
MICRO = ("px", "x1", "qy")


def level2(l1, l2):
    for x in l1:
        yield ["not", x]
        for y in l2:
            yield ["and", x, y]
            yield ["or", x, y]


def queries(tier):
    for x in LEAVES:
        yield x
    for q in level2(LEAVES, LEAVES):
        yield q
    small2 = list(level2(SMALL, SMALL))
    for q in small2:
        yield ["not", q]
        for x in SMALL:
            yield ["and", q, x]
            yield ["or", q, x]
            yield ["and", x, q]
            yield ["or", x, q]
    tiny2 = list(level2(MICRO, MICRO))
    for q in tiny2:
        for r in tiny2:
            yield ["and", q, r]
            yield ["or", q, r]
    if tier == "thorough":
        tiny2 = list(level2(TINY, TINY))
        for q in tiny2:
            for r in tiny2:
                yield ["and", q, r]
                yield ["or", q, r]
        micro = list(level2(MICRO, MICRO))
        for q in micro:
            for r in micro:
                for x in MICRO:
                    yield ["and", ["not", ["or", q, r]], x]
                    yield ["and", ["or", q, r], x]
                    yield ["or", ["and", q, r], x]
        for q in level2(LEAVES, LEAVES):
            yield ["not", q]
            for x in TINY:
                yield ["and", q, x]
                yield ["and", x, q]
                yield ["or", x, q]
                yield ["or", q, x]


def constant(q):
    if isinstance(q, str):
        return q in ("true", "false")
    return all(constant(x) for x in q[1:])


def excluded(q):
    """Disjunctions of constants may count as one or two answers."""
    return not isinstance(q, str) and (q[0] == "or" and constant(q) or any(excluded(x) for x in q[1:]))


def gen(tier):
    for q in queries(tier):
        if not excluded(q):
            yield q


def build(q):
    if isinstance(q, str):
        return LEAVES[q]
    return (q[0],) + tuple(build(x) for x in q[1:])


def emit(*t):
    return ("q", ("act", ".emit", tuple(t)))


def names(x, acc):
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == "f":
            acc.add(x[1])
        for y in x:
            names(y, acc)
    return acc


def relevant(*parts):
    used = set()
    for p in parts:
        names(p, used)
    rules = []
    more = True
    while more:
        more = False
        for r in RULES:
            if r[0][1] in used and r not in rules:
                rules.append(r)
                names(r, used)
                more = True
    return (tuple(b for b in BELIEFS if b[1] in used), tuple(r for r in RULES if r in rules))


def plan(body, ctx=None, head=None):
    return (None, "+!", head or F("go"), ctx, tuple(body))


def run(case, stats):
    import impl
    q = build(ref.tup(case) if not isinstance(case, str) else case)
    b, r = relevant(q)
    goals = (F("a1"), F("a2"), F("a3", X), F("a4"), F("a5"))
    # A for loop sees every answer; an if, a context and a statement see the first one; in rules
    # and below .findall the same holds; afterwards nothing of a failed query may be visible.
    plans = (
        plan([("for", q, (emit(S("f"), X, Y),)), emit(S("g"), X, Y)], head=F("a1")),
        plan([("if", q, (emit(S("i"), X, Y),), (emit(S("e"), X, Y),)), emit(S("j"), X, Y)], head=F("a2")),
        plan([emit(S("c"), X, Y)], ctx=q, head=F("a3", X)),
        plan([emit(S("d"), X, Y)], head=F("a3", X)),
        plan([("q", ("uni", X, F("f", N(2)))), ("if", q, (emit(S("k"), X, Y),)), emit(S("l"), X, Y)], head=F("a4")),
        plan([("q", ("act", ".findall", (F("w", X, Y, Z), F("rule", X, Y), Z))), emit(S("m"), X, Y, Z)], head=F("a5")),
    )
    rules = r + ((F("rule", X, Y), q),)
    messages = []
    # Errors end the run: one goal at a time.
    for g in range(len(goals)):
        use = tuple(p for p in plans if p[2][1] == goals[g][1])
        prog = (b, rules if g == 4 else r, (goals[g],), use)
        msg = impl.conform([("a", prog)], stats, beliefs=False)
        if msg:
            return msg
    return None


# ---- rule sets: variable renaming apart and order of rules

HEADS = [F("h", X), F("h", N(1)), F("h", F("f", X)), F("h", Y), F("h", L(X))]
BODIES = ["true", "px", "py", "x1", "qx", "rxy", "none", "notq"]


def gen_rules(tier):
    n = 3 if tier == "thorough" else 2
    for k in range(1, n + 1):
        for heads in itertools.product(range(len(HEADS)), repeat=k):
            for bodies in itertools.product(BODIES if k < 3 else BODIES[:5], repeat=k):
                yield [heads, bodies]


def run_rules(case, stats):
    import impl
    heads, bodies = ref.tup(case)
    leaves = dict(LEAVES, notq=("not", lit(F("q", X))))
    rules = tuple((HEADS[h], leaves[q]) for h, q in zip(heads, bodies))
    b, _ = relevant(rules)
    main = (("for", lit(F("h", X)), (emit(X, Y),)),
            ("for", ("and", lit(F("h", X)), lit(F("h", Y))), (emit(X, Y),)),
            ("if", lit(F("h", F("f", N(1)))), (emit(X, Y),)),
            ("q", ("act", ".count", (F("h", Y), Z))), emit(Z, X, Y))
    return impl.conform([("a", (b, rules, (F("go"),), (plan(main),)))], stats, beliefs=False)


# ---- heads of two arguments: all ways to match, match in part or not match

HPOOL = [X, Y, N(1), F("a"), F("f", X), F("f", Y), F("f", N(1)), L(X, Y), W]
QPOOL = [X, Y, N(1), F("a"), F("f", X), F("f", F("a")), C(X, Y), W]


def gen_heads(tier):
    n = len(HPOOL) if tier == "thorough" else 6
    pairs = list(itertools.product(range(n), repeat=2))
    for h1 in pairs:
        yield [[h1], 0]
        yield [[h1], 1]
        for h2 in pairs:
            yield [[h1, h2], 0]
    if tier == "thorough":
        few = list(itertools.product(range(4), repeat=2))
        for hs in itertools.product(few, repeat=3):
            yield [hs, 1]


def run_heads(case, stats):
    import impl
    heads, body = ref.tup(case)
    rules = tuple((F("h", HPOOL[a], HPOOL[b]), (("true",), lit(F("p", X)))[body]) for a, b in heads)
    b = (F("p", N(2)), F("h", N(3), F("a")), F("h", N(1), F("f", N(4))))
    main = []
    for q1, q2 in itertools.product(QPOOL, repeat=2):
        q = lit(F("h", q1, q2))
        main.append(("for", q, (emit(X, Y),)))
        main.append(("for", ("or", q, ("uni", Y, N(0))), (emit(X, Y),)))
    main.append(emit(X, Y))
    return impl.conform([("a", (b, rules, (F("go"),), (plan(main),)))], stats, beliefs=False)


# ---- one name with several arities, beliefs and rules

ARB = [F("h"), F("h", annots=(F("a"),)), F("h", N(1)), F("h", N(2)), F("h", N(1), annots=(F("a"),)), F("h", N(1), N(2)), F("h", N(1), F("a"), S("x"))]
ARR = [(F("h"), ("true",)), (F("h"), lit(F("p", X))), (F("h", X), lit(F("p", X))), (F("h", X, Y), ("and", lit(F("h", X)), lit(F("p", Y)))), (F("h", X, F("b"), Z), ("and", lit(F("h")), lit(F("p", X))))]


def gen_arities(tier):
    for rules in itertools.product((0, 1), repeat=len(ARR)):
        for beliefs in itertools.product((0, 1), repeat=len(ARB)):
            if tier == "thorough" or sum(beliefs) <= 3 or sum(beliefs) == len(ARB):
                yield [beliefs, rules]


def run_arities(case, stats):
    import impl
    bs, rs = case
    beliefs = tuple(b for b, u in zip(ARB, bs) if u) + (F("p", N(1)), F("p", N(4)))
    rules = tuple(r for r, u in zip(ARR, rs) if u)
    main = []
    for q in (F("h"), F("h", X), F("h", N(1)), F("h", X, Y), F("h", X, X), F("h", X, Y, Z), F("h", N(1), Y, W)):
        main.append(("for", lit(q), (emit(X, Y, Z),)))
        main.append(("for", ("and", lit(q), lit(F("p", U))), (emit(X, U),)))
        main.append(("if", ("not", lit(q)), (emit(S("none")),)))
        main.append(("q", ("act", ".count", (q, V("N%d" % len(main))))))
        main.append(emit(V("N%d" % (len(main) - 1))))
    return impl.conform([("a", (beliefs, rules, (F("go"),), (plan(main),)))], stats, beliefs=False)


# ---- rules that show when they are tried

THEADS = [F("h"), F("h", X), F("h", N(2))]
TBODIES = [lambda i: eact("r", i), lambda i: ("and", eact("r", i), ("false",)), lambda i: ("and", lit(F("p", X)), eact("r", i, X)), lambda i: ("or", eact("r", i), eact("r2", i)),
           lambda i: ("not", eact("r", i)), lambda i: ("and", ("uni", X, N(i)), ("not", ("and", eact("r", i), ("false",))))]


def eact(name, *args):
    return ("act", ".emit", (F(name),) + tuple(N(a) if isinstance(a, int) else a for a in args))


def gen_tried(tier):
    for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
        for heads in itertools.product(range(len(THEADS)), repeat=n):
            for bodies in itertools.product(range(len(TBODIES) if n < 3 else 4 if n < 4 else 3), repeat=n):
                yield [heads, bodies]


def run_tried(case, stats):
    import impl
    heads, bodies = case
    rules = tuple((THEADS[h], TBODIES[b](i)) for i, (h, b) in enumerate(zip(heads, bodies)))
    main = []
    for q in (F("h"), F("h", X), F("h", N(2))):
        main.append(("for", lit(q), (emit(S("in"), X),)))
        main.append(("for", ("and", lit(q), ("and", eact("mid"), lit(q))), (emit(S("two"), X),)))
        main.append(("if", lit(q), (emit(S("yes"), X),), (emit(S("no"), X),)))
        main.append(("if", ("not", lit(q)), (emit(S("none")),), (emit(S("some")),)))
        main.append(("q", ("act", ".count", (q, V("N%d" % len(main))))))
        main.append(emit(V("N%d" % (len(main) - 1))))
    test = (None, "+!", F("go"), lit(F("h")), tuple(main))
    return impl.conform([("a", ((F("p", N(1)),), rules, (F("go"),), (test, plan(main))))], stats, beliefs=False)


def setup():
    import impl


SUITES = {"tried": (gen_tried, run_tried), "arities": (gen_arities, run_arities), "queries": (gen, run), "rules": (gen_rules, run_rules), "heads": (gen_heads, run_heads), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
