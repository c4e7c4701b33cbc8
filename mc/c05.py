"""C05: the first applicable plan in program order runs, and only that one."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C05"
RULE = ("every library of up to three plans from an alphabet of triggers, heads and contexts, against every event of a small "
        "universe, and every library of up to five plans that differ in their contexts for events of other arities, raised as initial goal, subgoal, separate goal, belief change or message; which plan runs, with which "
        "bindings, and errors are compared with the model; a state is a distinct (program, observations so far)")
ASSUMPTIONS = ["which of several answers of a belief query or of several annotation pairings comes first is not specified"]

X, Y, Z, A = V("X"), V("Y"), V("Z"), V("A")
a, b = F("a"), F("b")


def g(*args, **kw):
    return F("g", *args, **kw)


def lit(t):
    return ("lit", t)


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


HEADS = {
    "X": g(X), "1": g(N(1)), "2": g(N(2)), "_": g(W), "fX": g(F("f", X)), "Xa": g(X, annots=(a,)), "XA": g(X, annots=(A,)),
    "Xab": g(X, annots=(b, a)), "l": g(C(X, Y)), "ll": g(L(X, Y)), "t": g(B(True)), "s": g(S("1")), "XsA": g(X, annots=(F("s", A),)),
    "XX": g(X, X), "XY": g(X, Y), "0": F("g"), "h": F("h", X), "1a": g(N(1), annots=(a,)), "a": g(a), "fXY": g(F("f", X), annots=(F("s", X),)),
}
CTX = {
    "-": None, "t": ("true",), "f": ("false",), "p": lit(F("p", X)), "q": lit(F("q", Y)), "np": ("not", lit(F("p", X))),
    "pq": ("and", lit(F("p", Y)), lit(F("q", Y))), "or": ("or", lit(F("q", X)), ("uni", Y, N(7))), "eq": ("cmp", "==", X, N(1)),
    "lt": ("cmp", "<", X, N(2)), "A": ("cmp", "==", A, b), "none": lit(F("nope", X)), "mem": ("act", ".member", (X, L(N(2), N(1)))),
    "r": lit(F("rr", X, Y)),
}
BELIEFS = (F("p", N(1)), F("q", N(2)), F("p", N(2)))
RULES = ((F("rr", N(2), Y), lit(F("p", Y))), (F("rr", X, F("w")), ("cmp", "==", X, N(1))))

EVENTS = {
    "1": g(N(1)), "2": g(N(2)), "X": g(X), "f1": g(F("f", N(1))), "l12": g(L(N(1), N(2))), "1a": g(N(1), annots=(a,)),
    "1ab": g(N(1), annots=(a, b)), "t": g(B(True)), "s": g(S("1")), "3": g(N(3)), "12": g(N(1), N(2)), "XX": g(X, X), "0": F("g"),
    "1s": g(N(1), annots=(F("s", a), F("s", b))), "fY": g(F("f", Y)), "a": g(a), "XZ": g(X, Z), "f1s": g(F("f", N(1)), annots=(F("s", N(2)), F("s", N(1)))),
}
# How the event comes about; %: trigger of the plans.
KINDS = {"call": "+!", "later": "+!", "initial": "+!", "test": "+?", "add": "+", "del": "-", "told": "+", "achieve": "+!"}

SPECS = [("+", h, "-") for h in HEADS] + [("+", "X", c) for c in CTX if c != "-"] + [("+", "XA", "A"), ("+", "1", "f"), ("+", "XX", "f"), ("o", "X", "-")]
FEW = [("+", "X", "f"), ("+", "1", "-"), ("+", "X", "p"), ("+", "X", "np"), ("+", "XA", "-"), ("+", "1a", "or"), ("+", "X", "-"), ("+", "2", "pq")]
FEWEV = ("1", "2", "X", "1a", "1ab", "3")


def gen(tier):
    for kind in KINDS:
        for ev in EVENTS:
            yield [kind, ev, []]
            for s in SPECS:
                yield [kind, ev, [s]]
    for kind in ("call", "add", "test") if tier != "thorough" else KINDS:
        for ev in EVENTS:
            for x in itertools.product(SPECS, repeat=2):
                yield [kind, ev, x]
    for kind in ("call", "later", "del") if tier != "thorough" else KINDS:
        for ev in FEWEV:
            for x in itertools.product(FEW, repeat=3):
                yield [kind, ev, x]
    if tier == "thorough":
        for ev in FEWEV:
            for x in itertools.product(FEW, repeat=4):
                yield ["call", ev, x]


OTHER = {"+!": "+", "+": "+!", "-": "+", "+?": "+!"}


def run(case, stats):
    import impl
    kind, ev, specs = ref.tup(case)
    trig = KINDS[kind]
    event = EVENTS[ev]
    plans = []
    for i, (t, h, c) in enumerate(specs):
        body = (act(".emit", N(i), X, Y, A),)
        if t == "+" and i == 0:
            body += (("q", ("uni", Y, F("y"))),)
        plans.append((None, trig if t == "+" else OTHER[trig], HEADS[h], CTX[c], body))
    after = (act(".emit", S("after"), X, Y, Z),)
    goals = (F("go"), F("next"))
    pre = (act(".emit", S("before")),)
    if kind == "call":
        body = (("!", event),)
    elif kind == "later":
        body = (("!!", event),)
    elif kind == "test":
        body = (("?", event),)
    elif kind == "add":
        if not ref.is_ground(event):
            return None
        body = (("+", event),)
    elif kind == "del":
        body = (("-", event),)
    elif kind in ("told", "achieve"):
        if kind == "told" and not ref.is_ground(event):
            return None
        body = (act(".send", F("ag"), F("tell" if kind == "told" else "achieve"), event),)
    if kind == "initial":
        # Variables do not occur in initial goals that other goals refer to.
        goals = (event, F("next"))
        main = ()
    else:
        main = ((None, "+!", F("go"), None, pre + body + after),)
    beliefs = BELIEFS
    if kind == "del":
        beliefs += tuple(EVENTS[e] for e in EVENTS if e == ev and ref.is_ground(event)) + ((g(N(1)),) if ev == "X" else ())
    if kind == "test":
        beliefs += (g(N(2)), g(N(1), annots=(a,)))
    nxt = ((None, "+!", F("next"), None, (act(".emit", S("next"), X),)),)
    rules = RULES if any(c == "r" for _, _, c in specs) else ()
    used = any(c not in ("-", "t", "f", "eq", "lt", "A", "none", "mem") for _, _, c in specs)
    if not used:
        beliefs = beliefs[3:]
    return impl.conform([("ag", (beliefs, rules, goals, main + tuple(plans) + nxt))], stats)


# ---- events of other arities, longer libraries

PLAIN = {"-": None, "f": ("false",), "t": ("true",), "q": lit(F("q", Y)), "nq": ("not", lit(F("q", W))), "or": ("or", lit(F("nope")), lit(F("here")))}
SHAPES = {"0": (F("g"), F("g")), "0a": (F("g", annots=(a,)), F("g")), "3": (g(N(1), a, S("x")), g(X, Y, Z)), "~": (F("~g"), F("~g"))}


def gen_plain(tier):
    for shape in SHAPES:
        for kind in KINDS:
            for n in range(1, 4):
                for ctx in itertools.product(PLAIN, repeat=n):
                    yield [kind, shape, ctx]
            four = list(PLAIN) if tier == "thorough" else ("-", "f", "q")
            for n in (4, 5) if shape == "0" or tier == "thorough" else (4,):
                for ctx in itertools.product(four if n == 4 or tier == "thorough" else ("-", "f"), repeat=n):
                    yield [kind, shape, ctx]


def run_plain(case, stats):
    import impl
    kind, shape, ctx = ref.tup(case)
    trig = KINDS[kind]
    event, head = SHAPES[shape]
    plans = tuple((None, trig, head, PLAIN[c], (act(".emit", N(i), Y),)) for i, c in enumerate(ctx))
    body = {"call": ("!", event), "later": ("!!", event), "test": ("?", event), "add": ("+", event), "del": ("-", event)}.get(kind)
    if kind in ("told", "achieve"):
        body = act(".send", F("ag"), F("tell" if kind == "told" else "achieve"), event)
    goals = (event, F("next"))
    main = ((None, "+!", F("next"), None, (act(".emit", S("next")),)),)
    if kind != "initial":
        goals = (F("go"), F("next"))
        main += ((None, "+!", F("go"), None, (act(".emit", S("before")), body, act(".emit", S("after"))),),)
    beliefs = (F("q", N(2)), F("here")) + ((event,) if kind in ("del", "test") else ())
    return impl.conform([("ag", (beliefs, (), goals, main + plans))], stats)


def setup():
    import impl


SUITES = {"selection": (gen, run), "plain": (gen_plain, run_plain), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
