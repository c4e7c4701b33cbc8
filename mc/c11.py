"""C11: withdrawing a goal stops exactly the matching goals, at any moment."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale
import c10

PROPERTY = "C11"
RULE = ("every goal hierarchy of a set (nested, recursive, concurrent, waiting, looping, returning results, belief handlers) against "
        "every withdrawal pattern and every short sequence of withdrawals, new goals and beliefs, where each message arrives at every "
        "step of the receiver's execution; traces and beliefs must be explained by the model; a state is a distinct (case, steps "
        "done per agent, observations), a transition a step of an agent")
DESIGN = ("sender and receiver are stepped under all schedules with one (for sequences two) preemptions, which places each message before "
          "every single step of the receiver; sending and the sender's mark in the trace happen in one step, so that any action of a "
          "withdrawn goal after the mark is seen.")
ASSUMPTIONS = ["annotations of the withdrawn goal do not restrict which goals match"]

X, Y, Z, K = V("X"), V("Y"), V("Z"), V("K")
emit, lit, P, act = c10.emit, c10.lit, c10.P, c10.act
G = lambda *a, **kw: F("g", *a, **kw)
R = F("r")


def work(tag, *mid):
    """A body that does something before and after."""
    return (emit(S(tag)),) + mid + (emit(S(tag + "'")),)


HIER = {
    "nested": ([F("a")], (P(F("a"), *work("a", ("!", G(N(1))))), P(G(X), *work("g", ("!", F("s", X)))), P(F("s", X), *work("s")))),
    "root": ([G(N(1)), F("a")], (P(G(X), *work("g", ("!", F("s", X)))), P(F("s", X), *work("s")), P(F("a"), *work("a")))),
    "rec": ([F("a")], (P(F("a"), *work("a", ("!", G(N(2))))), P(G(N(0)), emit(S("g0"))),
                       P(G(X), emit(S("g"), X), ("!", G(("o", "-", X, N(1)))), emit(S("g'"), X)))),
    "pair": ([G(N(1)), G(N(2)), F("a")], (P(G(X), emit(S("g"), X), ("!", F("s", X)), emit(S("g'"), X)), P(F("s", X), emit(S("s"), X)),
                                          P(F("a"), *work("a", ("!", G(N(3))))))),
    "wait": ([F("a"), F("b")], (P(F("a"), *work("a", ("!", G(N(1))))), P(G(X), *work("g", act(".wait", S("+e(1)")))), P(F("b"), *work("b")))),
    "waitsub": ([F("a"), F("b")], (P(F("a"), *work("a", ("!", G(N(1))))), P(G(X), *work("g", ("!", F("s", X)))),
                                   P(F("s", X), *work("s", act(".wait", S("+e(1)")))), P(F("b"), *work("b", ("+", F("e", N(2))), ("+", F("e", N(1))))))),
    "later": ([F("a")], (P(F("a"), *work("a", ("!!", G(N(1))), ("!!", G(N(2))))), P(G(X), emit(S("g"), X), emit(S("g'"), X)))),
    "for": ([F("a")], (P(F("a"), ("for", act(".range", N(3), X)[1], (emit(X), ("!", G(X)), emit(S("n"), X))), emit(S("end"))), P(G(X), emit(S("g"), X), emit(S("g'"), X)))),
    "result": ([F("a")], (P(F("a"), ("!", G(Y)), emit(S("a"), Y), ("!", F("h", Z)), emit(S("b"), Z)), P(G(X), emit(S("g")), ("q", ("uni", X, N(1))), emit(S("g'"), X)),
                          P(F("h", X), ("q", ("uni", X, N(2))), emit(S("h"))))),
    "handler": ([F("a")], (P(F("a"), *work("a", ("+", G(N(1))), ("!", G(N(1))), ("?", G(N(2))))), P(G(X), *work("bel"), trig="+"), P(G(X), *work("g", ("+", F("e", N(1))))),
                           P(F("e", X), *work("e"), trig="+"), P(G(N(2)), *work("t"), trig="+?"))),
    "loops": ([G(N(1)), F("a")], (P(G(X), ("+", F("n", N(0))), ("while", ("and", lit(F("n", Y)), ("cmp", "<", Y, N(2))), (("-+", F("n", ("o", "+", Y, N(1)))), emit(S("w"), Y),
                                                                                                   ("if", lit(F("n", N(1))), (("!", F("s", Y)),), (emit(S("else")),)))), emit(S("end"))),
                                  P(F("s", X), *work("s")), P(F("a"), *work("a")))),
    "annot": ([F("a")], (P(F("a"), *work("a", ("!", G(N(1), annots=(F("k"),))))), P(G(X, annots=(F("k"),)), *work("gk", ("!", F("s", X)))), P(G(X), *work("g")), P(F("s", X), *work("s")))),
    "twice": ([F("a")], (P(F("a"), *work("a", ("!", G(N(1))), ("!", G(N(1))))), P(G(X), *work("g", ("!", F("h", X)))), P(F("h", X), *work("h", ("!", F("s", X)))), P(F("s", X), *work("s")))),
    "struct": ([F("a")], (P(F("a"), *work("a", ("!", G(F("f", N(1), Y))), ("!", G(L(N(1), N(2)))))), P(G(X), *work("g")))),
    "noargs": ([F("g"), F("a")], (P(F("g"), *work("g", ("!", F("s", N(1))))), P(F("a"), *work("a", ("!", F("g")))), P(F("s", X), *work("s")))),
    "self": ([F("a")], (P(F("a"), *work("a", ("!", G(N(1))))), P(G(X), *work("g", ("!", F("s", X)))), P(F("s", X), *work("s", act(".send", R, F("unachieve"), G(X)))))),
    "selfroot": ([G(N(1)), F("a")], (P(G(X), *work("g", act(".send", R, F("unachieve"), G(X)))), P(F("a"), *work("a")))),
    "waitgone": ([F("a"), G(N(1))], (P(F("a"), *work("a", act(".wait", S("-!g(1)")))), P(G(X), *work("g")))),
    "tailless": ([F("a"), F("b")], (P(F("a"), ("!", G(N(1)))), P(G(X), ("!", F("s", X))), P(F("s", X), emit(S("s"))), P(F("b"), emit(S("b"))))),
    "two": ([G(N(1), N(2)), G(N(2), N(2)), F("a")], (P(G(X, Y), emit(S("g"), X, Y), ("!", F("s", X)), emit(S("g'"), X, Y)), P(F("s", X), emit(S("s"), X)), P(F("a"), *work("a", ("!", G(F("f", N(1)), N(1))))))),
    "twovars": ([F("a")], (P(F("a"), *work("a", ("!", G(Y, Y)), ("!", G(Y, N(1))), ("!", G(N(1), F("f", Y))))), P(G(X, Z), *work("g")))),
    "twosub": ([F("a")], (P(F("a"), *work("a", ("!", G(N(1), N(1))))), P(G(N(1), X), *work("g1", ("!", G(N(2), X)))), P(G(N(2), X), *work("g2", ("!", G(X, N(3))))), P(G(X, Y), *work("gxy")))),
    "names": ([F("~g", N(1)), F("a")], (P(F("~g", X), *work("~g", ("!", F("gg", X)))), P(F("gg", X), *work("gg", ("!", F(".g", X)))), P(F(".g", X), *work(".g", ("!", G(X)))), P(F("a"), *work("a", ("!", F("~g", N(1))))),
                                        P(G(X), *work("g")))),
}
WAITS = {"+e(1)": ("+", F("e", N(1))), "-!g(1)": ("-!", G(N(1)))}
COMMON = (P(F("x"), emit(S("x"))), P(F("e", X), emit(S("e"), X), trig="+"), P(G(X), emit(S("late"), X)), P(G(X, Y), emit(S("late"), X, Y)), P(F("g"), emit(S("late"))), P(F("s", X), emit(S("lates"), X)))
PATTERNS = {
    "g1": G(N(1)), "g2": G(N(2)), "g_": G(W), "gX": G(X), "g": F("g"), "s_": F("s", W), "s1": F("s", N(1)), "a": F("a"), "g12": G(N(1), N(2)),
    "gf": G(F("f", W, N(1))), "gl": G(C(N(1), X)), "g1k": G(N(1), annots=(F("k"),)), "h": F("h", W), "e": F("e", N(1)), "none": F("zzz"), "g0": G(N(0)), "g3": G(N(3)),
    "gXX": G(X, X), "gXY": G(X, Y), "g1_": G(N(1), W), "g_1": G(W, N(1)), "gfXX": G(F("f", X), X), "gXfX": G(X, F("f", X)), "g22": G(N(2), N(2)),
    "~g1": F("~g", N(1)), "~g_": F("~g", W), "~g": F("~g"), "gg_": F("gg", W), ".g_": F(".g", W), "~s": F("~s", W), "~a": F("~a"),
}
OPS = {"+e": ("tell", F("e", N(1))), "!g1": ("achieve", G(N(1))), "!x": ("achieve", F("x")), "-e": ("untell", F("e", N(1)))}


def message(m, i):
    force, term = OPS[m] if m in OPS else ("unachieve", PATTERNS[m])
    return ("q", ("and", ("act", ".send", (R, F(force), term)), ("act", ".emit", (S("sent"), N(i)))))


def gen(tier):
    for c in gen_all(tier):
        if c[0] == "loops" and "!g1" in c[1]:
            continue    # two loops that share a counter need not end
        yield c


def gen_all(tier):
    for h in HIER:
        for p in PATTERNS:
            yield [h, [p], 1]
    pairs = [("g1", "!g1"), ("g1", "!x"), ("g_", "+e"), ("+e", "g_"), ("g1", "g1"), ("s_", "g_"), ("a", "g1"), ("g2", "g1"), ("!g1", "g1"), ("a", "!x")]
    for h in HIER:
        for p in pairs:
            yield [h, p, 1]
    for h in ("nested", "wait", "pair", "rec", "later", "noargs", "selfroot"):
        for p in (("g1", "!g1"), ("s_", "g_"), ("!g1", "g1")):
            yield [h, p, 2]
    if tier == "thorough":
        for h in HIER:
            for p in pairs:
                yield [h, p, 2]
            for p in itertools.product(list(PATTERNS)[:8] + list(OPS), repeat=2):
                yield [h, p, 1]
            for p in itertools.product(("g1", "g_", "s_", "a", "!g1", "+e"), repeat=3):
                yield [h, p, 1]


def run(case, stats):
    h, ms, bound = ref.tup(case)
    goals, plans = HIER[h]
    # Generic plans come last, so that late goals always have one.
    programs = [("r", ((), (), tuple(goals), plans + COMMON)),
                ("ag", ((), (), (F("go"),), (P(F("go"), *[message(m, i) for i, m in enumerate(ms)]),)))]
    return c10.explore(programs, bound, stats, (h, ms), WAITS)


def setup():
    global impl, sched
    c10.setup()
    import impl
    import schedule as sched


SUITES = {"withdraw": (gen, run), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
