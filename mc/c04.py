"""C04: belief base and belief events reflect exactly the operations performed."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C04"
RULE = ("every sequence of belief operations up to the bound (additions, removals with patterns, replacements, abolishments, "
        "messages to self), with event plans that may modify beliefs themselves, and loops whose body modifies what they "
        "iterate over; the events, bindings and the final belief base are compared with the model for every prefix; a state "
        "is a distinct (program, observations so far), a transition a step of the agent")
ASSUMPTIONS = ["which of several matching beliefs a removal removes, and the order of beliefs in a loop, are not specified",
               "-+ with a constant argument replaces beliefs equal to it (documented behaviour of the implementation)",
               "bare booleans and numbers are not annotations of the same literal (see known findings of C20)"]

X, Y, Z, K, A, M = V("X"), V("Y"), V("Z"), V("K"), V("A"), V("M")
a, b = F("a"), F("b")


def p(*args, **kw):
    return F("p", *args, **kw)


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


def emit(*t):
    return act(".emit", *t)


OPS = {
    "+p1": ("+", p(N(1))), "+p2": ("+", p(N(2))), "+ps": ("+", p(S("1"))), "+pt": ("+", p(B(True))),
    "+p1a": ("+", p(N(1), annots=(a,))), "+p1b": ("+", p(N(1), annots=(b,))), "+p1ab": ("+", p(N(1), annots=(b, a))),
    "+p2a": ("+", p(N(2), annots=(F("s", a),))), "+pl": ("+", p(C(N(1), L()))), "+pl2": ("+", p(L(N(1)))),
    "+pe": ("+", p(("o", "+", N(1), N(1)))), "+pf": ("+", p(F("f", Y))), "+p0": ("+", F("p")), "+pp": ("+", p(N(1), N(2))),
    "+q1": ("+", F("q", N(1))),
    "-p1": ("-", p(N(1))), "-p2": ("-", p(N(2))), "-px": ("-", p(X)), "-p_": ("-", p(W)), "-pxa": ("-", p(X, annots=(a,))),
    "-pxA": ("-", p(X, annots=(A,))), "-pxs": ("-", p(X, annots=(F("s", A),))), "-p1y": ("-", p(Y)), "-pxx": ("-", p(X, X)),
    "-p0": ("-", F("p")), "-pt": ("-", p(B(True))), "-p1ab": ("-", p(N(1), annots=(a, b))), "-qx": ("-", F("q", X)),
    "-+p1": ("-+", p(N(1))), "-+px": ("-+", p(X)), "-+pe": ("-+", p(("o", "+", M, N(1)))), "-+q": ("-+", F("q", ("u", "-", M))),
    "-+p1a": ("-+", p(N(1), annots=(a,))), "-+pxA": ("-+", p(X, annots=(A,))), "-+pea": ("-+", p(("o", "+", M, N(1)), annots=(F("s", ("o", "*", M, N(1))), a))),
    "abp": act(".abolish", p(W)), "abp1": act(".abolish", p(N(1))), "abpa": act(".abolish", p(W, annots=(a,))),
    "abpx": act(".abolish", p(X)), "abpA": act(".abolish", p(Y, annots=(A,))),
    "tell1": act(".send", F("ag"), F("tell"), p(N(1))), "untell1": act(".send", F("ag"), F("untell"), p(N(1))),
    "untellx": act(".send", F("ag"), F("untell"), p(X)), "tellY": act(".send", F("ag"), F("tell"), p(F("f", Y))),
}
BINDM = ("q", ("uni", M, N(1)))
CORE = ("+p1", "+p1a", "+pt", "+p2", "-px", "-pxa", "-+p1", "abpa", "-p1", "tell1", "+p1ab")
MINI = ("+p1", "+p2", "+p1a", "-px", "abp1", "-+pe", "-p1y")

EVENTS = {
    "none": (),
    "both": ((None, "+", p(Z), None, (emit(S("add"), Z),)), (None, "-", p(Z), None, (emit(S("del"), Z),)),
             (None, "+", F("q", Z), None, (emit(S("addq"), Z),)), (None, "-", F("q", Z), None, (emit(S("delq"), Z),)),
             (None, "+", p(Z, K), None, (emit(S("add2"), Z, K),)), (None, "-", p(Z, K), None, (emit(S("del2"), Z, K),)),
             (None, "+", F("p"), None, (emit(S("add0")),)), (None, "-", F("p"), None, (emit(S("del0")),))),
    "annot": ((None, "+", p(Z, annots=(a, K)), None, (emit(S("add"), Z, K),)), (None, "-", p(Z, annots=(K,)), None, (emit(S("del"), Z, K),)),
              (None, "+", p(Z, annots=(F("source", K),)), None, (emit(S("src"), Z, K),)),
              (None, "+", p(N(1)), ("lit", p(N(2))), (emit(S("one")),)), (None, "-", p(N(1)), ("not", ("lit", p(N(1)))), (emit(S("gone")),))),
    # Handlers that modify beliefs themselves.
    "react": ((None, "+", p(N(1)), None, (("-", p(N(2))), emit(S("r")), ("+", F("q", N(1))))),
              (None, "-", p(Z), ("not", ("lit", F("q", N(5)))), (("+", F("q", N(5))), ("+", p(N(7))), emit(S("s"), Z))),
              (None, "+", F("q", Z), None, (emit(S("q"), Z),))),
}


def gen_ops(tier):
    for k in (1, 2):
        for ops in itertools.product(OPS, repeat=k):
            for e in EVENTS:
                yield [e, ops]
    for ops in itertools.product(CORE, repeat=3):
        for e in EVENTS:
            yield [e, ops]
    for ops in itertools.product(MINI, repeat=4):
        yield ["both", ops]
    if tier == "thorough":
        for ops in itertools.product(OPS, repeat=3):
            for e in ("both", "annot", "react"):
                yield [e, ops]
        for ops in itertools.product(CORE, repeat=4):
            for e in ("both", "react"):
                yield [e, ops]
        for ops in itertools.product(MINI, repeat=5):
            yield ["both", ops]


def run_ops(case, stats):
    import impl
    e, ops = ref.tup(case)
    # Every operation is its own goal, so that variables are fresh; the
    # last two operations share a plan, so that bindings carry over.
    plans = []
    goals = []
    groups = [[o] for o in ops[:-2]] + [list(ops[-2:])]
    for i, g in enumerate(groups):
        body = [BINDM] if any(o in ("-+pe", "-+q", "-+pea") for o in g) else []
        for o in g:
            body.append(OPS[o])
            body.append(emit(S(o), X, Y, A))
        goals.append(F("g%d" % i))
        plans.append((None, "+!", F("g%d" % i), None, tuple(body)))
    main = (None, "+!", F("go"), None, tuple(("!", g) for g in goals))
    prog = ((), (), (F("go"),), (main,) + tuple(plans) + EVENTS[e])
    return impl.conform([("ag", prog)], stats)


# ---- loops over beliefs that change them

GENS = {
    "px": ("lit", p(X)), "pxq": ("and", ("lit", p(X)), ("lit", F("q", Y))), "or": ("or", ("lit", p(X)), ("lit", p(Y))),
    "pxa": ("lit", p(X, annots=(A,))), "rule": ("lit", F("r", X)), "pp": ("and", ("lit", p(X)), ("lit", p(Y))),
    "notq": ("and", ("lit", p(X)), ("not", ("lit", F("q", X)))),
}
BODY = ("+p2", "+q1", "-px", "-p_", "-p1y", "abp", "-+pe", "-+px", "-qx", "abpx", "+p1a", "-pxA")
INIT = {
    "two": (p(N(1)), p(N(2)), F("q", N(1))), "annots": (p(N(1), annots=(a,)), p(N(1), annots=(b,)), p(N(3)), F("q", N(2))),
    "three": (p(N(1)), p(N(2)), p(N(3)), F("q", N(1)), F("q", N(3))),
}
RULES = ((F("r", X), ("lit", p(X))), (F("r", X), ("lit", F("q", X))))


def gen_loops(tier):
    for g in GENS:
        for i in INIT:
            for k in (1, 2):
                for ops in itertools.product(BODY, repeat=k):
                    for loop in ("for", "if", "nested"):
                        if loop == "nested" and k == 2 and tier != "thorough":
                            continue
                        if i == "three" and k == 2 and tier != "thorough":
                            continue
                        yield [loop, g, i, ops]


def run_loops(case, stats):
    import impl
    loop, g, i, ops = ref.tup(case)
    body = [emit(S("it"), X, Y, A)]
    for o in ops:
        body += [OPS[o], emit(S(o), X, Y)]
    if loop == "nested":
        body = [("for", ("lit", F("q", K)), tuple(body) + (emit(K),))]
    st = ("if" if loop == "if" else "for", GENS[g], tuple(body))
    main = (None, "+!", F("go"), None, (BINDM, st, emit(S("end"), X, Y)))
    prog = (INIT[i], RULES if g == "rule" else (), (F("go"),), (main,) + EVENTS["both"][:2])
    return impl.conform([("ag", prog)], stats)


# ---- operations by concurrent intentions and other agents on the same belief base

def gen_concurrent(tier):
    ops = ("+p1", "-px", "+p1a", "-+pe", "abp", "-p1", "tell1")
    for x in itertools.product(ops, repeat=2):
        for y in itertools.product(ops, repeat=2 if tier == "thorough" else 1):
            for remote in (False, True):
                yield [x, y, remote]


def run_concurrent(case, stats):
    import impl
    x, y, remote = ref.tup(case)

    def body(ops, tag):
        out = [BINDM]
        for o in ops:
            out += [OPS[o], emit(S(tag), S(o), X, Y)]
        return tuple(out)
    plans = ((None, "+!", F("one"), None, body(x, "1")), (None, "+!", F("two"), None, body(y, "2"))) + EVENTS["both"][:2]
    if not remote:
        return impl.conform([("ag", ((), (), (F("one"), F("two")), plans))], stats)
    other = (act(".send", F("ag"), F("tell"), p(N(1))), emit(S("o1")), act(".send", F("ag"), F("untell"), p(W)), emit(S("o2")))
    first = ((), (), (F("one"), F("two")), plans)
    second = ((p(N(4)),), (), (F("x"),), ((None, "+!", F("x"), None, other),) + EVENTS["both"][:2])
    return impl.conform([("ag", first), ("other", second)], stats)


def setup():
    import impl


SUITES = {"operations": (gen_ops, run_ops), "loops": (gen_loops, run_loops), "concurrent": (gen_concurrent, run_concurrent), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
