"""C07: subgoals receive arguments, return results, and keep variables apart."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale
import shapes

PROPERTY = "C07"
RULE = ("calls: every combination of argument patterns of the call, earlier bindings of the caller, parameter patterns of the "
        "plan and plan bodies; graphs: small call graphs including recursion; concurrent: several instances of the same plans "
        "suspended at events and resumed in every order; depths: chains of up to five goals, tests and belief events that give results back; nested: calls within every nesting of two control structures, called by a goal or a test, whose plans compute their results within control structures; shapes: structures of every kind with the same variables in several places, taken apart by the callee; wide: calls with four arguments, every combination of patterns, against heads that repeat and nest parameters; the values seen by caller and callee at every point are compared with "
        "the model; a state is a distinct (program, observations so far), a transition a step of the agent")
ASSUMPTIONS = ["calls whose only solution is an infinite term are excluded"]

X, Y, Z, P, Q, R = V("X"), V("Y"), V("Z"), V("P"), V("Q"), V("R")


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


def emit(*t):
    return act(".emit", *t)


def uni(x, y):
    return ("q", ("uni", x, y))


ARGS = {"X": X, "Y": Y, "fX": F("f", X), "XY": L(X, Y), "X|Y": C(X, Y), "_": W, "1": N(1), "fan": F("f", Y, annots=(F("k", X),)), "gg": F("g", X, L(F("f", X), Y))}
PRIORS = {"-": (), "3": (uni(X, N(3)),), "fZ": (uni(X, F("f", Z)),), "XY": (uni(X, Y),), "X1Y": (uni(Y, C(N(1), X)),),
          "ZY": (uni(Z, Y), uni(X, L(Z)))}
PARAMS = {"P": P, "Q": Q, "fP": F("f", P), "P|Q": C(P, Q), "1": N(1), "_": W, "PQ": L(P, Q), "fan": F("f", P, annots=(F("k", Q),))}
BODIES = {
    "-": (), "P1": (uni(P, N(1)),), "PQ": (uni(P, Q),), "Pf": (uni(P, F("f", R)), emit(R)), "Q[": (uni(Q, C(P, R)), uni(R, L(N(2)))),
    "sub": (("!", F("inner", P, Q)), emit(P, Q)), "subsub": (("!", F("inner", R, P)), ("!", F("inner", Q, R)),),
    "late": (("!!", F("inner", P, Q)), uni(P, N(8))), "XY": (uni(X, N(4)), uni(Y, N(5)), emit(X, Y)),
    "for": (("for", ("act", ".range", (N(2), R)), (("!", F("inner", V("T"), R)), emit(V("T"), R))), uni(P, N(6))),
    "fail": (uni(P, N(1)), act(".fail")), "QPR": (uni(Q, F("h", P, R)), uni(P, L(R, R)), uni(R, N(7))),
}
INNER = ((None, "+!", F("inner", V("A"), V("B")), None, (emit(S("in"), V("A"), V("B"), X), ("q", ("uni", V("A"), F("r", V("B")))), uni(X, N(0)))),
         (None, "+!", F("inner", V("A"), V("A")), None, (emit(S("never")),)))


def gen_calls(tier):
    full = tier == "thorough"
    for p in PRIORS:
        for x in itertools.product(ARGS, repeat=2):
            for h in itertools.product(PARAMS, repeat=2):
                for body in BODIES:
                    if not full and (x[0] not in ("X", "fX", "X|Y") and h[0] not in ("P", "fP") or
                                     body in ("late", "XY", "fail", "for", "subsub") and p not in ("-", "X1Y") or x[1] in ("1", "_") and body not in ("PQ", "sub") or
                                     h[1] in ("_", "1") and body != "-"):
                        continue
                    yield [p, x, h, body]


def run_calls(case, stats):
    import impl
    p, x, h, body = ref.tup(case)
    goal = F("sub", *[ARGS[k] for k in x])
    head = F("sub", *[PARAMS[k] for k in h])
    main = PRIORS[p] + (("!", goal), emit(X, Y, Z, P))
    plans = ((None, "+!", F("go"), None, main),
             (None, "+!", head, None, (emit(S("s"), P, Q, X),) + BODIES[body]))
    if "sub" in body or body in ("late", "for"):
        plans += INNER
    return impl.conform([("ag", ((), (), (F("go"),), plans))], stats)


# ---- call graphs

STEPS = {
    "e": lambda k: emit(N(k), X, Y), "x": lambda k: uni(X, N(k)), "y": lambda k: uni(Y, F("f", X)),
    "aXY": lambda k: ("!", F("a", X, Y)), "bYX": lambda k: ("!", F("b", Y, X)), "bZZ": lambda k: ("!", F("b", Z, Z)),
    "aXX": lambda k: ("!", F("a", X, X)), "b[": lambda k: ("!", F("b", C(X, Z), Y)), "tXY": lambda k: ("?", F("a", X, Y)),
    "lat": lambda k: ("!!", F("b", X, Y)),
}
ORDER = ("e", "x", "y", "aXY", "bYX", "bZZ", "b[", "aXX", "tXY", "lat")


def gen_graphs(tier):
    # go calls a, a may call b, b is a leaf: no unbounded recursion.
    leaf = ("x", "y", "e")
    mid = ("x", "y", "bYX", "bZZ", "b[", "lat")
    top = ("aXY", "aXX", "x", "bYX", "tXY")
    n = 3 if tier == "thorough" else 2
    for t in itertools.product(top, repeat=n):
        for m in itertools.product(mid, repeat=2):
            for l in itertools.product(leaf, repeat=1 if tier != "thorough" else 2):
                for heads in range(4):
                    yield [t, m, l, heads]


def run_graphs(case, stats):
    import impl
    t, m, l, heads = ref.tup(case)

    def body(steps, k):
        out = [emit(N(k), X, Y, Z)]
        for i, s in enumerate(steps):
            out += [STEPS[s](k + i + 1), emit(N(k + i + 1), X, Y, Z)]
        return tuple(out)
    ha = [F("a", X, Y), F("a", Y, X), F("a", X, X), F("a", Z, C(X, Y))][heads]
    hb = [F("b", X, Y), F("b", Y, Z), F("b", X, X), F("b", X, F("f", Y))][heads]
    plans = ((None, "+!", F("go"), None, body(t, 10)), (None, "+!", ha, None, body(m, 20)), (None, "+!", hb, None, body(l, 30)),
             (None, "+!", F("a", V("M"), V("N")), None, body(l, 40)), (None, "+!", F("b", V("M"), V("N")), None, body(("x",), 50)))
    beliefs = ()
    if "tXY" in t:
        beliefs = (F("a", N(1), F("g", N(2))),)
    return impl.conform([("ag", (beliefs, (), (F("go"), F("b", N(1), V("U"))), plans))], stats)


# ---- recursion: the argument travels down and the result up

def gen_recursion(tier):
    depths = range(0, 6 if tier != "thorough" else 9)
    for d in depths:
        for down in ("num", "list", "nest"):
            for up in ("acc", "res", "cons", "both", "swap"):
                for order in ("before", "after", "twice"):
                    if order == "twice" and d > 4:
                        continue
                    yield [d, down, up, order]


def run_recursion(case, stats):
    import impl
    d, down, up, order = case
    n, m, res, t, h = V("N"), V("M"), V("Res"), V("T"), V("H")
    if down == "num":
        start, base, pat, nxt = N(d), N(0), n, ("o", "-", n, N(1))
        ctx = ("cmp", ">", n, N(0))
    elif down == "list":
        start, base, pat, nxt = L(*[N(i) for i in range(d)]), L(), C(h, t), t
        ctx = None
    else:
        start = N(0)
        for i in range(d):
            start = F("s", start)
        base, pat, nxt, ctx = N(0), F("s", m), m, None
    sub = V("Sub")
    cur = n if down == "num" else h if down == "list" else m
    call = ("!", F("rec", nxt, sub))
    combine = {"acc": uni(res, F("k", sub)), "res": uni(res, sub), "cons": uni(res, C(cur, sub)),
               "both": uni(res, F("p", sub, cur)), "swap": uni(L(sub, cur), L(V("S1"), V("S2")))}[up]
    body = [emit(S("down"), cur, res)]
    if order == "before":
        body += [combine, call]
    elif order == "after":
        body += [call, combine]
    else:
        body += [call, ("!", F("rec", nxt, V("Sub2"))), combine, emit(V("Sub2"))]
    body += [emit(S("up"), cur, res, sub)]
    plans = ((None, "+!", F("rec", base, F("fin")), None, (emit(S("base")),)),
             (None, "+!", F("rec", pat, res), ctx, tuple(body)),
             (None, "+!", F("go", V("A")), None, (("!", F("rec", start, V("A"))), emit(V("A")))))
    return impl.conform([("ag", ((), (), (F("go", X), F("rec", start, Y)), plans))], stats)


# ---- concurrent instances

WAITS = {"+w(1)": ("+", F("w", N(1))), "+w(2)": ("+", F("w", N(2))), "+w(3)": ("+", F("w", N(3))), "+w(_)": ("+", F("w", W)),
         "+!next": ("+!", F("next"))}
INST = {
    "a": ((emit(S("a"), P, Q, X), act(".wait", S("+w(1)")), uni(X, P), emit(P, Q, X)), F("a", P, Q)),
    "b": ((uni(X, F("f", P)), act(".wait", S("+w(2)")), ("!", F("c", X, Q)), emit(P, Q, X)), F("b", P, Q)),
    "c": ((emit(S("c"), P, Q), act(".wait", S("+w(_)")), uni(Q, F("done", P)), emit(S("cc"), P, Q, X)), F("c", P, Q)),
    "d": ((("for", ("act", ".member", (X, L(P, N(2)))), (act(".wait", S("+w(_)")), emit(S("d"), X, P, Q), ("if", ("uni", Q, X), (emit(S("q"), Q),)))), emit(X, Q)),
          F("d", P, Q)),
}
GOALS = (("a", 1), ("a", 2), ("b", 1), ("c", 1), ("d", 1), ("b", 3))


def gen_concurrent(tier):
    n = 3 if tier == "thorough" else 2
    for goals in itertools.product(range(len(GOALS)), repeat=n):
        for ev in itertools.product((1, 2, 3), repeat=4 if tier == "thorough" else 3):
            for shared in (False, True):
                yield [goals, ev, shared]




def run_concurrent(case, stats):
    import impl
    goals, ev, shared = ref.tup(case)
    initial = []
    mains = []
    for i, gi in enumerate(goals):
        name, k = GOALS[gi]
        if shared:
            # As subgoals of instances of one plan, returning results.
            initial.append(F("start", N(i), F(name, N(k), Y)))
            mains.append((None, "+!", F("start", N(i), F(name, X, Y)), None,
                          (("!", F(name, X, Y)), emit(S("end"), N(i), X, Y))))
        else:
            initial.append(F(name, N(k), Y))
    driver = []
    for e in ev:
        driver += [("+", F("w", N(e))), ("-", F("w", N(e)))]
    plans = tuple(mains) + tuple((None, "+!", head, None, body) for body, head in INST.values()) + (
        (None, "+!", F("drive"), None, tuple(driver)),)
    return impl.conform([("ag", ((), (), tuple(initial) + (F("drive"),), plans))], stats, waits=WAITS)


# ---- calls within control structures

TICK = ("act", ".range", (N(2), V("I")))


def wrap(kind, inner):
    i = ("lit", F("n", V("I")))
    return {
        "-": inner,
        "if": (("if", ("true",), inner, ()),),
        "ifq": (("if", ("lit", F("n", V("I"))), inner, (emit(S("never")),)),),
        "else": (("if", ("lit", F("nope")), (emit(S("never")),), inner),),
        "for": (("for", TICK, inner),),
        "forq": (("for", i, inner),),
        "while": (("while", ("lit", F("more")), (("-", F("more")),) + inner),),
        "forif": (("for", TICK, (("if", ("cmp", "==", V("I"), N(1)), inner, (emit(S("other"), X, Y),)),)),),
        "iffor": (("if", i, (("for", ("act", ".range", (N(2), V("J"))), inner),), ()),),
        "forfor": (("for", TICK, (("for", ("act", ".range", (N(2), V("J"))), inner), emit(S("mid"), X, Y))),),
        "whilefor": (("while", ("lit", F("more")), (("-", F("more")), ("for", TICK, inner), emit(S("mid"), X, Y))),),
    }[kind]


WRAPS = ("-", "if", "ifq", "else", "for", "forq", "while", "forif", "iffor", "forfor", "whilefor")
NESTGOALS = {"X": (F("sub", X), F("sub", P)), "fX": (F("sub", F("f", X)), F("sub", P)), "fXf": (F("sub", F("f", X)), F("sub", F("f", P))), "l": (F("sub", C(X, Y)), F("sub", C(P, Q))),
             "XY": (F("sub", X, Y), F("sub", P, Q)), "XX": (F("sub", X, X), F("sub", P, Q)), "X1": (F("sub", X, N(1)), F("sub", P, Q)), "0": (F("sub"), F("sub")), "ann": (F("sub", X, annots=(F("k", Y),)), F("sub", P, annots=(F("k", Q),)))}
NESTBODIES = {"P": (uni(P, N(5)),), "PQ": (uni(P, F("g", Q)), uni(Q, N(6))), "Q": (("q", ("uni", Q, L(P))),), "in": (("!", F("inner", R)), ("if", ("uni", P, F("f", R)), ())), "emit": ()}


def gen_nested(tier):
    for w in WRAPS:
        for g in NESTGOALS:
            for b in NESTBODIES:
                for v in WRAPS if tier == "thorough" else (WRAPS if w in ("-", "if", "for", "while") else ("-", "for")):
                    for kind in ("!", "?"):
                        yield [w, g, b, v, kind]


def run_nested(case, stats):
    import impl
    w, g, b, v, kind = case
    goal, head = NESTGOALS[g]
    main = (emit(S("a"), X, Y),) + wrap(w, ((kind, goal), emit(S("r"), X, Y))) + (emit(S("z"), X, Y), (kind, goal), emit(S("y"), X, Y))
    body = (emit(S("s"), P, Q),) + wrap(v, NESTBODIES[b] + (emit(S("t"), P, Q),)) + (emit(S("e"), P, Q),)
    plans = ((None, "+!", F("go"), None, main), (None, "+" + kind, head, None, body),
             (None, "+!", F("inner", X), None, (("if", ("uni", X, F("i", Y)), (("if", ("uni", Y, N(3)), ()),)),)))
    return impl.conform([("ag", ((F("more"), F("n", N(7))), (), (F("go"),), plans))], stats)


# ---- long chains of calls

CHAINED = {"X": lambda v: v, "f": lambda v: F("f", v), "l": lambda v: C(v, L()), "same": lambda v: v}


def gen_depths(tier):
    for d in range(1, 8 if tier == "thorough" else 6):
        for kinds in itertools.product("!?+", repeat=d):
            for c in CHAINED if d < 5 or tier == "thorough" else ("X", "f"):
                yield ["".join(kinds), c]


def run_depths(case, stats):
    """Every level calls the next one as a goal, a test or by adding a belief, and gives its result back."""
    import impl
    kinds, c = case
    w = CHAINED[c]
    plans = []
    for i, k in enumerate(kinds + "."):
        before = kinds[i - 1] if i else None
        body = [emit(N(i), X, Y)]
        if before == "+":
            # A belief is ground: there is nothing to give back.
            body.append(("!", F("fresh", Y)))
            body.append(emit(N(i), Y))
        result = Y if before == "+" or before is None else X
        if k == ".":
            body.append(("if", ("uni", result, F("stop", N(i))), ()))
        elif k == "+":
            body += [("+", F("c%d" % (i + 1), N(i))), ("if", ("uni", result, N(i)), ())]
        else:
            inner = result if c == "same" else w(Z)
            body.append((k, F("c%d" % (i + 1), inner)))
            if c != "same":
                body.append(emit(S("mid"), Z))
                body.append(("if", ("uni", result, F("r", Z)), ()))
        body.append(emit(N(-i), X, Y, Z))
        head = F("go") if before is None else F("c%d" % i, X)
        plans.append((None, "+!" if before is None else "+" if before == "+" else "+" + before, head, None, tuple(body)))
    plans.append((None, "+!", F("fresh", X), None, (emit(S("fresh")),)))
    return impl.conform([("ag", ((), (), (F("go"),), tuple(plans)))], stats)


# ---- many arguments

WIDE = {"X": X, "Y": Y, "_": W, "1": N(1), "f_": F("f", W, X), "_|X": C(W, Y)}
HEADS = (("A", "B", "C", "D"), ("A", "A", "B", "B"), ("A", "B", "A", "B"), ("A", "B", "B", "A"), ("A", "1", "2", "B"), ("A", "B", "1", "2"), ("1", "2", "A", "B"), ("A", "B", "C", "fCD"), ("fAB", "A", "C", "B"), ("_", "_", "A", "A"))
LETTERS = {"A": V("A"), "B": V("B"), "C": V("C"), "D": V("D"), "1": N(1), "2": N(2), "fCD": F("f", V("C"), V("D")), "fAB": F("f", V("A"), V("B")), "_": W}


def gen_wide(tier):
    kinds = ("!", "?", "!!", "+", "rule", "!", "?")
    k = 0
    for args in itertools.product(WIDE, repeat=4):
        for h in range(len(HEADS)):
            k += 1
            for kind in kinds[:5] if tier == "thorough" else (kinds[k % 7],):
                yield [list(args), h, kind]


def run_wide(case, stats):
    import impl
    args, h, kind = case
    goal = F("sub", *[WIDE[k] for k in args])
    head = F("sub", *[LETTERS[k] for k in HEADS[h]])
    seen = emit(S("s"), *[V(c) for c in "ABCD"])
    bind = tuple(("if", ("uni", V(c), N(i)), (), ()) for i, c in enumerate("AC"))
    rules = ()
    if kind == "rule":
        rules = ((head, ("and", ("uni", V("A"), N(7)), ("uni", V("B"), F("g", V("C"))))),)
        main = (("for", ("lit", goal), (emit(X, Y),)),)
        plans = ()
    else:
        if kind == "+" and not ref.is_ground(goal):
            # Events of messages can have variables.
            main = (act(".send", F("ag"), F("achieve"), goal), emit(X, Y))
            kind = "!"
        else:
            main = ((kind, goal), emit(X, Y))
        trigger = {"!": "+!", "!!": "+!", "?": "+?", "+": "+"}[kind]
        plans = ((None, trigger, head, None, (seen,) + bind + (seen,)),)
        if trigger != "+":
            plans += ((None, trigger, F("sub", *[V(c) for c in "ABCD"]), None, (emit(S("else")), seen)),)
    return impl.conform([("ag", ((), rules, (F("go"),), ((None, "+!", F("go"), None, main),) + plans))], stats)


# ---- structures that hold the same variable several times

def gen_shapes(tier):
    for kind, leaves in shapes.terms(tier):
        for how in ("!", "!!", "?", "head", "early"):
            yield [kind, leaves, how]


def run_shapes(case, stats):
    import impl
    kind, leaves, how = case
    t = shapes.term(kind, leaves)
    fresh = shapes.KINDS[kind](tuple(V("P%d" % i) for i in range(len(leaves))))
    ps = [V("P%d" % i) for i in range(len(leaves))]
    # The callee takes it apart and binds one part after another.
    head = F("sub", fresh) if how == "head" else F("sub", P)
    body = (() if how == "head" else (uni(P, fresh),)) + (emit(S("s"), *ps),)
    for i, v in enumerate(ps):
        body += (("if", ("uni", v, N(i + 2)), (emit(S("b"), *ps),), ()),)
    call = "?" if how == "?" else "!!" if how == "!!" else "!"
    main = ((uni(Y, N(9)),) if how == "early" else ()) + ((call, F("sub", t)), emit(X, Y))
    plans = ((None, "+!", F("go"), None, main), (None, "+?" if how == "?" else "+!", head, None, body))
    return impl.conform([("ag", ((), (), (F("go"),), plans))], stats)


def setup():
    import impl


SUITES = {"shapes": (gen_shapes, run_shapes), "depths": (gen_depths, run_depths), "nested": (gen_nested, run_nested), "wide": (gen_wide, run_wide), "calls": (gen_calls, run_calls), "graphs": (gen_graphs, run_graphs), "recursion": (gen_recursion, run_recursion),
          "concurrent": (gen_concurrent, run_concurrent), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
