"""C06: plan bodies execute exactly the statements their control flow prescribes."""
import harness
if __name__ == "__main__":
    harness.reexec()
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C06"
RULE = ("cases are plan bodies enumerated exhaustively by number of nodes over the statement alphabet; each is "
        "executed step by step on the implementation and its trace of actions, final beliefs and error outcome "
        "compared with the model; conditions that count their evaluations are put into every construct with (empty) bodies, pairs and nestings of them; a state is a distinct (program, observations so far) pair, a transition is a step of an agent")
ASSUMPTIONS = ["bodies contain at most the stated number of statements", "loops in the programs terminate"]

X, Y, Z = V("X"), V("Y"), V("Z")


def lit(t):
    return ("lit", t)


def emit(*a):
    return ("q", ("act", ".emit", tuple(a)))


# Leaves are functions of a running label so that every action is identifiable.
LEAVES = {
    "emit": lambda k: emit(N(k), X, Y),
    "fail": lambda k: ("q", ("act", ".fail", ())),
    "call": lambda k: ("!", F("sub", N(k), Y)),
    "bindx": lambda k: ("q", ("uni", X, N(k))),
    "bindy": lambda k: ("q", ("uni", Y, F("f", X, N(k)))),
    "addp": lambda k: ("+", F("p", N(k))),
    "delp": lambda k: ("-", F("p", Z)),
    "later": lambda k: ("!!", F("later", N(k), X)),
    "test": lambda k: ("?", F("p", Y)),
    "true": lambda k: ("q", ("true",)),
    "addr": lambda k: ("-+", F("r", N(k))),
}

CONDS = {
    "t": ("true",),
    "f": ("false",),
    "px": lit(F("p", X)),
    "qx": lit(F("q", X)),
    "eq": ("cmp", "==", N(1), N(1)),
    "notq": ("not", lit(F("q", X))),
    "notp": ("not", lit(F("p", X))),
    "or": ("or", ("uni", X, N(1)), ("uni", X, N(2))),
    "and": ("and", lit(F("p", X)), lit(F("s", Y))),
    "tt": ("or", ("not", lit(F("q", X))), ("not", lit(F("q", Y)))),
    "py": lit(F("p", Y)),
    "rng": ("act", ".range", (N(2), Y)),
    "sy": lit(F("s", Y)),
}
# Loops that end: the body starts (or ends) by consuming what the condition needs.
WHILES = {
    "wx": (lit(F("w", Z)), [("-", F("w", Z))], []),
    "n": (("and", lit(F("n", Z)), ("cmp", "<", Z, N(2))), [], [("-+", F("n", ("o", "+", Z, N(1))))]),
    "wf": (("false",), [], []),
    "wn": (("not", lit(F("done"))), [], [("+", F("done"))]),
}

BELIEFS = (F("p", N(1)), F("p", N(2)), F("s", N(5)), F("w", N(1)), F("w", N(2)), F("n", N(0)), F("r", N(0)))


def stmts(k, alpha):
    """Statements with exactly k nodes (as shapes)."""
    leaves, ifs, fors, whiles = alpha
    if k == 1:
        for x in leaves:
            yield (x,)
    for body in seqs(k - 1, alpha):
        for c in ifs:
            yield ("if", c, body)
        for c in fors:
            yield ("for", c, body)
        for c in whiles:
            yield ("while", c, body)
    for i in range(k):
        for a in seqs(i, alpha):
            for b in seqs(k - 1 - i, alpha):
                for c in ifs:
                    yield ("ifelse", c, a, b)


_cache = {}


def seqs(k, alpha):
    key = (k, alpha)
    if key not in _cache:
        if k == 0:
            _cache[key] = [()]
        else:
            out = []
            for i in range(1, k + 1):
                rest = seqs(k - i, alpha)
                for s in stmts(i, alpha):
                    for r in rest:
                        out.append((s,) + r)
            _cache[key] = out
    return _cache[key]


def iseqs(k, alpha):
    """As seqs, but lazily at the top level."""
    for i in range(1, k + 1):
        rest = seqs(k - i, alpha)
        for s in stmts(i, alpha):
            for r in rest:
                yield (s,) + r


FULL = (("emit", "fail", "call", "bindx", "bindy", "addp", "test"), ("t", "f", "px", "notp"), ("px", "or", "tt", "qx"), ("wx", "n"))
MID = (("emit", "bindy", "call"), ("px", "f"), ("px", "tt"), ("wx",))
SMALL = (("emit",), ("px", "f"), ("or",), ("wn",))
TINY = (("emit",), ("t",), ("or",), ("n",))
WIDE = (tuple(LEAVES), tuple(CONDS), tuple(CONDS), tuple(WHILES))


def gen_small(tier):
    for k in (1, 2):
        for s in iseqs(k, WIDE):
            yield s
    for s in iseqs(3, FULL):
        yield s


def gen_deep(tier):
    for s in iseqs(4, SMALL):
        yield s
    if tier == "thorough":
        for s in iseqs(4, MID):
            yield s
        for s in iseqs(5, TINY):
            yield s


def build(shape, counter):
    out = []
    for s in shape:
        counter[0] += 1
        k = counter[0]
        if s[0] in LEAVES:
            out.append(LEAVES[s[0]](k))
        elif s[0] == "if":
            out.append(("if", CONDS[s[1]], build(s[2], counter)))
        elif s[0] == "ifelse":
            out.append(("if", CONDS[s[1]], build(s[2], counter), build(s[3], counter)))
        elif s[0] == "for":
            out.append(("for", CONDS[s[1]], build(s[2], counter)))
        elif s[0] == "while":
            cond, pre, post = WHILES[s[1]]
            out.append(("while", cond, tuple(pre) + build(s[2], counter) + tuple(post)))
        else:
            raise AssertionError(s)
    return tuple(out)


def names(x, acc):
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == "f":
            acc.add(x[1])
        for y in x:
            names(y, acc)
    return acc


HELPERS = (
    (None, "+!", F("sub", V("K"), V("R")), lit(F("p", V("P"))),
     (emit(S("sub"), V("K")), ("q", ("uni", V("R"), V("K"))))),
    (None, "+!", F("sub", V("K"), V("R")), None, (emit(S("sub2"), V("K"), V("R")),)),
    (None, "+!", F("later", V("K"), V("A")), None, (emit(S("later"), V("K"), V("A")),)),
    (None, "+", F("p", V("K")), lit(F("p", N(1))), (emit(S("added"), V("K")),)),
)


def program(shape):
    body = (emit(X, Y),) + build(shape, [0]) + (emit(X, Y),)
    used = names(body, set())
    plans = [(None, "+!", F("go"), None, body)]
    plans += [p for p in HELPERS if p[2][1] in used and (p[1] != "+" or ("addp",) in shape)]
    for p in plans[1:]:
        names(p, used)
    # Only what the body refers to, to keep programs short; always something queued behind it.
    goals = (F("go"), F("next"))
    plans.append((None, "+!", F("next"), None, (emit(X),)))
    return (tuple(b for b in BELIEFS if b[1] in used), (), goals, tuple(plans))


def run(case, stats):
    import impl
    prog = program(ref.tup(case))
    return impl.conform([("a", prog)], stats)


# ---- conditions that can tell how often they are evaluated

def tick(k, v):
    return ("act", ".tick", (N(k), v))


def counted(k):
    v, u = V("V%d" % k), V("U%d" % k)
    small = lambda n: ("cmp", "<", v, N(n))
    return {
        "t1": ("and", tick(k, v), small(2)), "t3": ("and", tick(k, v), small(4)), "t0": ("and", tick(k, v), small(1)),
        "tp": ("and", tick(k, v), ("and", small(3), lit(F("p", X)))), "pt": ("and", lit(F("s", X)), ("and", tick(k, v), small(3))),
        "or": ("or", ("and", tick(k, v), small(2)), ("and", tick(k, u), ("cmp", "<", u, N(5)))),
        "not": ("not", ("and", tick(k, v), ("cmp", ">", v, N(2)))), "rule": ("and", lit(F("counting", N(k), v)), small(3)),
        "two": ("and", ("act", ".tick", (N(k), v)), ("and", ("act", ".tick", (N(k + 100), u)), ("cmp", "<", ("o", "+", v, u), N(6)))),
    }


# What is found lazily or eagerly must not matter.
IN_FOR = ("t1", "t0", "tp", "not", "rule", "two")
COUNTED = tuple(counted(0))
BODIES = ((), ("emit",), ("fail",), ("call",), ("true",), ("bindy",), ("addp",))


def counted_stmts(bodies, conds=COUNTED):
    for c in conds:
        for b in bodies:
            yield ["if", c, b]
            yield ["while", c, b]
            if c in IN_FOR:
                yield ["for", c, b]
            for b2 in bodies[:3]:
                yield ["ifelse", c, b, b2]


def gen_counted(tier):
    one = list(counted_stmts([list(b) for b in BODIES]))
    few = list(counted_stmts([[], ["emit"]], COUNTED if tier == "thorough" else ("t1", "t3", "or", "not")))
    for a in one:
        yield [a]
    # One after the other and one in the other.
    for a in few:
        for b in one if tier == "thorough" else few:
            yield [a, b]
    for a in few:
        for c in COUNTED:
            for kind in ("if", "while", "for"):
                if kind != "for" or c in IN_FOR:
                    yield [[kind, c, [a]]]
                    yield [[kind, c, [a, "emit"]]]
            yield [["ifelse", c, [a], []]]
            yield [["ifelse", c, [], [a]]]


def build_counted(shape, counter):
    out = []
    for s in shape:
        counter[0] += 1
        k = counter[0]
        if isinstance(s, str):
            out.append(LEAVES[s](k))
            continue
        cond = counted(k)[s[1]]
        bodies = [build_counted(b, counter) for b in s[2:]]
        out.append(("if" if s[0] == "ifelse" else s[0], cond) + tuple(bodies))
    return tuple(out)


def model_tick(world, agent, args, s):
    counts = world.__dict__.setdefault("COUNTS", {})
    k = ref.ground(args[0], s)
    counts[k] = counts.get(k, 0) + 1
    world.emit((agent.name, S("tick"), k, N(counts[k])))
    r = ref.unify(args[1], N(counts[k]), s)
    if r is not None:
        yield r


def run_counted(case, stats):
    import impl
    import agentspeak
    body = build_counted(case, [0])
    plans = [(None, "+!", F("go"), None, body + (emit(S("end"), X),))] + [p for p in HELPERS if p[2][1] == "sub"]
    rules = [(F("counting", X, Y), ("act", ".tick", (X, Y)))]
    prog = ((F("p", N(1)), F("p", N(2)), F("s", N(5))), rules, (F("go"),), tuple(plans))

    def extra(actions, trace):
        counts = {}

        @actions.add(".tick", 2)
        def _tick(agent, term, intention):
            k = agentspeak.evaluate(term.args[0], intention.scope)
            counts[k] = counts.get(k, 0) + 1
            trace.append((agent.name, S("tick"), N(float(k)), N(float(counts[k]))))
            if agentspeak.unify(term.args[1], counts[k], intention.scope, intention.stack):
                yield
    return impl.conform([("a", prog)], stats, extra=extra, model_actions={".tick": model_tick})


def setup():
    import impl


SUITES = {"small": (gen_small, run), "deep": (gen_deep, run), "counted": (gen_counted, run_counted), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
