"""C10: messages arrive exactly once at exactly the addressed agents."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale
import shapes

PROPERTY = "C10"
RULE = ("every sequence of up to two (thorough: three) sends over an alphabet of receivers, forces and contents between three agents, "
        "one or two messages to receivers with every pair of different sets of beliefs; and every pairing of messages with receiver activities, forwarding chains and concurrent senders, stepped under every "
        "schedule with a bounded number of preemptions; traces and belief bases must be explained by the model, in which agents "
        "interleave arbitrarily; a state is a distinct (case, steps done per agent, observations), a transition a step of an agent")
DESIGN = ("as in C09 raw agent steps are the choice points; the global trace of every schedule and the final belief bases are checked "
          "against the model, whose agents may interleave in any order, by a search guided by the trace (memoised per distinct trace).")
ASSUMPTIONS = ["an achieve message without applicable plan is reported at the sender", "receiver lists without duplicates",
               "unachieve is covered by C11, plan messages by C12"]

X, Y, Z, K = V("X"), V("Y"), V("Z"), V("K")


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


def emit(*t):
    return act(".emit", *t)


def send(to, force, content):
    return act(".send", to, F(force) if isinstance(force, str) else force, content)


def cast(force, content):
    return act(".broadcast", F(force), content)


def lit(t):
    return ("lit", t)


def P(head, *body, **kw):
    return (None, kw.get("trig", "+!"), head, kw.get("ctx"), tuple(body))


def bind(v, t):
    return ("q", ("uni", v, t))


GO = F("go")
R, SS, ME = F("r"), F("s"), F("ag")
TARGETS = {"r": R, "'r'": S("r"), "[r]": L(R), "[r,s]": L(R, SS), "['s',r]": L(S("s"), R), "[]": L(), "me": ME, "[me,r]": L(ME, R),
           "?": F("nobody"), "'?'": S("nobody"), "V": V("To"), "U": V("Un"), "n": N(1), "[r|T]": C(R, V("Tl"))}
CONTENTS = {
    "p1": F("p", N(1)), "p2": F("p", N(2)), "pX": F("p", X), "pK": F("p", K), "pf": F("p", F("f", K, N(1))), "pa": F("p", N(1), annots=(F("a"),)),
    "psrc": F("p", N(1), annots=(F("source", F("other")),)), "K2": V("L"), "num": N(7), "str": S("p"), "plist": F("p", L(N(1), K)),
    "pexp": F("p", ("o", "+", K, N(1))), "p_": F("p", W), "pXX": F("g", X, X), "p": F("p"), "pT": F("p", B(True)), "pS": F("p", S("1")),
    "hX": F("h", X, annots=(F("k", X),)), "hXY": F("h", X, annots=(F("k", F("f", Y, X)),)), "hK": F("h", N(1), annots=(F("k", K),)), "hYX": F("h", L(Y, X), annots=(F("k", X), F("j", Y))),
}
# Receivers record everything they get.
LIBRARY = (
    P(F("p", X, annots=(F("source", Y),)), emit(S("+"), X, Y), trig="+"),
    P(F("p", X, annots=(F("source", Y),)), emit(S("-"), X, Y), trig="-"),
    P(F("p", X, annots=(F("source", Y),)), emit(S("!"), X, Y), bind(X, N(9)), emit(S("!!"), X)),
    P(F("g", X, Y), emit(S("g"), X, Y), bind(X, N(8)), emit(S("g"), X, Y)),
    P(F("h", X, annots=(F("k", Y), F("j", Z))), emit(S("hj"), X, Y, Z), bind(Z, N(7)), emit(S("hj"), X, Y, Z)),
    P(F("h", X, annots=(F("k", Y), F("source", Z))), emit(S("h"), X, Y, Z), ("if", ("uni", X, N(8)), ()), emit(S("h"), X, Y, Z)),
    P(F("h", X, annots=(F("k", Y),)), emit(S("+h"), X, Y), trig="+"),
    P(F("h", X, annots=(F("k", Y),)), emit(S("-h"), X, Y), trig="-"),
)
SETUP = (bind(K, N(3)), bind(V("L"), F("p", F("f", K))), bind(V("To"), L(F("r"))), bind(V("Tl"), L(SS)))
TAIL = (emit(S("x"), X), bind(X, N(4)), emit(S("y"), X))


def op(m):
    to, force, content = m
    if to == "*":
        return cast(force, CONTENTS[content])
    return send(TARGETS[to], force, CONTENTS[content])


def model_error(world, err):
    return None


def judge(programs, stats, key, waits=None):
    """Returns a check(run, error) function that compares with the model, memoised per trace."""
    memo = {}

    def check(run, error):
        items = run.items()
        final = [run.beliefs(a) for a in run.agents]
        k = (tuple(items), repr(final) if error is None else None, error is None)
        if k not in memo:
            memo[k] = verdict(items, final, error)
        return memo[k]

    def verdict(items, final, error):
        def build(chooser, expected):
            world = impl.ModelWorld(programs, chooser, expected)
            world.WAITS = waits or {}
            return world

        def accept(world, err):
            if (err is None) != (error is None):
                return "model: %r, implementation: %r" % (err, error)
            if error is None:
                model = [sorted(world.agents[n].beliefs, key=repr) for n, _ in programs]
                if model != final:
                    return "beliefs differ: model %r, implementation %r" % (model, final)
            return None
        try:
            ok, explored, why = ref.outcomes_match(build, items, accept, 20000)
        except (ref.Limit, ref.Cyclic):
            stats.count("outside_model")
            return None
        stats.validated += 1
        stats.count("model_paths", explored)
        if not ok:
            return "program\n%s\nobserved %s, error %r, final %s\nnot explained by the model: %s" % (
                "\n".join("%% %s\n%s" % (n, ref.program_text(p)) for n, p in programs), items, error, final, why)
        return None
    return check


def explore(programs, bound, stats, key, waits=None):
    texts = [(n, ref.program_text(p)) for n, p in programs]
    check = judge(programs, stats, key, waits)
    return sched.explore(lambda: impl.Run(texts, cached=True), bound, stats, key, check)


# ---- sequences of messages to passive receivers

FORCES = ("tell", "untell", "achieve")


def messages():
    for t in TARGETS:
        yield (t, "tell", "p1")
    for f in FORCES:
        for c in CONTENTS:
            yield ("r", f, c)
            yield ("*", f, c)
            yield ("[r,s]", f, c)
    for t in TARGETS:
        yield (t, "achieve", "pK")
    yield ("r", "unknown", "p1")
    yield ("*", "unknown", "p1")


FEW = [("r", "tell", "p1"), ("r", "tell", "pK"), ("r", "untell", "p1"), ("r", "untell", "p_"), ("[r,s]", "tell", "p1"), ("*", "tell", "pa"),
       ("r", "achieve", "pX"), ("s", "tell", "p1"), ("me", "tell", "p1"), ("me", "achieve", "p2"), ("*", "untell", "p1"), ("*", "achieve", "pK"),
       ("r", "tell", "psrc"), ("r", "untell", "psrc"), ("r", "achieve", "pXX"), ("r", "untell", "pX"), ("[me,r]", "untell", "pa"),
       ("[r,s]", "achieve", "pX"), ("r", "tell", "pT"), ("r", "untell", "pT"), ("r", "tell", "pS")]
TARGETS["s"] = SS


def gen_messages(tier):
    for m in messages():
        yield [[m], 1]
    for a, b in itertools.product(FEW, repeat=2):
        yield [[a, b], 1 if tier == "thorough" else 0]
    for a, b in itertools.product(FEW[:8], repeat=2):
        yield [[a, b], 1]
    few = FEW[:12] if tier == "thorough" else FEW[:7]
    for ms in itertools.product(few, repeat=3):
        yield [ms, 0]
    if tier == "thorough":
        for ms in itertools.product(FEW[:6], repeat=3):
            yield [ms, 1]
        for a, b in itertools.product(FEW[:6], repeat=2):
            yield [[a, b], 2]
        for ms in itertools.product(FEW[:6], repeat=4):
            yield [ms, 0]


def run_messages(case, stats):
    ms, bound = ref.tup(case)
    body = SETUP + tuple(op(m) for m in ms) + TAIL
    programs = [("ag", ((), (), (GO,), (P(GO, *body),) + LIBRARY)), ("r", ((), (), (), LIBRARY)), ("s", ((), (), (), LIBRARY))]
    return explore(programs, bound, stats, ("m", ms))


# ---- agents with similar names

SIMILAR = ("a", "a1", "a11", "aB", "ab")


def gen_names(tier):
    for to in list(itertools.combinations(range(len(SIMILAR)), 1)) + list(itertools.combinations(range(len(SIMILAR)), 2)) + [[4, 1, 0], [3, 2]]:
        for how in ("atom", "string", "list", "strings", "*"):
            if how == "*" and to[0] or len(to) > 1 and how in ("atom", "string"):
                continue
            for f in FORCES:
                for sender in range(len(SIMILAR)):
                    yield [list(to), how, f, sender]


def run_names(case, stats):
    to, how, f, sender = ref.tup(case)
    names = [SIMILAR[i] for i in to]
    target = {"atom": F(names[0]), "string": S(names[0]), "list": L(*map(F, names)), "strings": L(*map(S, names))}.get(how)
    message = cast(f, F("p", N(1))) if how == "*" else send(target, f, F("p", N(1)))
    known = (F("p", N(1), annots=(F("source", F(SIMILAR[sender])),)),) if f == "untell" else ()
    programs = [(n, (known, (), (GO,) if i == sender else (), LIBRARY + ((P(GO, message, emit(S("sent"))),) if i == sender else ()))) for i, n in enumerate(SIMILAR)]
    return impl.conform(programs, stats)


# ---- one message to receivers that know different things

KNOWN = (F("p", N(1), annots=(F("source", ME),)), F("p", N(2), annots=(F("source", ME),)), F("p", F("f", N(3), N(1)), annots=(F("source", ME), F("a"))), F("p", N(1), annots=(F("source", R),)))
# Not every receiver is interested in what it believes: what counts are the beliefs at the end.
QUIET = (P(F("p", X), emit(S("!"), X), bind(X, N(9))), P(F("g", X, Y), bind(X, N(8)), emit(S("g"), Y)))
MULTI = ("*", "[r,s]", "['s',r]")


def gen_differing(tier):
    n = len(KNOWN)
    sets = [list(c) for k in range(3 if tier != "thorough" else n + 1) for c in itertools.combinations(range(n), k)]
    few = [c for c in sets if len(c) == 1]
    for to in MULTI:
        for c in ("pX", "p_", "p1", "pK", "pf", "pa", "K2"):
            for a, b in itertools.product(sets, repeat=2):
                if c == "pX" or a != b or tier == "thorough":
                    yield [[[to, "untell", c]], a, b]
        for f in ("tell", "achieve"):
            for c in ("pX", "p1", "pa", "pXX", "p_"):
                for a, b in itertools.product(few + [[]], few):
                    yield [[[to, f, c]], a, b]
    for ms in itertools.product([["*", "untell", "pX"], ["[r,s]", "untell", "p_"], ["['s',r]", "untell", "pX"], ["[r,s]", "achieve", "pX"], ["r", "tell", "p2"]], repeat=2):
        for a, b in itertools.product(sets[1:], repeat=2):
            if (len(a) + len(b)) % 2 or tier == "thorough":
                yield [list(ms), a, b]


def run_differing(case, stats):
    ms, a, b = ref.tup(case)
    body = SETUP + tuple(op(m) for m in ms) + TAIL
    programs = [("ag", ((), (), (GO,), (P(GO, *body),) + LIBRARY)), ("r", (tuple(KNOWN[i] for i in a), (), (), QUIET)), ("s", (tuple(KNOWN[i] for i in b), (), (), QUIET))]
    return explore(programs, 0, stats, ("d", ms, a, b))


# ---- one message to a receiver that knows much of the same

FROM = F("source", ME)
MUCH = (F("p", N(1), annots=(FROM,)), F("p", N(1), annots=(FROM, F("a"))), F("p", N(1), annots=(F("b"), F("a"), FROM)), F("p", N(1), annots=(F("source", R),)),
        F("p", N(1)), F("p", N(1), annots=(F("source", R), FROM)))


def gen_much(tier):
    for known in itertools.chain(*[itertools.combinations(range(len(MUCH)), k) for k in range(len(MUCH) + 1)]):
        for f in ("untell", "tell"):
            for c in ("p1", "pa", "pX") if f == "untell" else ("p1", "pa"):
                for to in ("r", "*"):
                    yield [list(known), [to, f, c]]


def run_much(case, stats):
    known, m = ref.tup(case)
    programs = [("ag", ((), (), (GO,), (P(GO, op(m), emit(S("sent"))),))), ("r", (tuple(MUCH[i] for i in known), (), (), LIBRARY))]
    return impl.conform(programs, stats)


# ---- structures that hold the same variable several times

def gen_shapes(tier):
    for kind, leaves in shapes.terms("quick"):
        if len(leaves) < 5 or tier == "thorough":
            yield [kind, leaves]


def run_shapes(case, stats):
    kind, leaves = case
    ps = [V("P%d" % i) for i in range(len(leaves))]
    fresh = shapes.KINDS[kind](tuple(ps))
    body = (("q", ("uni", V("P"), fresh)), emit(S("s"), *ps)) + tuple(("if", ("uni", v, N(i + 2)), (emit(S("b"), *ps),), ()) for i, v in enumerate(ps))
    send = act(".send", F("r"), F("achieve"), F("sub", shapes.term(kind, leaves)))
    programs = [("ag", ((), (), (GO,), (P(GO, send, emit(S("sent"), V("X"), V("Y"))),))), ("r", ((), (), (), (P(F("sub", V("P")), *body),)))]
    return impl.conform(programs, stats)


# ---- messages meet activities of the receiver

ACTIVITY = {
    "loop": (P(F("act"), ("for", lit(F("p", X)), (emit(S("f"), X), ("-", F("p", X)))), emit(S("end"))),),
    "if": (P(F("act"), ("if", lit(F("p", N(1))), (emit(S("yes")),), (emit(S("no")),)), emit(S("after"))),),
    "while": (P(F("act"), ("while", lit(F("p", X)), (emit(S("w"), X), ("-", F("p", X)))), emit(S("end"))),),
    "wait": (P(F("act"), act(".wait", S("+p(_)")), emit(S("woken"))),),
    "waitgoal": (P(F("act"), act(".wait", S("+!p(_)")), emit(S("woken"))),),
    "repl": (P(F("act"), ("+", F("p", N(2))), ("-+", F("p", N(1))), emit(S("m")), ("-", F("p", X)), emit(S("-"), X)),),
    "sub": (P(F("act"), ("!", F("g", N(1), X)), emit(S("sub"), X)),),
    "count": (P(F("act"), act(".count", F("p", W), X), emit(S("n"), X), act(".count", F("p", W), Y), emit(S("n"), Y)),),
    "test": (P(F("act"), ("+", F("p", N(5))), ("?", F("p", X)), emit(S("t"), X)),),
    "abolish": (P(F("act"), act(".abolish", F("p", W)), emit(S("ab"))),),
}
INITIAL = {"": (), "p1": (F("p", N(1)),), "p1s": (F("p", N(1), annots=(F("source", F("ag")),)),)}
ONE = [("r", "tell", "p1"), ("r", "untell", "p_"), ("r", "achieve", "pX"), ("*", "tell", "p2"), ("r", "untell", "p1")]


def gen_activity(tier):
    for a in ACTIVITY:
        for i in INITIAL:
            for m in ONE:
                yield [a, i, [m], 1]
            for ms in itertools.product(ONE[:3], repeat=2):
                yield [a, i, ms, 1]
        for m in ONE[:3]:
            yield [a, "p1s", [m], 2]
    if tier == "thorough":
        for a in ACTIVITY:
            for i in INITIAL:
                for ms in itertools.product(ONE, repeat=2):
                    yield [a, i, ms, 2]


def run_activity(case, stats):
    a, i, ms, bound = ref.tup(case)
    lib = LIBRARY[:3] + (P(F("g", X, Y), ("?", F("k", Z)), bind(Y, F("h", X, Z))),)
    programs = [("ag", ((), (), (GO,), (P(GO, *([emit(S("s"))] + [op(m) for m in ms] + [emit(S("sent"))])),))),
                ("r", (INITIAL[i] + (F("k", N(0)),), (), (F("act"),), ACTIVITY[a] + lib))]
    if any(m[0] == "*" for m in ms):
        programs.append(("s", ((), (), (), LIBRARY)))
    return explore(programs, bound, stats, ("a", a, i, ms), {"+p(_)": ("+", F("p", W)), "+!p(_)": ("+!", F("p", W))})


# ---- forwarding, rings, several senders

def forward(to, force):
    """Receives a counter and passes it on."""
    return (P(F("c", N(0)), emit(S("end"))),
            P(F("c", X), emit(S("c"), X), send(to, force, F("c", ("o", "-", X, N(1)))), emit(S("d"), X)),
            P(F("c", N(0)), emit(S("bend")), trig="+"),
            P(F("c", X), emit(S("b"), X), send(to, force, F("c", ("o", "-", X, N(1)))), ("-", F("c", X)), emit(S("bd"), X), trig="+"))


def gen_chains(tier):
    for f1, f2 in itertools.product(("achieve", "tell"), repeat=2):
        for n in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
            yield ["ring", [f1, f2, n, 2 if tier == "thorough" and n < 3 else 1]]
            yield ["self", [f1, f2, n, 1]]
    for m1, m2 in itertools.product([x for x in FEW if x[0] in ("r", "[r,s]", "*")][:9], repeat=2):
        yield ["senders", [m1, m2, 1]]
    for m1, m2 in itertools.product(ONE[:3], repeat=2):
        yield ["senders", [m1, m2, 2]]
    for f in FORCES:
        for c in ("pX", "p1", "pXX", "plist", "K2"):
            yield ["reply", [f, c, 1]]


def run_chains(case, stats):
    kind, args = ref.tup(case)
    bound = args[-1]
    if kind == "ring":
        f1, f2, n, _ = args
        programs = [("ag", ((), (), (GO,), (P(GO, send(R, f1, F("c", N(n))), emit(S("go"))),) + forward(R, f2))),
                    ("r", ((), (), (), forward(L(SS), f1))), ("s", ((), (), (), forward(S("ag"), f2)))]
    elif kind == "self":
        f1, f2, n, _ = args
        programs = [("ag", ((), (), (GO, F("c", N(n))), (P(GO, send(ME, f1, F("c", N(n))), emit(S("go"))),) + forward(ME, f2))),
                    ("r", ((), (), (), LIBRARY))]
    elif kind == "senders":
        m1, m2, _ = args
        programs = [("ag", ((), (), (GO,), (P(GO, *SETUP + (op(m1), emit(S("x"), X))),) + LIBRARY)),
                    ("s", ((), (), (GO,), (P(GO, *SETUP + (op(m2), emit(S("x"), X))),) + LIBRARY)),
                    ("r", ((), (), (), LIBRARY))]
    else:
        # The receiver answers the source of a message.
        f, c, _ = args
        answer = (send(Y, "tell", F("got", X)), emit(S("answered"), Y))
        lib = (P(F("p", X, annots=(F("source", Y),)), *(bind(X, N(6)),) + answer if f == "achieve" else answer, trig="+" if f != "achieve" else "+!"),
               P(F("p", X, annots=(F("source", Y),)), *answer, trig="-"),
               P(F("g", X, Z, annots=(F("source", Y),)), bind(X, N(6)), send(Y, "tell", F("got", Z)), emit(S("answered"), Y)))
        programs = [("ag", ((), (), (GO,), (P(GO, *SETUP + (send(R, f, CONTENTS[c]), emit(S("x"), X))),
                                            P(F("got", X, annots=(F("source", Y),)), emit(S("got"), X, Y), trig="+")))),
                    ("r", ((F("p", N(1), annots=(F("source", ME),)),), (), (), lib))]
    return explore(programs, bound, stats, (kind, args))


def setup():
    global impl, sched, agentspeak
    import impl
    import schedule as sched
    import agentspeak
    import agentspeak.runtime


SUITES = {"shapes": (gen_shapes, run_shapes), "much": (gen_much, run_much), "messages": (gen_messages, run_messages), "names": (gen_names, run_names), "differing": (gen_differing, run_differing), "activity": (gen_activity, run_activity), "chains": (gen_chains, run_chains), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
