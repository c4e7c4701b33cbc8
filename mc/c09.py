"""C09: agents and intentions interleave without affecting each other."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C09"
RULE = ("every multiset of up to three agents from a set of programs, built one by one or together from one source, stepped under "
        "every schedule with a bounded number of preemptions; each agent's trace and final beliefs must be those of running alone, "
        "which in turn are validated against the model; all sets of concurrent intentions of one agent against the model; "
        "a state is a distinct (case, steps done per agent, observations), a transition a step of an agent")
DESIGN = ("raw `agent.step()` calls are the scheduler's choice points (`mc/sched.py`); schedules that step an idle agent are pruned as "
          "equivalent; the run loops `Environment.run` and `run_agent` are checked for completeness and fairness by their traces.")
ASSUMPTIONS = ["agents that exchange messages are covered by C10"]

X, Y, Z, K = V("X"), V("Y"), V("Z"), V("K")


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


def emit(*t):
    return act(".emit", *t)


def lit(t):
    return ("lit", t)


def P(head, *body, **kw):
    return (kw.get("label"), kw.get("trig", "+!"), head, kw.get("ctx"), tuple(body))


GO = F("go")
# Programs that use every kind of state an agent has.
PROGRAMS = {
    "seq": ((F("n", N(0)),), (), (GO,), (P(GO, emit(N(1)), ("-+", F("n", N(1))), emit(N(2)), ("?", F("n", X)), emit(X)),)),
    "rec": ((), (), (F("f", N(2), X),), (
        P(F("f", N(0), N(1)), emit(S("b"))),
        P(F("f", K, Y), ("!", F("f", ("o", "-", K, N(1)), Z)), ("q", ("uni", Y, ("o", "*", K, Z))), emit(K, Y)))),
    "loop": ((F("p", N(1)), F("p", N(2))), (), (GO,), (
        P(GO, ("for", lit(F("p", X)), (("-", F("p", X)), ("+", F("q", X)), emit(X))), emit(S("end"))),
        P(F("q", X), emit(S("q"), X), trig="+"))),
    "two": ((), (), (F("a", N(1)), F("a", N(2))), (
        P(F("a", X), emit(S("a"), X), ("!", F("b", X, Y)), emit(S("r"), X, Y)),
        P(F("b", X, F("g", X)), ("+", F("seen", X)), emit(S("b"), X)))),
    "later": ((), (), (GO,), (P(GO, ("!!", F("l", N(1))), ("!!", F("l", N(2))), emit(S("go"))), P(F("l", X), emit(X), ("+", F("l", X))))),
    "rules": ((F("e", N(1), N(2)), F("e", N(2), N(3))),
              ((F("path", X, Y), lit(F("e", X, Y))), (F("path", X, Y), ("and", lit(F("e", X, Z)), lit(F("path", Z, Y))))),
              (GO,), (P(GO, ("for", lit(F("path", N(1), X)), (emit(X), ("-", F("e", N(1), N(2))))), emit(S("x"))),)),
    "wait": ((), (), (F("a"), F("b")), (
        P(F("a"), act(".wait", S("+w(1)")), emit(S("a"))), P(F("b"), emit(S("b")), ("+", F("w", N(2))), ("+", F("w", N(1))), emit(S("c"))))),
    "while": ((F("n", N(0)),), (), (GO,), (
        P(GO, ("while", ("and", lit(F("n", X)), ("cmp", "<", X, N(2))), (("-", F("n", X)), ("+", F("n", ("o", "+", X, N(1)))), emit(X)))),)),
    "empty": ((F("b", N(1)),), (), (), (P(F("b", X), emit(S("b"), X), trig="+"),)),
    "ctx": ((F("m", N(1)),), (), (F("h", F("k")), F("h", F("j"))), (
        P(F("h", F("k")), emit(S("k")), ("+", F("m", N(2))), ctx=lit(F("m", N(1)))),
        P(F("h", X), emit(S("h"), X), ("-", F("m", N(2))), ctx=("not", lit(F("m", N(3))))))),
}
WAITS = {"+w(1)": ("+", F("w", N(1)))}
NAMES = ("ag", "other", "third")


def gen(tier):
    names = list(PROGRAMS)
    for a in names:
        yield [[a], "solo", 0]
    for a, b in itertools.combinations_with_replacement(names, 2):
        yield [[a, b], "separate", 1]
        yield [[b, a], "separate", 1]
    for a in names:
        for n in (2, 3):
            yield [[a] * n, "together", 1]
            yield [[a] * n, "same-source", 1]
    short = ("seq", "later", "wait", "empty", "ctx", "rec")
    for a, b in itertools.combinations_with_replacement(short, 2):
        yield [[a, b], "separate", 2]
    for a in short:
        yield [[a, a], "together", 2]
    if tier == "thorough":
        for a, b in itertools.product(names, repeat=2):
            yield [[a, b], "separate", 2]
        for a in names:
            yield [[a, a], "together", 2]
            yield [[a] * 3, "together", 1]
        for a, b, c in itertools.combinations_with_replacement(names, 3):
            yield [[a, b, c], "separate", 1]
        for a, b in itertools.product(("seq", "later", "empty"), repeat=2):
            yield [[a, b], "separate", 3]


def renamed(item, name):
    return (name,) + item[1:]


SOLO = {}


def solo(name, stats):
    """Trace and beliefs of the program running alone, validated against the model."""
    if name not in SOLO:
        prog = PROGRAMS[name]
        msg = impl.conform([("solo", prog)], stats, waits=WAITS)
        run = impl.Run([("solo", ref.program_text(prog))])
        run.drive()
        SOLO[name] = (msg, [i[1:] for i in run.items()], run.beliefs())
    return SOLO[name]


def make(progs, mode):
    run = impl.Run.__new__(impl.Run)
    run.trace = []
    run.env = agentspeak.runtime.Environment()
    run.actions = impl.make_actions(run.trace)
    run.error = None
    texts = [ref.program_text(PROGRAMS[p]) for p in progs]
    if mode == "together":
        run.agents = run.env.build_agents(impl.source("src.asl", texts[0]), len(progs), run.actions)
    elif mode == "same-source":
        run.agents = [run.env.build_agent(impl.source("src.asl", t), run.actions) for t in texts]
    else:
        run.agents = [impl.build(run.env, n, t, run.actions) for n, t in zip(NAMES, texts)]
    return run


def run_case(case, stats):
    progs, mode, bound = ref.tup(case)
    want = []
    for p in progs:
        msg, trace, beliefs = solo(p, stats)
        if msg:
            return msg
        want.append((trace, beliefs))

    def check(run, error):
        if error is not None:
            return "error %r" % error
        items = run.items()
        if len(run.agents) != len(progs) or len(set(a.name for a in run.agents)) != len(progs):
            return "agents %r" % [a.name for a in run.agents]
        for a, p, (trace, beliefs) in zip(run.agents, progs, want):
            got = [i[1:] for i in items if i[0] == a.name]
            if got != trace:
                return "agent %s (%s) did %s, alone it does %s" % (a.name, p, got, trace)
            if run.beliefs(a) != beliefs:
                return "agent %s (%s) believes %s, alone %s" % (a.name, p, run.beliefs(a), beliefs)
        stats.validated += 1
        return None
    return sched.explore(lambda: make(progs, mode), bound, stats, (progs, mode), check)


# ---- concurrent intentions of one agent

STARTS = {
    "a1": F("a", N(1)), "a2": F("a", N(2)), "b": F("b"), "l": F("l", N(3)), "c": F("c"), "w": F("w"), "x": F("x", N(2)),
}
LIBRARY = (
    P(F("a", X), emit(S("a"), X), ("!", F("s", X, Y)), emit(S("a2"), X, Y)),
    P(F("s", N(1), F("r1")), ("!!", F("late", N(1))), emit(S("s1"))),
    P(F("s", X, Z), ("!", F("s", ("o", "-", X, N(1)), Z)), emit(S("s"), X, Z)),
    P(F("b"), ("+", F("n", N(1))), emit(S("b")), ("-", F("n", X)), emit(S("b2"), X)),
    P(F("n", X), emit(S("n"), X), ("!!", F("late", X)), trig="+"),
    P(F("n", X), emit(S("-n"), X), trig="-"),
    P(F("l", X), ("for", ("act", ".range", (N(2), Y)), (("!!", F("late", F("k", X, Y))), emit(S("l"), Y)))),
    P(F("late", X), emit(S("late"), X), ("+", F("done", X))),
    P(F("c"), act(".wait", S("+n(_)")), emit(S("c")), ("!", F("s", N(2), Y)), emit(S("c2"), Y)),
    P(F("w"), act(".wait", S("+!late(_)")), emit(S("w")), ("!!", F("x", N(1)))),
    P(F("x", N(0)), emit(S("x0"))),
    P(F("x", X), emit(S("x"), X), ("!!", F("x", ("o", "-", X, N(1)))), emit(S("xx"), X)),
)
LWAITS = {"+n(_)": ("+", F("n", W)), "+!late(_)": ("+!", F("late", W))}


def gen_intentions(tier):
    for k in range(1, 5 if tier == "thorough" else 4):
        for g in itertools.product(STARTS, repeat=k):
            yield [g, "goals"]
            yield [g, "later"]
            if k > 1:
                yield [g, "mixed"]
            yield [g, "beliefs"]


def run_intentions(case, stats):
    goals, how = ref.tup(case)
    terms = [STARTS[g] for g in goals]
    if how == "goals":
        initial, plans = terms, ()
    elif how == "later":
        initial = [GO]
        plans = (P(GO, *[("!!", t) for t in terms] + [emit(S("go"))]),)
    elif how == "mixed":
        initial = [terms[0], GO]
        plans = (P(GO, *[("!" if i % 2 else "!!", t) for i, t in enumerate(terms[1:])] + [emit(S("go"))]),)
    else:
        # Started by belief events of initial beliefs.
        initial = []
        plans = tuple(P(F("start", N(i)), ("!", t), emit(S("st"), N(i)), trig="+") for i, t in enumerate(terms))
    beliefs = tuple(F("start", N(i)) for i in range(len(terms))) if how == "beliefs" else ()
    return impl.conform([("ag", (beliefs, (), tuple(initial), LIBRARY + plans))], stats, waits=LWAITS)


# ---- run loops: everything runnable is run, in every round

class Stop(Exception):
    pass


def gen_loops(tier):
    names = list(PROGRAMS)
    for a, b in itertools.product(names, repeat=2):
        yield ["run", [a, b]]
        yield ["run_agent", [a, b]]
        yield ["agent_run", [a, b]]
        yield ["starve", [a, b]]
    for a in names:
        yield ["spawn", [a, a]]
        yield ["spawn", [a, "seq"]]
    for n in (2, 3, 4) if tier != "thorough" else range(2, 9):
        for m in (1, 3, 6):
            for mode in ("separate", "together"):
                yield ["fair", [n, m, mode]]


def run_loops(case, stats):
    kind, args = ref.tup(case)
    if kind == "fair":
        n, m, mode = args
        text = "!go.\n+!go <- %s.\n" % "; ".join(".emit(%d)" % i for i in range(m))
        trace = []
        env = agentspeak.runtime.Environment()
        actions = impl.make_actions(trace)
        if mode == "together":
            env.build_agents(impl.source("x", text), n, actions)
        else:
            for i in range(n):
                env.build_agent(impl.source("x%d" % i, text), actions)
        env.run()
        stats.step(len(trace))
        counts = {}
        names = list(env.agents)
        for t in trace:
            counts[t[0]] = counts.get(t[0], 0) + 1
            stats.state((args, tuple(sorted(counts.items()))))
            values = [counts.get(x, 0) for x in names]
            if max(values) - min(values) > 1:
                return "agents running the same program do not advance together: %s" % counts
        if len(trace) != n * m:
            return "%d observations of %d" % (len(trace), n * m)
        stats.validated += 1
        return None
    a, b = args
    trace = []
    env = agentspeak.runtime.Environment()
    made = []

    def extra(actions, trace):
        @actions.add(".spawn", 0)
        def _spawn(agent, term, intention):
            if not made:
                made.append(env.build_agent(impl.source("made", ref.program_text(PROGRAMS[b])), actions))
            yield

        @actions.add(".busy", 0)
        def _busy(agent, term, intention):
            made.append(1)
            if len(made) > 400:
                raise Stop()
            yield
    actions = impl.make_actions(trace, extra=extra)
    if kind == "starve":
        looper = env.build_agent(impl.source("looper", "!l. +!l <- .busy; !!l."), actions)
    if kind == "spawn":
        text = ref.program_text(PROGRAMS[a]) + "\n!mk. +!mk <- .spawn."
    else:
        text = ref.program_text(PROGRAMS[a])
    first = env.build_agent(impl.source("first", text), actions)
    second = None
    if kind != "spawn":
        second = env.build_agent(impl.source("second", ref.program_text(PROGRAMS[b])), actions)
    logging.disable(logging.CRITICAL)
    try:
        if kind == "run_agent":
            env.run_agent(first)
        elif kind == "agent_run":
            first.run()
        else:
            env.run()
    except impl.ERRORS:
        if kind != "starve":
            raise
    items = [impl.canonical(i) for i in trace]
    stats.step(len(items))
    for i in range(len(items)):
        stats.state((kind, args, i))
    if kind == "spawn":
        second = made[0]
    _, t1, b1 = solo(a, stats)
    _, t2, b2 = solo(b, stats)
    if kind in ("run_agent", "agent_run"):
        # The other agent has only been built.
        run = impl.Run([("solo", ref.program_text(PROGRAMS[b]))])
        t2, b2 = [i[1:] for i in run.items()], run.beliefs()
    for agent, t, bel in ((first, t1, b1), (second, t2, b2)):
        got = [i[1:] for i in items if i[0] == agent.name]
        if got != t:
            return "%s: agent %s did %s instead of %s" % (kind, agent.name, got, t)
        final = sorted((impl.to_ref(x) for xs in agent.beliefs.values() for x in xs), key=repr)
        if final != bel:
            return "%s: agent %s believes %s instead of %s" % (kind, agent.name, final, bel)
    stats.validated += 1
    return None


# ---- what one agent learns or forgets is not learnt or forgotten by those built from the same source

LIB = """b(1). b(2).
r(X) :- b(X) & not hidden.
r(X) :- extra & X = 9.
@one +e(1) <- .emit(one).
@two +e(2) <- .emit(two).
@any +g(X) : b(X) <- .emit(g, X).
+!report <- +e(1); -e(1); +e(2); -e(2); +e(3); -e(3); +f(1); -f(1); +g(2); -g(2); +g(5); -g(5); .findall(X, r(X), L); .sort(L, M); .emit(r, M).
"""
TOLD = {"three": ("e", 3), "alt": ("e", 2), "four": ("f", 1), "gee": ("g", None)}
LIB_OPS = ([("tell", k) for k in TOLD] + [("untell", k) for k in ("one", "two", "any", "three", "alt")] + [("believe", F("b", N(5))), ("believe", F("hidden")), ("believe", F("extra")), ("ask", "e"), ("ask", "g"), ("forget", None)])


def gen_library(tier):
    ops = [(o, k) for o in range(len(LIB_OPS)) for k in range(2)]
    for mode in ("together", "same-source", "mixed"):
        for o in range(len(LIB_OPS)):
            for k in range(3):
                for pad in (0, 1, 2, 3, 7):
                    yield [mode, [(o, k)], pad]
        for a, b in itertools.product(ops, repeat=2):
            yield [mode, [a, b], sum(a + b) % 2 * 4]
        if tier == "thorough":
            for abc in itertools.product(ops, repeat=3):
                yield [mode, abc, sum(map(sum, abc)) % 5]


def run_library(case, stats):
    mode, ops, pad = ref.tup(case)
    # Larger groups of plans, rules and beliefs.
    padding = "".join("@p%d +e(%d).\n@h%d +g(0).\n@f%d +f(0).\nr(X) :- no(%d).\nb(%d). hidden(1).\n" % (i, 20 + i, i, i, i, 20 + i) for i in range(pad))
    env = agentspeak.runtime.Environment()
    trace = []
    actions = impl.make_actions(trace)
    build = lambda n: env.build_agents(impl.source("src", padding + LIB), n, actions)
    agents = build(3) if mode == "together" else [env.build_agent(impl.source("src", padding + LIB), actions) for _ in range(3)] if mode == "same-source" else build(2) + build(1)
    names = [a.name for a in agents]
    # Plans as (label, event, argument); beliefs as they are seen by the rule.
    libs = [[("one", "e", 1), ("two", "e", 2), ("any", "g", None)] for _ in names]
    known = [[1, 2] + list(range(20, 20 + pad)) for _ in names]
    flags = [[] for _ in names]
    for step, (o, k) in enumerate(ops):
        kind, what = LIB_OPS[o]
        other = (k + 1) % 3
        if kind == "tell":
            f, arg = TOLD[what]
            text = "+%s(%s) <- .emit(%s%s)." % (f, "X" if arg is None else arg, what, ", X" if arg is None else "")
            body = ".send(%s, tellHow, %s)" % (names[k], ref.quote("@%s %s" % (what, text)))
            libs[k].append((what, f, arg))
        elif kind == "untell":
            body = ".send(%s, untellHow, %s)" % (names[k], ref.quote("@" + what))
            libs[k] = [p for p in libs[k] if p[0] != what]
        elif kind == "believe":
            body = ".send(%s, tell, %s)" % (names[k], ref.text(what))
            if what[1] == "b":
                known[k].append(5)
            else:
                flags[k].append(what[1])
        elif kind == "forget":
            body = ".send(%s, achieve, forget)" % names[k]
        else:
            body = ".send(%s, achieve, ask)" % names[k]
            libs[k] += [p for p in libs[other] if p[1] == what]
        if kind in ("forget", "ask"):
            # A goal which only this agent has a plan for.
            plan = "+!forget <- .abolish(b(1)); .abolish(e(_))." if kind == "forget" else "+!ask <- .send(%s, askHow, \"+%s\")." % (names[other], what)
            body = ".send(%s, tellHow, %s); %s; .send(%s, untellHow, \"@tmp\")" % (names[k], ref.quote("@tmp " + plan), body, names[k])
            if kind == "forget":
                known[k] = [x for x in known[k] if x != 1]
        env.build_agent(impl.source("driver%d" % step, "!go.\n+!go <- %s; .broadcast(achieve, report).\n+!report.\n" % body), actions)
        del trace[:]
        env.run()
        stats.step(len(trace))
        stats.state((mode, ops[:step + 1]))
        for i, name in enumerate(names):
            want = []
            for f, x in (("e", 1), ("e", 2), ("e", 3), ("f", 1), ("g", 2), ("g", 5)):
                for label, g, arg in libs[i]:
                    if g == f and arg in (None, x) and (label != "any" or x in known[i]):
                        want.append((F("g" if label == "any" else label),) + (() if arg is not None else (N(x),)))
                        break
            answers = ([] if "hidden" in flags[i] else sorted(known[i])) + [9] * flags[i].count("extra")
            want.append((F("r"), L(*map(N, sorted(answers)))))
            got = [t[1:] for t in trace if t[0] == name]
            if got != want:
                return "%s, %s\nafter %s agent %s did %r instead of %r" % (mode, LIB, [(LIB_OPS[o], names[k]) for o, k in ops[:step + 1]], name, got, want)
    stats.validated += 1
    return None


def setup():
    global impl, sched, agentspeak, logging
    import logging
    import impl
    import schedule as sched
    import agentspeak
    import agentspeak.runtime


SUITES = {"schedules": (gen, run_case), "intentions": (gen_intentions, run_intentions), "loops": (gen_loops, run_loops), "library": (gen_library, run_library), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
