"""C26: what Python code does with agents has the effect of the same thing done by a program."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
import time
from ref import N, S, B, V, W, F, L
import ref
import scale

PROPERTY = "C26"
RULE = ("outside: every sequence of up to three operations (goals, belief events, questions, withdrawals, silent changes, added plans and rules, on two agents) "
        "called on agents of an environment, with the agents run in between not at all, up to their next action, alone, with their deadlines, or all together; inside: every "
        "body of up to three statements that do such an operation by a custom action, on behalf of the statement or of nobody, immediately, deferred or for "
        "another agent, in bodies, conditions, loops and subgoals; many: one operation up to 40 times, between others; a state is a distinct (history, observations so far) pair, a transition a step of an agent")
DESIGN = ("two agents are built and the operations are called through the interface that embedding programs use (call, add_belief, remove_belief, test_belief, add_plan, "
          "add_rule, step, run, run_agent, run), or by actions. What they return, what they bind, what the agents do afterwards and the final beliefs are "
          "compared with the model, where each operation is the corresponding statement.")
ASSUMPTIONS = ["time is that of a controlled clock, and sleeping lets it pass", "an operation is called between two steps of the agents or by an action"]

X, Y, Z, R = V("X"), V("Y"), V("Z"), V("R")
WAITS = {"+q(Z)": ("+", F("q", Z))}


def lit(t):
    return ("lit", t)


def emit(*a):
    return ("q", ("act", ".emit", tuple(a)))


def act(name, *a):
    return ("act", name, tuple(a))


BELIEFS = (F("p", N(1)), F("p", N(2)), F("s", N(5)))
RULES = [(F("r", X), ("and", lit(F("p", X)), ("cmp", ">", X, N(1))))]
PLANS = (
    (None, "+!", F("start"), None, (emit(S("start")),)),
    (None, "+!", F("g", X), lit(F("p", X)), (emit(S("g"), X), ("!", F("h", ("o", "+", X, N(1)), R)), emit(S("done"), X, R))),
    (None, "+!", F("g", X), None, (emit(S("other"), X),)),
    (None, "+!", F("h", X, Y), None, (("q", ("uni", Y, F("f", X))), emit(S("h"), X))),
    (None, "+!", F("w", X), None, (emit(S("w"), X), ("q", act(".wait", S("+q(Z)"))), emit(S("woken"), X))),
    (None, "+!", F("d", X), None, (emit(S("d"), X), ("q", act(".wait", N(10))), emit(S("late"), X))),
    (None, "+!", F("bad", X), None, (emit(S("bad"), X), ("q", act(".fail")), emit(S("never")))),
    (None, "+", F("p", X), None, (emit(S("added"), X),)),
    (None, "-", F("p", X), None, (emit(S("removed"), X),)),
    (None, "+?", F("t", X), None, (emit(S("asked"), X), ("q", ("uni", X, N(4))))),
)
PROG_A = (BELIEFS, RULES, [F("start")], PLANS)
PROG_B = (BELIEFS[:1], RULES + [(F("more", X), lit(F("s", X)))], [F("start")],
          PLANS + ((None, "+!", F("extra", X), lit(F("s", Y)), (emit(S("extra"), X, Y), ("!", F("g", X)), emit(S("end"), X))),
                  (None, "+!", F("extra", X), None, (emit(S("no extra"), X),))))

# (agent, what, trigger or None, term)
OPS = [
    ("a", "now", "+!", F("g", N(1))), ("a", "later", "+!", F("g", N(9))), ("a", "now", "+!", F("w", N(3))), ("a", "later", "+!", F("d", N(4))),
    ("a", "now", "+!", F("none", N(1))), ("a", "now", "+!", F("bad", N(1))), ("a", "now", "+", F("p", N(3))), ("a", "later", "+", F("q", N(7))),
    ("a", "now", "-", F("p", X)), ("a", "now", "-", F("p", N(9))), ("a", "now", "-!", F("w", X)), ("a", "now", "-!", F("g", N(1))),
    ("a", "now", "+?", F("p", X)), ("a", "now", "+?", F("t", X)), ("a", "now", "+?", F("zz")), ("a", "add", None, F("p", N(8))),
    ("a", "remove", None, F("s", X)), ("a", "test", None, F("r", X)), ("a", "remove", None, F("zz", X)), ("a", "plan", None, F("extra", X)),
    ("a", "now", "+!", F("extra", N(1))), ("a", "rule", None, F("more", X)), ("a", "test", None, F("more", X)), ("b", "now", "+!", F("g", N(1))),
    ("b", "now", "-", F("p", X)), ("b", "add", None, F("q", N(1))), ("a", "add", None, F("q", X)), ("a", "now", "+", F("p", X)), ("a", "now", "+!", F("h", N(1), R)),
    ("a", "now", "+!", F("g", ("o", "+", N(1), N(1)))), ("a", "now", "+", F("p", ("o", "*", N(2), N(3)), annots=(F("tag"),))), ("a", "now", "-", F("p", X, annots=(F("tag"),))),
    ("a", "add", None, F("q", ("u", "-", N(1)))), ("b", "now", "+!", F("w", N(5))), ("b", "now", "+", F("q", N(5))), ("a", "now", "+!", F("g", X)),
]
RUNS = ("none", "one", "run", "agent", "env")


def gen_outside(tier):
    n = len(OPS)
    for i in range(n):
        for first in RUNS:
            yield [first, [[i, "none"]]]
    for i, j in itertools.product(range(n), repeat=2):
        for k, (first, mid) in enumerate(itertools.product(RUNS[:1] + RUNS[4:], RUNS)):
            yield [first, [[i, mid], [j, "none"]]]
    for i, j, k in itertools.product(range(n), repeat=3):
        if (i + j + k) % 2 and tier != "thorough":
            continue
        modes = list(itertools.product(RUNS, RUNS))
        for m, (one, two) in enumerate(modes):
            if (i + 5 * j + 7 * k) % 25 == m or tier == "thorough" and (i + j + k + m) % 6 == 0:
                yield [RUNS[(i + k) % 5], [[i, one], [j, two], [k, "none"]]]


def gen_many(tier):
    """One operation very often, between two others."""
    index = dict(((o[0], o[1], o[2], o[3][1], o[3][2][:1]), i) for i, o in enumerate(OPS))
    often = [index[k] for k in (("a", "now", "+!", "g", (N(1),)), ("a", "later", "+!", "g", (N(9),)), ("a", "now", "+!", "w", (N(3),)), ("a", "later", "+!", "d", (N(4),)),
                                ("a", "now", "+!", "bad", (N(1),)), ("a", "now", "+", "p", (N(3),)), ("a", "add", None, "p", (N(8),)), ("b", "now", "+!", "g", (N(1),)))]
    other = [index[k] for k in (("a", "later", "+", "q", (N(7),)), ("a", "now", "-!", "w", (X,)), ("a", "now", "-!", "g", (N(1),)), ("a", "now", "+!", "h", (N(1),)), ("a", "now", "+!", "none", (N(1),)))]
    for n in scale.sizes(tier, 40):
        for i in often:
            for j in other:
                for mode in ("none", "one", "agent", "env"):
                    yield ["none", [[i, "none"]] * n + [[j, mode]]]
                    yield ["none", [[i, mode if n < 4 else "none"]] * n + [[j, mode], [i, mode], [j, "none"]]]


# ---- the clock

class Clock(object):
    def __init__(self):
        self.now = 1000.0
        self.sleeps = 0


CLOCK = None
_time, _sleep = time.time, time.sleep


def fake_time():
    return CLOCK.now if CLOCK else _time()


def fake_sleep(seconds):
    if not CLOCK:
        return _sleep(seconds)
    CLOCK.now += max(seconds, 0) + 1e-6
    CLOCK.sleeps += 1
    if CLOCK.sleeps > 200:
        raise RuntimeError("the run loop keeps sleeping")


# ---- operations on the implementation

def operate(agents, trace, agent, what, trigger, term, intention, names):
    """Calls the interface; returns (outcome as a model term)."""
    T, G = agentspeak.Trigger, agentspeak.GoalType
    try:
        if what in ("now", "later"):
            trig = T.addition if trigger[0] == "+" else T.removal
            goal = {"": G.belief, "!": G.achievement, "?": G.test}[trigger[1:]]
            r = agent.call(trig, goal, term, intention, delayed=what == "later")
            return bool(r) if trigger == "+?" else True
        if what == "add":
            agent.add_belief(term, intention.scope)
            return True
        if what == "remove":
            return bool(agent.remove_belief(term, intention))
        if what == "test":
            return bool(agent.test_belief(term, intention))
        source = agents["b"]
        if what == "plan":
            for plans in list(source.plans.values()):
                for plan in list(plans):
                    if plan.head.functor == term.functor:
                        agent.add_plan(plan)
            return True
        for rules in list(source.rules.values()):
            for rule in list(rules):
                if rule.head.functor == term.functor:
                    agent.add_rule(rule)
        return True
    except impl.ERRORS:
        return None


def observed(op, outcome, term, scope):
    """What is compared: the outcome, and the term if the operation binds variables."""
    if outcome is None:
        return (S("op"), S("error"))
    if op[1] in ("remove", "test") or op[2] in ("-", "+?"):
        return (S("op"), B(outcome), impl.deep(term, scope, {}))
    return (S("op"), B(outcome))


LIMIT = 4000


def run_some(run, mode, name):
    """Runs the agent (or all of them); an error ends the run."""
    agent = run.env.agents[name]
    budget = [LIMIT]
    step = type(agent).step

    def counted():
        budget[0] -= 1
        if budget[0] < 0:
            raise impl.StepLimit("still running after %d steps" % LIMIT)
        return step(agent)
    try:
        if mode == "one":
            before = len(run.trace)
            while len(run.trace) == before and counted():
                pass
        elif mode == "run":
            agent.run()
        elif mode == "agent":
            run.env.run_agent(agent)
        elif mode == "env":
            run.env.run()
    except impl.ERRORS:
        run.trace.append((name if mode != "env" else "env", S("ERROR")))
        return False
    return True


def drive(run, first, history):
    global CLOCK
    CLOCK = Clock()
    try:
        run_some(run, first, "a")
        for i, mode in history:
            op = OPS[i]
            agent = run.env.agents[op[0]]
            intention = agentspeak.runtime.Intention()
            term = impl.from_ref(op[3], {})
            outcome = operate(run.env.agents, run.trace, agent, op[1], op[2], term, intention, {})
            run.trace.append((op[0],) + observed(op, outcome, term, intention.scope))
            run_some(run, mode, op[0])
        for _ in range(60):
            if run_some(run, "env", "a"):
                break
    finally:
        CLOCK = None
    return len(run.trace)


# ---- operations of the model

def model_operate(world, agent, what, trigger, term, s, frame):
    """Returns (outcome, substitution)."""
    try:
        if what in ("now", "later"):
            if trigger == "-!":
                frozen = agent.frozen(term, s)
                agent.wake("-!", frozen)
                agent.unachieve(frozen)
                return True, s
            if trigger == "-":
                found = any(True for b in agent.beliefs for _ in ref.match_annotated(ref.evaluate(term, s), b, s))
                if not found:
                    return True, s
            if trigger == "+?":
                frozen = agent.frozen(term, s)
                agent.wake("+?", frozen)
                if agent.find_plan("+?", frozen) is None:
                    for r in agent.query_term(term, s):
                        return True, r
                    return False, s
            return True, agent.event(trigger[0], trigger[1:], term, s, None if what == "later" else frame, delayed=what == "later")
        if what == "add":
            g = ref.ground(term, s)
            if g not in agent.beliefs:
                agent.beliefs.append(g)
            return True, s
        if what == "remove":
            options = [(b, r) for b in agent.beliefs for r in ref.match_annotated(ref.evaluate(term, s), b, s)]
            if not options:
                return False, s
            b, s = options[world.chooser.choose(len(options))]
            agent.beliefs.remove(b)
            return True, s
        if what == "test":
            for r in agent.query_term(term, s):
                return True, r
            return False, s
        other = world.agents["b"]
        if what == "plan":
            agent.plans = list(agent.plans) + [p for p in other.plans if p[2][1] == term[1]]
        else:
            agent.rules = list(agent.rules) + [r for r in other.rules if r[0][1] == term[1]]
        return True, s
    except ref.RefError:
        return None, s


def model_observed(op, outcome, term, s):
    if outcome is None:
        return (S("op"), S("error"))
    if op[1] in ("remove", "test") or op[2] in ("-", "+?"):
        return (S("op"), B(outcome)) + tuple(ref.canon((ref.resolve(term, s),)))
    return (S("op"), B(outcome))


def model_some(world, mode, name):
    agent = world.agents[name]
    try:
        if mode == "one":
            before = len(world.trace)
            while len(world.trace) == before and agent.step():
                world.tick()
        elif mode in ("run", "agent"):
            while True:
                while agent.step():
                    world.tick()
                deadlines = agent.deadlines()
                if mode == "run" or not deadlines:
                    break
                if world.now <= min(deadlines):
                    world.now = min(deadlines) + 1e-6
                world.tick()
        elif mode == "env":
            world.run_timed()
    except ref.RefError:
        world.emit((name if mode != "env" else "env", S("ERROR")))
        return False
    return True


def model_drive(world, first, history):
    for name, prog in world.programs:
        world.add(name, prog)
    world.now = 1000.0
    model_some(world, first, "a")
    for i, mode in history:
        op = OPS[i]
        agent = world.agents[op[0]]
        # The variables of an operation are its own.
        term = ref.rename(op[3], lambda v: ("v", "%s of %d" % (v[1], len(world.trace))))
        outcome, s = model_operate(world, agent, op[1], op[2], term, {}, None)
        world.emit((op[0],) + model_observed(op, outcome, term, s))
        model_some(world, mode, op[0])
    for _ in range(60):
        if model_some(world, "env", "a"):
            break


def run_outside(case, stats):
    first, history = case

    def prepare(world):
        world.drive = lambda: model_drive(world, first, history)
    return impl.conform([("a", PROG_A), ("b", PROG_B)], stats, cached=True, waits=WAITS, prepare=prepare,
                        driver=lambda run: drive(run, first, history), key=repr(case))


# ---- operations by actions

# (how, agent, what, trigger): on behalf of the statement ("own") or of nobody ("new").
MANNERS = {
    "achieve": ("own", None, "now", "+!"), "post": ("own", None, "later", "+!"), "start": ("new", None, "now", "+!"), "submit": ("new", None, "later", "+!"),
    "note": ("own", None, "now", "+"), "forget": ("own", None, "now", "-"), "ask": ("own", None, "now", "+?"), "drop": ("new", None, "now", "-!"),
    "add": ("own", None, "add", None), "remove": ("own", None, "remove", None), "test": ("own", None, "test", None),
    "plan": ("new", None, "plan", None), "rule": ("new", None, "rule", None),
    "bachieve": ("new", "b", "now", "+!"), "bnote": ("new", "b", "now", "+"), "bforget": ("new", "b", "later", "-"),
}
CALLS = [
    ("achieve", F("h", N(1), Y)), ("achieve", F("g", N(1))), ("achieve", F("g", X)), ("achieve", F("none", N(1))), ("achieve", F("bad", N(1))), ("achieve", F("w", N(1))),
    ("post", F("g", N(1))), ("post", F("h", X, Y)), ("start", F("g", N(9))), ("start", F("h", X, Y)), ("start", F("bad", N(2))), ("submit", F("g", X)), ("start", F("none")),
    ("note", F("p", N(3))), ("note", F("q", X)), ("forget", F("p", X)), ("forget", F("p", N(9))), ("ask", F("p", X)), ("ask", F("t", Y)), ("ask", F("zz", X)),
    ("drop", F("go")), ("drop", F("w", Z)), ("add", F("p", N(8))), ("add", F("q", N(1))), ("remove", F("s", X)), ("remove", F("s", N(9))), ("test", F("r", X)), ("test", F("r", N(9))),
    ("plan", F("extra", Z)), ("rule", F("more", Z)), ("test", F("more", X)), ("start", F("extra", N(1))), ("start", F("g", ("o", "+", X, N(1)))), ("note", F("p", ("o", "*", N(2), N(3)))), ("bachieve", F("g", N(1))), ("bachieve", F("none")), ("bnote", F("p", X)),
    ("bnote", F("q", N(1))), ("bforget", F("p", Y)),
]
PLACES = ("body", "if", "sub", "for", "context", "event")


def gen_inside(tier):
    n = len(CALLS)
    for i in range(n):
        for place in PLACES:
            for bound in (False, True):
                yield [place, bound, [i]]
    for i, j in itertools.product(range(n), repeat=2):
        for k, place in enumerate(PLACES[:4]):
            for bound in (False, True):
                if tier == "thorough" or (i + j + k + bound) % 2 == 0:
                    yield [place, bound, [i, j]]
    for i, j, k in itertools.product(range(n), repeat=3):
        if (i + 3 * j + 5 * k) % (8 if tier != "thorough" else 2) == 0:
            yield [PLACES[:4][(i + j + k) % 4], bool((i + 2 * k) % 2), [i, j, k]]


def do(i):
    how, term = CALLS[i]
    return ("act", ".do", (F(how), term))


def inside_program(case):
    place, bound, calls = case
    body = [("q", ("uni", X, N(2)))] if bound else []
    plans = []
    for k, i in enumerate(calls):
        if place == "body":
            body += [("q", do(i)), emit(N(k), X, Y)]
        elif place == "if":
            body += [("if", do(i), (emit(S("yes"), N(k), X, Y),), (emit(S("no"), N(k), X, Y),))]
        elif place == "for":
            body += [("for", ("or", ("uni", Z, N(1)), ("uni", Z, N(2))), (("if", do(i), (emit(N(k), X, Y, Z),), ()),)), emit(S("after"), X, Y)]
        elif place == "sub":
            body += [("!", F("sub%d" % k, X, Y)), emit(N(k), X, Y)]
            plans.append((None, "+!", F("sub%d" % k, X, Y), None, (("q", do(i)), emit(S("in"), X, Y))))
        elif place == "context":
            # A statement of its own.
            body += [("!", F("sub%d" % k, X, Y)), emit(N(k), X, Y)]
            plans.append((None, "+!", F("sub%d" % k, X, Y), do(i) if CALLS[i][0] in ("add", "test", "plan", "rule", "submit", "bnote", "bachieve") else None, (emit(S("in"), X, Y),)))
        else:
            body += [("+", F("ev%d" % k, X if bound else N(1))), emit(N(k), X)]
            plans.append((None, "+", F("ev%d" % k, X), None, (("q", do(i)), emit(S("in"), X, Y))))
    plans.append((None, "+!", F("go"), None, tuple(body)))
    plans.append((None, "+!", F("next"), None, (emit(S("next")),)))
    return (BELIEFS, RULES, [F("go"), F("next")], PLANS + tuple(plans))


def model_do(world, agent, args, s):
    how, name, what, trigger = MANNERS[args[0][1]]
    term = args[1]
    target = world.agents[name] if name else agent
    if how == "new":
        term, s2 = agent.frozen(term, s), {}
        outcome, _ = model_operate(world, target, what, trigger, term, s2, None)
    else:
        outcome, s = model_operate(world, target, what, trigger, term, s, agent.frame)
    if outcome is None:
        raise ref.RefError("error")
    world.emit((agent.name, S("did"), B(outcome)))
    if outcome:
        yield s


def run_inside(case, stats):
    def extra(actions, trace):
        @actions.add(".do", 2)
        def _do(agent, term, intention):
            how, name, what, trigger = MANNERS[agentspeak.evaluate(term.args[0], intention.scope).functor]
            arg = term.args[1]
            target = agent.env.agents[name] if name else agent
            if how == "new":
                arg = agentspeak.freeze(arg, intention.scope, {})
                outcome = operate_raw(agent.env.agents, target, what, trigger, arg, agentspeak.runtime.Intention())
            else:
                outcome = operate_raw(agent.env.agents, target, what, trigger, arg, intention)
            trace.append((agent.name, S("did"), B(outcome)))
            if outcome:
                yield

    def prepare(world):
        def go():
            for name, prog in world.programs:
                world.add(name, prog)
            world.now = 1000.0
            for _ in range(60):
                if model_some(world, "env", "a"):
                    break
        world.drive = go

    def driver(run):
        global CLOCK
        CLOCK = Clock()
        try:
            for _ in range(60):
                if run_some(run, "env", "a"):
                    break
        finally:
            CLOCK = None
        return len(run.trace)
    return impl.conform([("a", inside_program(case)), ("b", PROG_B)], stats, extra=extra, model_actions={".do": model_do}, waits=WAITS, prepare=prepare, driver=driver)


def operate_raw(agents, agent, what, trigger, term, intention):
    outcome = operate(agents, None, agent, what, trigger, term, intention, {})
    if outcome is None:
        raise agentspeak.AslError("the operation failed")
    return outcome


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.stdlib
    time.time, time.sleep = fake_time, fake_sleep


SUITES = {"outside": (gen_outside, run_outside), "many": (gen_many, run_outside), "inside": (gen_inside, run_inside)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
