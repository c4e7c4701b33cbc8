"""C21: a failing statement is reported and harms nothing but its own intention."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
import logging
import sys
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C21"
RULE = ("faults: every program of up to two statements (subgoals, events, tests, rules, blocks, loops, waiting, messages to another agent) beside waiting and running intentions, with "
        "every kind of fault at every single action call that occurs; pairs: two faults at every pair of action calls; nested: the same inside of every block, subgoal or event plan; "
        "failures: every kind of statement that fails by itself in every surrounding; each under every run loop of the interface, which is entered again after every error; "
        "a state is a distinct (program, faults, observations so far), a transition a step")
DESIGN = ("the fault-free run gives the action calls that occur; then each of them is made to fail in each way, running goes on after the error, and calls, errors with file and line, and "
          "beliefs must be those of the model, which drops the failing intention only")
ASSUMPTIONS = ["errors that are no subclass of Exception (interrupts, exit) are not injected", "the line of a failing condition is the first line of its statement"]

X, Y = V("X"), V("Y")


class Boom(Exception):
    pass


# ---- programs

def act(tag, *args):
    return ("act", ".act", (N(tag),) + args)


def q(x):
    return ("q", x)


def done(tag):
    return ("lit", F("done", N(tag)))


STATEMENTS = {
    "act": lambda t: q(act(t)),
    "and": lambda t: q(("and", act(t), act(t + 1))),
    "not": lambda t: q(("not", ("and", act(t), ("act", ".fail", ())))),
    "rule": lambda t: q(("and", ("lit", F("r", N(t))), act(t))),
    "add": lambda t: ("+", F("e", N(t))),
    "remove": lambda t: ("-", F("d", N(t))),
    "goal": lambda t: ("!", F("h", N(t))),
    "deep": lambda t: ("!", F("h2", N(t))),
    "later": lambda t: ("!!", F("h", N(t))),
    "test": lambda t: ("?", F("t", N(t))),
    "testrule": lambda t: ("?", F("r", N(t))),
    "if": lambda t: ("if", act(t), (q(act(t + 1)),), (q(act(t + 2)),)),
    "for": lambda t: ("for", ("act", ".each", (N(t), X)), (q(act(t + 1, X)),)),
    "while": lambda t: ("while", ("and", act(t), ("not", done(t))), (q(act(t + 1)), ("+", F("done", N(t))))),
    "tell": lambda t: q(("act", ".send", (F("b"), F("tell"), F("m", N(t))))),
    "achieve": lambda t: q(("act", ".send", (F("b"), F("achieve"), F("m", N(t))))),
    "pong": lambda t: q(("act", ".send", (F("b"), F("achieve"), F("m2", N(t))))),
    "broadcast": lambda t: q(("act", ".broadcast", (F("tell"), F("m", N(t))))),
    "several": lambda t: q(("act", ".send", (L(F("c"), F("b")), F("tell"), F("m", N(t))))),
    "unachieve": lambda t: q(("and", ("uni", N(t), N(t)), ("act", ".send", (F("b"), F("unachieve"), F("own"))))),
    "findall": lambda t: q(("act", ".findall", (V("F%d" % t), F("r", N(t)), V("F%d" % t)))),
    "wake": lambda t: ("+", F("w", N(1))),
    "replace": lambda t: ("-+", F("e", N(t))),
}

# Statements that fail by themselves.
FAILURES = {
    "no plan": lambda t: ("!", F("nope", N(t))),
    "no plan later": lambda t: ("!!", F("nope", N(t))),
    "no answer": lambda t: ("?", F("nope", N(t))),
    "unbound belief": lambda t: ("+", F("u", N(t), V("U"))),
    "false": lambda t: q(("and", ("false",), ("uni", N(t), N(t)))),
    "division": lambda t: q(("and", ("uni", V("T%d" % t), N(0)), ("cmp", "<", ("o", "/", N(t), V("T%d" % t)), N(1)))),
    "order": lambda t: q(("and", ("uni", V("T%d" % t), F("a")), ("cmp", "<", N(t), V("T%d" % t)))),
    "unify": lambda t: q(("uni", F("f", N(t)), F("g", N(t)))),
    "unknown action": lambda t: q(("lit", F(".nothing", N(t)))),
    "context": lambda t: ("!", F("bad", N(t))),
    "event context": lambda t: ("+", F("bade", N(t))),
    "nobody": lambda t: q(("act", ".send", (F("nobody"), F("tell"), F("m", N(t))))),
    "no plan there": lambda t: q(("act", ".send", (F("b"), F("achieve"), F("nope", N(t))))),
    "bad context there": lambda t: q(("act", ".send", (F("b"), F("achieve"), F("bad", N(t))))),
    "number": lambda t: ("+", V("T%d" % t)),
    "expression": lambda t: ("!", F("h", ("o", "+", N(t), V("T%d" % t)))),
    "if": lambda t: ("if", ("and", ("uni", V("T%d" % t), S("a")), ("cmp", "<", N(t), V("T%d" % t))), (), ()),
    "for": lambda t: ("for", ("and", ("act", ".each", (N(t), X)), ("cmp", "<", ("o", "/", N(1), ("o", "-", N(2), X)), N(5))), (q(act(t + 1, X)),)),
    "while": lambda t: ("while", ("cmp", ">", ("o", "+", N(t), V("V")), N(0)), ()),
    "member": lambda t: q(("act", ".member", (N(t), F("a")))),
    "replace": lambda t: ("-+", F("u", N(t), V("U"))),
    "remove": lambda t: ("-", V("T%d" % t)),
}

# The surroundings of a statement: statements of the main plan and further plans.
NEST = {
    "plain": lambda st: ((st,), []),
    "if": lambda st: ((("if", act(70), (q(act(71)), st, q(act(72))), ()),), []),
    "else": lambda st: ((("if", ("not", act(70)), (), (st, q(act(72)))),), []),
    "for": lambda st: ((("for", ("act", ".each", (N(73), Y)), (q(act(74, Y)), st, q(act(75)))),), []),
    "while": lambda st: ((("while", ("not", done(76)), (("+", F("done", N(76))), st, q(act(77)))),), []),
    "goal": lambda st: ((("!", F("k", N(78))),), [(None, "+!", F("k", X), None, (q(act(79)), st, q(act(80))))]),
    "deeper": lambda st: ((("!", F("k", N(78))),), [(None, "+!", F("k", X), None, (("!", F("k2", N(81))), q(act(80)))), (None, "+!", F("k2", X), None, (st, q(act(82))))]),
    "event": lambda st: ((("+", F("k", N(78))),), [(None, "+", F("k", X), None, (q(act(79)), st, q(act(80))))]),
    "later": lambda st: ((("!!", F("k", N(78))),), [(None, "+!", F("k", X), None, (q(act(79)), st, q(act(80))))]),
    "test": lambda st: ((("?", F("k", N(78))),), [(None, "+?", F("k", X), None, (q(act(79)), st, q(act(80))))]),
    "twice": lambda st: ((("for", ("act", ".each", (N(73), Y)), (("if", act(70), (st,), ()), q(act(75)))),), []),
}


def wait(w):
    return q(("act", ".wait", (S(w),)))


WAITS = {"+w(1)": ("+", F("w", N(1)))}
BAD = ("cmp", "<", ("o", "/", N(1), ("o", "-", X, X)), N(1))


def programs(statements, nest, goals):
    """goals: order of the initial goals."""
    body = []
    plans = []
    if nest:
        body, plans = NEST[nest](statements[0])
        body = list(body) + list(statements[1:])
    else:
        body = list(statements)
    a = ((F("d", N(0)), F("d", N(1)), F("d", N(4)), F("t0")), [(F("r", X), act(56))], [F(g) for g in goals],
         [(None, "+!", F("g1"), None, tuple(body) + (q(act(29)),)),
          (None, "+!", F("g2"), None, (q(act(30)), wait("+w(1)"), q(act(31)), ("+", F("e", N(34))), q(act(35)))),
          (None, "+!", F("g3"), None, (q(act(32)), ("+", F("w", N(1))), q(act(33)))),
          (None, "+!", F("h", X), act(50), (q(act(51)),)),
          (None, "+!", F("h2", X), None, (("!", F("h", X)), q(act(52)))),
          (None, "+", F("e", X), None, (q(act(53)), ("+", F("late", X)))),
          (None, "-", F("d", X), None, (q(act(54)),)),
          (None, "+?", F("t", X), None, (q(act(55)),)),
          (None, "+!", F("bad", X), BAD, (q(act(57)),)),
          (None, "+", F("bade", X), BAD, (q(act(58)),)),
          (None, "-+"[:1], F("nothing"), None, ())] + plans)
    b = ((), [], [F("own")],
         [(None, "+!", F("own"), None, (q(act(66)), ("?", F("ready")), q(act(67)))),
          (None, "+?", F("ready"), None, (q(act(68)),)),
          (None, "+", F("m", X), act(60), (q(act(61)),)),
          (None, "+!", F("m", X), None, (q(act(62)), q(act(63)))),
          (None, "+!", F("m2", X), None, (q(act(64)), q(("act", ".send", (F("a"), F("achieve"), F("h", X)))), q(act(65)))),
          (None, "+!", F("bad", X), BAD, (q(act(59)),))])
    c = ((), [], [], [(None, "+", F("m", X), act(92), (q(act(93)),))])
    return [("a", a), ("b", b), ("c", c)]


def lines(progs):
    """Where statements are: first line of the text of a statement -> (agent, line)."""
    out = {}
    for name, p in progs:
        for i, line in enumerate(ref.program_text(p).splitlines()):
            out.setdefault(line.strip().rstrip(";."), []).append((S(name), N(i + 1)))
    return out


# ---- running with faults

KINDS = ("python", "asl", "fails", "later", "stop", "deep", "message")


def calls_model(faults):
    """faults: {(agent, tag, occurrence): kind}."""
    def count(world, agent, tag):
        counts = world.__dict__.setdefault("COUNTS", {})
        key = (agent.name, tag)
        counts[key] = counts.get(key, 0) + 1
        return counts[key]

    def one(world, agent, args, s):
        tag = int(args[0][1])
        k = count(world, agent, tag)
        world.emit((agent.name, S("act"), N(tag), N(k)) + ref.canon([ref.resolve(a, s) for a in args[1:]]))
        fault = faults.get((agent.name, tag, k))
        if fault == "fails":
            return
        if fault and fault != "later":
            raise ref.RefError(fault)
        yield s
        if fault:
            raise ref.RefError(fault)

    def each(world, agent, args, s):
        tag = int(args[0][1])
        for x in (1, 2, 3):
            k = count(world, agent, tag)
            world.emit((agent.name, S("each"), N(tag), N(k)))
            fault = faults.get((agent.name, tag, k))
            if fault == "fails":
                return
            if fault and fault != "later":
                raise ref.RefError(fault)
            r = ref.unify(args[1], N(x), s)
            if r is not None:
                yield r
            if fault:
                raise ref.RefError(fault)
    return {".act": one, ".each": each}


def strike(fault):
    if fault in ("python", "later"):
        raise Boom("boom")
    if fault == "asl":
        raise agentspeak.AslError("boom")
    if fault == "stop":
        raise StopIteration("boom")
    if fault == "deep":
        raise RecursionError("boom")
    if fault == "message":
        raise KeyError("100% of {it} %s %d", (1, 2), None)


def calls_impl(actions, trace, faults, counts):
    def count(agent, tag):
        key = (agent.name, tag)
        counts[key] = counts.get(key, 0) + 1
        return counts[key]

    @actions.add(".act")
    def one(agent, term, intention):
        tag = int(term.args[0])
        k = count(agent, tag)
        names = {}
        trace.append((agent.name, S("act"), N(tag), N(k)) + tuple(impl.deep(a, intention.scope, names) for a in term.args[1:]))
        fault = faults.get((agent.name, tag, k))
        if fault == "fails":
            return
        if fault and fault != "later":
            strike(fault)
        yield
        if fault:
            strike(fault)

    @actions.add(".each", 2)
    def each(agent, term, intention):
        tag = int(term.args[0])
        for x in (1, 2, 3):
            k = count(agent, tag)
            trace.append((agent.name, S("each"), N(tag), N(k)))
            fault = faults.get((agent.name, tag, k))
            if fault == "fails":
                return
            if fault and fault != "later":
                strike(fault)
            choicepoint = object()
            intention.stack.append(choicepoint)
            if agentspeak.unify(term.args[1], x, intention.scope, intention.stack):
                yield
            agentspeak.reroll(intention.scope, intention.stack, choicepoint)
            if fault:
                strike(fault)


def guarded(run, f, log):
    """Runs f once; True if it ended with an error, whose record becomes an observation."""
    before = len(log.records)
    try:
        f()
        if log.errors():
            run.trace.append(("?", S("ERROR"), S("reported in the log only")))
        return False
    except impl.ERRORS:
        pass
    errors = [r for r in log.records[before:] if r[0] >= logging.ERROR]
    log.records[:] = []
    if len(errors) != 1:
        run.trace.append(("?", S("ERROR"), S("%d records" % len(errors))))
        return True
    loc = errors[0][2]
    if loc is None:
        run.trace.append(("?", S("ERROR"), S("no location")))
        return True
    run.trace.append((loc.filename, S("ERROR"), S(loc.filename), N(loc.lineno)))
    # The report can be shown and tells where.
    record = logging.LogRecord("mc", errors[0][0], "", 0, errors[0][1].replace("%", "%%"), (), None)
    record.loc, record.extra_locs = loc, (loc,)
    shown = agentspeak.LogFormatter("%(message)s").format(record)
    if "%s:%d:" % (loc.filename, loc.lineno) not in shown:
        run.trace.append(("?", S("ERROR"), S("shown as " + shown)))
    return True


class Sleep(Exception):
    pass


def drive(run, how):
    with impl.Capture() as log:
        calls = [0]

        def limited(f):
            calls[0] += 1
            if calls[0] > 400:
                raise impl.StepLimit("still running after %d calls of the run loop" % calls[0])
            return guarded(run, f, log)
        agents = list(run.env.agents.values())
        if how == "env.run":
            while limited(run.env.run):
                pass
        elif how == "agent.run":
            more = True
            while more:
                before = len(run.trace)
                failed = [limited(a.run) for a in agents]
                more = any(failed) or len(run.trace) > before
        elif how == "run_agent":
            more = True
            while more:
                before = len(run.trace)
                failed = [limited(lambda: run.env.run_agent(a)) for a in agents[::-1]]
                more = any(failed) or len(run.trace) > before
        else:
            busy = [True]

            def step(a):
                if a.step():
                    busy[0] = True
            n = 0
            while busy[0]:
                busy[0] = False
                for a in agents:
                    n += 1
                    calls[0] = 0
                    if n > 2000:
                        raise impl.StepLimit("still running after %d steps" % n)
                    if limited(lambda: step(a)):
                        busy[0] = True
    return len(run.trace)


DRIVERS = ("step", "env.run", "agent.run", "run_agent")


def conform(progs, faults, how, stats):
    where = lines(progs)

    stats.state((sorted(where), sorted(faults.items()), how))

    def locate(st):
        places = where.get(ref.stext(st, "").splitlines()[0].strip().rstrip(";."), ())
        if len(places) != 1:
            raise AssertionError("statement %r at %r" % (st, places))
        return places[0]

    def prepare(world):
        world.where = locate

    def extra(actions, trace):
        calls_impl(actions, trace, faults, {})
    why = impl.conform(progs, stats, extra=extra, model_actions=calls_model(faults), waits=WAITS, faults=True, cached=True, prepare=prepare, driver=lambda run: drive(run, how))
    return why and "faults %r, %s: %s" % (faults, how, why)


def occurring(progs, stats):
    """The action calls of the run without faults."""
    trace = []
    actions = impl.make_actions(trace)
    calls_impl(actions, trace, {}, {})
    run = impl.Run.__new__(impl.Run)
    run.trace, run.env = trace, agentspeak.runtime.Environment()
    for name, p in progs:
        impl.build(run.env, name, ref.program_text(p), actions)
    drive(run, "step")
    return sorted(set((t[0], int(t[2][1]), int(t[3][1])) for t in trace if len(t) > 3 and t[1] in (S("act"), S("each"))))


GOALS = [("g1", "g2", "g3"), ("g2", "g1", "g3"), ("g3", "g2", "g1")]


def make(case):
    names, nest, goals = case[:3]
    table = dict(FAILURES, **{"ok " + k: f for k, f in STATEMENTS.items()})
    return programs([table[n](1 + 4 * i) for i, n in enumerate(names)], nest, GOALS[goals])


def gen_faults(tier):
    names = sorted("ok " + k for k in STATEMENTS)
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for i, seq in enumerate(itertools.product(names, repeat=n)):
            if n == 3 and i % 5:
                continue
            for goals in range(len(GOALS)):
                if n > 1 and goals != i % len(GOALS) and (tier == "quick" or n == 3):
                    continue
                yield [list(seq), None, goals, i, tier == "thorough" and n < 3]


def run_faults(case, stats):
    progs = make(case)
    n = case[3]
    points = occurring(progs, stats)
    for j, point in enumerate(points):
        for k, kind in enumerate(KINDS):
            if len(case[0]) > 1 and not case[4] and (n + j + k) % 7 not in (0, 3):
                continue
            why = conform(progs, {point: kind}, DRIVERS[(n + j + k) % len(DRIVERS)], stats)
            if why:
                return why
    return None


def gen_pairs(tier):
    names = sorted("ok " + k for k in STATEMENTS)
    for i, n in enumerate(names):
        for goals in range(len(GOALS)):
            for part in range(4):
                yield [[n], None, goals, part]
    if tier == "thorough":
        for i, seq in enumerate(itertools.product(names, repeat=2)):
            yield [list(seq), None, i % len(GOALS), 4 + i % 4]


def run_pairs(case, stats):
    progs = make(case)
    points = occurring(progs, stats)
    for j, (p1, p2) in enumerate(itertools.combinations(points, 2)):
        for k, (k1, k2) in enumerate((("python", "asl"), ("fails", "later"), ("asl", "fails"))):
            if (j + k) % 4 != case[3] % 4:
                continue
            why = conform(progs, {p1: k1, p2: k2}, DRIVERS[(case[3] + j) % len(DRIVERS)], stats)
            if why:
                return why
    return None


def gen_nested(tier):
    for i, (nest, name) in enumerate(itertools.product(sorted(NEST), sorted("ok " + k for k in STATEMENTS))):
        for goals in range(len(GOALS)):
            if tier == "thorough" or goals == i % len(GOALS):
                yield [[name], nest, goals, i]


def run_nested(case, stats):
    progs = make(case)
    for j, point in enumerate(occurring(progs, stats)):
        for k, kind in enumerate(KINDS):
            if (case[3] + j + k) % 7 in (0, 1, 3):
                why = conform(progs, {point: kind}, DRIVERS[(case[3] + j + k) % len(DRIVERS)], stats)
                if why:
                    return why
    return None


def gen_failures(tier):
    for nest in sorted(NEST):
        for name in sorted(FAILURES):
            for goals in range(len(GOALS)):
                for d in range(len(DRIVERS)):
                    if tier == "thorough" or d in (goals, 3 - goals):
                        yield [[name], nest, goals, d]
    both = sorted(FAILURES) + sorted("ok " + k for k in STATEMENTS)
    for i, (x, y) in enumerate(itertools.product(both, repeat=2)):
        if x.startswith("ok") and y.startswith("ok"):
            continue
        for goals in range(len(GOALS)):
            if tier == "thorough" or goals == i % 3:
                yield [[x, y], None, goals, i % 4]


def run_failures(case, stats):
    return conform(make(case), {}, DRIVERS[case[3]], stats)


SUITES = {"failures": (gen_failures, run_failures), "faults": (gen_faults, run_faults), "nested": (gen_nested, run_nested), "pairs": (gen_pairs, run_pairs), "scale": scale.suite(PROPERTY)}


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime


if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
