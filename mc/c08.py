"""C08: waiting intentions resume exactly when their event or deadline comes."""
import time
# The clock is replaced before the package is imported.
CLOCK = None
REAL = dict((k, getattr(time, k)) for k in ("time", "monotonic", "perf_counter", "sleep"))


def _read(kind):
    def read():
        return CLOCK.read() if CLOCK is not None else REAL[kind]()
    return read


def _sleep(seconds):
    if CLOCK is None:
        return REAL["sleep"](seconds)
    CLOCK.sleep(seconds)


import harness
if __name__ == "__main__":
    harness.reexec()
for _k in ("time", "monotonic", "perf_counter"):
    setattr(time, _k, _read(_k))
time.sleep = _sleep
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C08"
RULE = ("every combination of waiting intentions (event, timeout, both, loops of waits) and driver statements (events, clock "
        "advances, waits), every event pattern of an alphabet against every event of one (all kinds of terms, annotations, triggers), and waits of fractional, huge and negative durations, run by the real run loop under a virtual clock that may jump at every single clock read or sleep "
        "(bounded number of jumps); traces with virtual time stamps are compared with a timed model; a state is a distinct "
        "(program, clock behaviour, observations so far), a transition a clock read, a sleep or an observation")
ASSUMPTIONS = ["the clock does not go backwards", "a sleep lasts at least as long as requested and takes more than no time",
               "whether a deadline equal to the current time has elapsed is not specified"]

X, Y, K = V("X"), V("Y"), V("K")


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


def emit(*t):
    return act(".emit", *t)


def e(*a, **kw):
    return F("e", *a, **kw)


WAITS = {
    "+e(1)": ("+", e(N(1))), "+e(_)": ("+", e(W)), "-e(1)": ("-", e(N(1))), "+!g(2)": ("+!", F("g", N(2))),
    "+!g(X)": ("+!", F("g", X)), "+?t(1)": ("+?", F("t", N(1))), "+e(2)[source(ag)]": ("+", e(N(2), annots=(F("source", F("ag")),))),
    "+e(f(X, X))": ("+", e(F("f", X, X))), "+e(X)[source(Y)].": ("+", e(X, annots=(F("source", Y),))),
}


def wait(*args):
    return act(".wait", *[S(a) if isinstance(a, str) else N(a) for a in args])


SPECS = {
    "e1": (wait("+e(1)"),), "e_": (wait("+e(_)"),), "e1-10": (wait("+e(1)", 10),), "10": (wait(10),), "30": (wait(30),),
    "g2": (wait("+!g(2)"),), "del": (wait("-e(1)"),), "src": (wait("+e(2)[source(ag)]"),), "gX-30": (wait("+!g(X)", 30),),
    "0": (wait(0),), "t": (wait("+?t(1)"),), "e_-10": (wait("+e(_)", 10),), "ff": (wait("+e(f(X, X))", 30),),
    "loop": (("for", ("act", ".range", (N(2), K)), (wait("+e(_)", 10), emit(S("l"), K))),),
    "10,e1": (wait(10), emit(S("m")), wait("+e(1)", 30)), "sub": (("!", F("w", X)), emit(S("m"), X)),
    "if": (("if", ("act", ".wait", (S("+e(1)"), N(10))), (emit(S("then")),)),),
    "while": (("while", ("and", ("not", ("lit", e(N(1)))), ("and", ("lit", F("n", Y)), ("cmp", "<", Y, N(3)))),
                 (wait(10), emit(S("again"), Y), ("-+", F("n", ("o", "+", Y, N(1)))))),),
}
DRIVE = {
    "+1": ("+", e(N(1))), "+2": ("+", e(N(2))), "-1": ("-", e(N(1))), "!g2": ("!", F("g", N(2))), "!!g3": ("!!", F("g", N(3))),
    "t7": act(".tick", N(7)), "t50": act(".tick", N(50)), "w20": wait(20), "?t": ("?", F("t", N(1))),
    "tell2": act(".send", F("ag"), F("tell"), e(N(2))), "+ff": ("+", e(F("f", N(1), N(1)))), "+fg": ("+", e(F("f", N(1), N(2)))),
}
FEWW = ("e1", "e1-10", "10", "30", "loop", "gX-30", "sub")
FEWD = ("+1", "t7", "t50", "w20", "!g2")


def program(waits, drive, name="ag"):
    plans = []
    goals = []
    for i, w in enumerate(waits):
        goals.append(F("i%d" % i))
        plans.append((None, "+!", goals[-1], None, (emit(S("s"), N(i)),) + SPECS[w] + (emit(S("r"), N(i)), )))
    if "sub" in waits:
        plans.append((None, "+!", F("w", X), None, (wait("+e(_)", 10), ("q", ("uni", X, N(4))))))
    if drive is not None:
        body = []
        for j, d in enumerate(drive):
            body += [DRIVE[d], emit(S("d"), N(j))]
        goals.append(F("drive"))
        plans.append((None, "+!", goals[-1], None, tuple(body)))
        if any("g" in d for d in drive):
            plans.append((None, "+!", F("g", X), None, (emit(S("g"), X),)))
    beliefs = (F("t", N(1)),) if drive and "?t" in drive else ()
    if "while" in waits:
        beliefs += (F("n", N(0)),)
    return (beliefs, (), tuple(goals), tuple(plans))


class Clock(object):
    def __init__(self, jumps, delta):
        self.now = 1000.0
        self.jumps = jumps
        self.delta = delta
        self.reads = 0
        self.sleeps = 0

    def jump(self):
        if self.reads in self.jumps:
            self.now += self.delta
        self.reads += 1
        if self.reads > 4000:
            raise RuntimeError("the run loop keeps polling")

    def read(self):
        self.jump()
        return self.now

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps += 1
        self.now += seconds + 1e-6
        self.jump()
        if self.sleeps > 1000:
            raise RuntimeError("the run loop keeps sleeping")


GRAIN = [1000]


def stamp(now):
    return N(round((now - 1000.0) * GRAIN[0]))


class World(ref.World):
    def emit(self, item):
        ref.World.emit(self, item + (stamp(self.now),))

    def drive(self):
        for name, prog in self.programs:
            self.add(name, prog)
        self.run_timed()


def model_tick(world, agent, args, s):
    world.now += args[0][1] / 1000.0
    yield s


def execute(programs, jumps, delta, mode, stats):
    """Returns (clock, observations, error)."""
    global CLOCK
    trace = []
    clock = Clock(jumps, delta)

    def extra(actions, trace):
        @actions.add(".tick", 1)
        def _tick(agent, term, intention):
            clock.now += agentspeak.grounded(term.args[0], intention.scope) / 1000.0
            yield

    class Stamped(list):
        def append(self, item):
            list.append(self, item + (stamp(clock.now),))
            if len(self) > 300:
                raise RuntimeError("too many observations")
    trace = Stamped()
    actions = impl.make_actions(trace, extra=extra)
    CLOCK = clock
    error = None
    try:
        env = agentspeak.runtime.Environment()
        agents = [env.build_agent(impl.source(n, ref.program_text(p)), actions, name=n) for n, p in programs]
        if mode == "agent":
            env.run_agent(agents[0])
        else:
            env.run()
    except Exception as err:
        error = err
    finally:
        CLOCK = None
    stats.step(clock.reads + clock.sleeps + len(trace))
    return clock, [impl.canonical(i) for i in trace], error


def check(programs, jumps, delta, mode, stats):
    clock, items, error = execute(programs, jumps, delta, mode, stats)

    def build(chooser, expected):
        world = World(chooser, expected, {".tick": model_tick})
        world.programs = programs
        world.WAITS = WAITS
        world.now = 1000.0
        world.jumps = len(jumps)
        world.JUMP = delta
        return world

    def accept(world, err):
        if (err is None) != (error is None):
            return "model: %r, implementation: %r" % (err, error)
        return None
    try:
        ok, explored, why = ref.outcomes_match(build, items, accept, 4000)
    except ref.Limit:
        stats.count("outside_model")
        return clock, None
    stats.validated += 1
    stats.count("model_paths", explored)
    for i in range(len(items) + 1):
        stats.state((programs, jumps, delta, mode, i))
    if not ok:
        return clock, "program\n%s\nclock jumps of %g at reads %s, mode %s: observed %s, error %r, not explained by the model: %s" % (
            "\n".join("%% %s\n%s" % (n, ref.program_text(p)) for n, p in programs), delta, jumps, mode, items, error, why)
    return clock, None


def explore(programs, mode, stats, bound, deltas):
    """All clock behaviours with at most bound jumps."""
    clock, msg = check(programs, (), 0.0, mode, stats)
    if msg:
        return msg
    for delta in deltas:
        pending = [((), clock.reads)]
        while pending:
            jumps, reads = pending.pop()
            if len(jumps) == bound:
                continue
            for i in range(jumps[-1] + 1 if jumps else 0, reads):
                c, msg = check(programs, jumps + (i,), delta, mode, stats)
                if msg:
                    return msg
                pending.append((jumps + (i,), c.reads))
    return None


def gen_plain(tier):
    for w in SPECS:
        for d in itertools.product(DRIVE, repeat=2):
            yield [[w], d, "env", 0]
    for w in itertools.product(SPECS, repeat=2):
        for d in DRIVE:
            yield [w, [d], "env", 0]
    for w in itertools.product(FEWW, repeat=2):
        for d in itertools.product(FEWD, repeat=3):
            yield [w, d, "env", 0]
    for w in itertools.product(FEWW[:5], repeat=3):
        for d in itertools.product(FEWD, repeat=2):
            yield [w, d, "agent", 0]
    if tier == "thorough":
        for w in itertools.product(SPECS, repeat=2):
            for d in itertools.product(DRIVE, repeat=2):
                yield [w, d, "agent", 0]
        for w in itertools.product(FEWW, repeat=3):
            for d in itertools.product(FEWD, repeat=3):
                yield [w, d, "env", 0]


def gen_jumps(tier):
    for w in SPECS:
        for mode in ("env", "agent"):
            for d in DRIVE:
                yield [[w], [d], mode, 1]
    for w in FEWW:
        for d in itertools.product(FEWD, repeat=2):
            yield [[w], d, "env", 1]
    for w in itertools.product(FEWW[1:], repeat=2):
        for d in (["t7"], ["+1"], []):
            yield [w, d, "env", 1]
            yield [w, d, "agent", 1]
    for w in FEWW[:4]:
        for d in FEWD:
            yield [[w], [d], "env", 2]
    if tier == "thorough":
        for w in itertools.product(SPECS, repeat=2):
            if "while" in w and ("loop" in w or w[0] == w[1]):
                continue    # too many clock reads for the model search
            for d in FEWD:
                yield [w, [d], "env", 1]
        for w in itertools.product(FEWW, repeat=2):
            for d in FEWD:
                yield [w, [d], "env", 2]
        for w in ("10", "e1-10"):
            for d in ("+1", "t7"):
                yield [[w], [d], "agent", 3]


def run_single(case, stats):
    w, d, mode, bound = ref.tup(case)
    programs = [("ag", program(w, d))]
    return explore(programs, mode, stats, bound, (0.012, 1.0))


# ---- several agents: whoever waits does not keep the others from running

def gen_agents(tier):
    for w1 in FEWW:
        for w2 in FEWW:
            for d in itertools.product(("tell2", "t7", "w20", "+1"), repeat=2):
                yield [w1, w2, d, 0]
    for w1 in ("10", "30", "e1-10"):
        for w2 in ("10", "30", "e_-10"):
            for d in (["tell2"], ["w20"], ["t7"]):
                yield [w1, w2, d, 1 if tier != "thorough" else 2]


def run_agents(case, stats):
    w1, w2, d, bound = ref.tup(case)
    programs = [("ag", program((w1,), None)), ("other", program((w2,), d))]
    return explore(programs, "env", stats, bound, (0.012,))


# ---- times that are no whole numbers of milliseconds

TIMES = (0, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.25, 9.75, 10, 999.5, 1000, 1000.25, 86400000, -5, -0.5)


def gen_times(tier):
    for t in itertools.product(range(len(TIMES)), repeat=2):
        for kind in ("wait", "both", "expr", "var"):
            yield [list(t), kind]
    for t in itertools.product(range(0, 10, 1 if tier == "thorough" else 2), repeat=3):
        yield [list(t), "wait"]
        yield [list(t), "twice"]


def run_times(case, stats):
    times, kind = case
    plans = []
    for i, t in enumerate(times):
        t = TIMES[t]
        body = (wait("+e(1)", t),) if kind == "both" else (act(".wait", ("o", "+", N(t - 1), N(1))),) if kind == "expr" else (("q", ("uni", X, N(t))), act(".wait", X)) if kind == "var" else (wait(t),)
        if kind == "twice":
            body += (emit(S("m"), N(i)), wait(0.75))
        plans.append((None, "+!", F("i%d" % i), None, body + (emit(S("r"), N(i)),)))
    prog = ((), (), tuple(F("i%d" % i) for i in range(len(times))), tuple(plans))
    # Hundredths of a millisecond.
    GRAIN[0] = 100000
    try:
        for mode in ("env", "agent"):
            _, msg = check([("ag", prog)], (), 0.0, mode, stats)
            if msg:
                return msg
    finally:
        GRAIN[0] = 1000
    return None


# ---- what is waited for and what happens

WPARTS = [N(1), N(0.5), N(-1.5), S("a.b"), S("x."), S("."), S('q"'), F("a"), F("f", N(0.5), S(".")), L(N(0.5), F("a")), C(X, Y), C(N(1), L()), X, W, B(True), F("~n", X), F("f", X, X), F("f", X, W), F("a", annots=(F("k"),)), L()]
HAPPENS = [N(1), N(0.5), N(-1.5), S("a.b"), S("x."), S("."), S('q"'), F("a"), F("f", N(0.5), S(".")), L(N(0.5), F("a")), L(N(1)), B(True), F("~n", N(1)), F("f", N(1), N(1)), F("f", N(1), N(2)), F("a", annots=(F("k"),)), L(), F("f", X, N(2))]
WHEADS = [lambda t: F("e", t), lambda t: F("~e", t), lambda t: F("e", t, X), lambda t: F("e"), lambda t: F("e", N(7), annots=(F("k", t),)), lambda t: F("e", W, annots=(t,))]
WTRIGGERS = ("+", "-", "+!", "+?", "-!")


def gen_patterns(tier):
    for p in range(len(WPARTS)):
        for h in range(len(HAPPENS)):
            for head in (0, 1, 2, 4):
                yield [p, h, head, head, 0, 0, (p + h) % 4]
    for p in range(0, len(WPARTS), 1 if tier == "thorough" else 3):
        for heads in itertools.product(range(len(WHEADS)), repeat=2):
            for triggers in itertools.product(range(len(WTRIGGERS)), repeat=2):
                if tier == "thorough" or (sum(heads) + sum(triggers)) % 2 == 0 or triggers[0] == triggers[1]:
                    yield [p, p % len(HAPPENS), *heads, *triggers, (p + sum(heads)) % 4]


def run_patterns(case, stats):
    p, h, h1, h2, t1, t2, style = case
    pattern, event = WHEADS[h1](WPARTS[p]), WHEADS[h2](HAPPENS[h])
    if h1 == 5 and WPARTS[p][0] != "f":
        pattern = F("e", W, annots=(WPARTS[7],))
    if h2 == 5:
        event = F("e", N(7), annots=(HAPPENS[h] if HAPPENS[h][0] == "f" else F("a"),))
    trigger, kind = WTRIGGERS[t1], WTRIGGERS[t2]
    text = trigger + ref.text(pattern) + ("", ".", " .", " ")[style]
    event = ref.rename(event, lambda v: V("E" + v[1]) if v[0] == "v" else v)
    if kind in "+-" and ref.variables(event):
        return None
    do = {"+": ("+", event), "-": ("-", event), "+!": ("!", event), "+?": ("?", event), "-!": act(".send", F("ag"), F("unachieve"), event)}[kind]
    before = (("+", event),) if kind == "-" else ()
    plans = [(None, "+!", F("i"), None, before + (wait(text), emit(S("r")))), (None, "+!", F("j"), None, (("!", F("k")), ("!", F("k")), do, emit(S("d")))), (None, "+!", F("k"), None, ())]
    for name in ("e", "~e"):
        plans += [(None, "+!", F(name, *a), None, (emit(S("g")),)) for a in ((), (W,), (W, W))]
        plans += [(None, "+?", F(name, *a), None, (emit(S("q")),)) for a in ((), (W,), (W, W))]
    before = dict(WAITS)
    WAITS[text] = (trigger, pattern)
    try:
        _, msg = check([("ag", ((), (), (F("i"), F("j")), tuple(plans)))], (), 0.0, "env", stats)
    finally:
        WAITS.clear()
        WAITS.update(before)
    return msg


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime


SUITES = {"patterns": (gen_patterns, run_patterns), "times": (gen_times, run_times), "single": (gen_plain, run_single), "jumps": (gen_jumps, run_single), "agents": (gen_agents, run_agents), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
