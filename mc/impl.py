"""
Driving the real implementation: building agents from source text through the
public API, observing them through a custom action, and converting terms to
the model's representation.
"""
import logging
import sys

import agentspeak
import agentspeak.runtime
import agentspeak.stdlib
import agentspeak.ext_stdlib
import agentspeak.lexer
import agentspeak.parser

import ref


class Unknown(Exception):
    pass


def to_ref(t, names=None):
    """Converts a term of the implementation; variables by identity."""
    if names is None:
        names = {}
    if t is True or t is False:
        return ("b", t)
    if isinstance(t, (int, float)):
        return ("n", float(t))
    if isinstance(t, str):
        return ("s", t)
    if isinstance(t, agentspeak.Wildcard):
        return ("w",)
    if isinstance(t, agentspeak.Var):
        if t not in names:
            names[t] = ("v", len(names))
        return names[t]
    if isinstance(t, tuple):
        return ("l", tuple(to_ref(x, names) for x in t))
    if isinstance(t, agentspeak.LinkedList):
        h = to_ref(t.head, names)
        return ref.mkcons(h, to_ref(t.tail, names))
    if isinstance(t, agentspeak.Literal):
        args = tuple(to_ref(x, names) for x in t.args)
        return ("f", t.functor, args, ref.norm_annots(to_ref(x, names) for x in t.annots))
    raise Unknown("%r" % (t,))


def deep(t, scope, names):
    """Deep resolution of an implementation term under a scope, without using its own freeze()."""
    seen = 0
    while isinstance(t, agentspeak.Var) and not isinstance(t, agentspeak.Wildcard) and t in scope:
        t = scope[t]
        seen += 1
        if seen > 10000:
            raise Unknown("cyclic variable chain")
    if isinstance(t, tuple):
        return ("l", tuple(deep(x, scope, names) for x in t))
    if isinstance(t, agentspeak.LinkedList):
        h = deep(t.head, scope, names)
        return ref.mkcons(h, deep(t.tail, scope, names))
    if isinstance(t, agentspeak.Literal):
        return ("f", t.functor, tuple(deep(x, scope, names) for x in t.args),
                ref.norm_annots(deep(x, scope, names) for x in t.annots))
    if hasattr(t, "evaluate") and not isinstance(t, agentspeak.Var):
        return deep(t.evaluate(scope), scope, names)
    return to_ref(t, names)


def from_ref(t, names):
    """Converts a term of the model to an implementation term; names maps variable keys to Vars."""
    k = t[0]
    if k in ("n", "s", "b"):
        return t[1]
    if k == "w":
        return agentspeak.Wildcard()
    if k == "v":
        if t not in names:
            names[t] = agentspeak.Var()
        return names[t]
    if k == "f":
        return agentspeak.Literal(t[1], [from_ref(x, names) for x in t[2]],
                                  [from_ref(x, names) for x in t[3]])
    if k == "l":
        return tuple(from_ref(x, names) for x in t[1])
    if k == "c":
        return agentspeak.LinkedList(from_ref(t[1], names), from_ref(t[2], names))
    if k == "o":
        for op in agentspeak.BinaryOp:
            if op.value.lexeme == t[1]:
                return agentspeak.BinaryExpr(op.value, from_ref(t[2], names), from_ref(t[3], names))
    if k == "u":
        for op in agentspeak.UnaryOp:
            if op.value.lexeme == t[1]:
                return agentspeak.UnaryExpr(op.value, from_ref(t[2], names))
    raise AssertionError(t)


ERRORS = (agentspeak.AslError, agentspeak.AggregatedError)


class Capture(object):
    """Collects everything that is logged: records are (level, message, loc)."""

    def __enter__(self):
        self.records = []
        records = self.records

        class Handler(logging.Handler):
            def emit(self, record):
                records.append((record.levelno, record.getMessage(), record.__dict__.get("loc")))

        self.handler = Handler()
        self.disabled = logging.root.manager.disable
        for logger in logging.root.manager.loggerDict.values():
            if isinstance(logger, logging.Logger):
                logger.handlers = []
        logging.root.addHandler(self.handler)
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *args):
        logging.root.removeHandler(self.handler)
        logging.disable(self.disabled)

    def errors(self):
        return [(m, loc) for level, m, loc in self.records if level >= logging.ERROR]


class StepLimit(Exception):
    pass


class Boom(Exception):
    pass


def make_actions(trace, parent=None, extra=None):
    actions = agentspeak.Actions(parent or agentspeak.ext_stdlib.actions)

    @actions.add(".emit")
    def _emit(agent, term, intention):
        names = {}
        trace.append((agent.name,) + tuple(deep(a, intention.scope, names) for a in term.args))
        yield

    @actions.add(".boom")
    def _boom(agent, term, intention):
        raise Boom("boom")
        yield

    if extra:
        extra(actions, trace)
    return actions


def canonical(item):
    """Variables of a trace item numbered by first occurrence after normalisation."""
    return (item[0],) + ref.canon(item[1:])


def source(name, text):
    return agentspeak.StringSource(name, text)


_ASTS = {}


def build(env, name, text, actions):
    """As build_agent, but parses the same text only once (as build_agents does)."""
    if not hasattr(env, "build_agent_from_ast"):
        return env.build_agent(source(name, text), actions, name=name)
    key = (name, text)
    if key not in _ASTS:
        if len(_ASTS) > 200:
            _ASTS.clear()
        log = agentspeak.Log(agentspeak.get_logger("mc"), 3)
        src = source(name, text)
        _ASTS[key] = (src, agentspeak.parser.parse(src.name, agentspeak.lexer.TokenStream(src, log), log))
        log.throw()
    src, ast_agent = _ASTS[key]
    return env.build_agent_from_ast(src, ast_agent, actions, name=name)[1]


build_cached = build


class Run(object):
    """One or several agents in an environment with an observation trace."""

    def __init__(self, programs, extra=None, actions=None, cached=False):
        self.trace = []
        self.env = agentspeak.runtime.Environment()
        self.actions = actions or make_actions(self.trace, extra=extra)
        self.agents = []
        self.error = None
        for name, text in programs:
            if cached:
                self.agents.append(build(self.env, name, text, self.actions))
            else:
                self.agents.append(self.env.build_agent(source(name, text), self.actions, name=name))

    def drive(self, limit=4000):
        """The environment's round-robin, bounded."""
        steps = 0
        try:
            more = True
            while more:
                more = False
                for agent in list(self.env.agents.values()):
                    steps += 1
                    if agent.step():
                        more = True
                    if steps > limit:
                        raise StepLimit("still running after %d steps" % limit)
        except ERRORS as e:
            self.error = e
        return steps

    def drive_faults(self, limit=4000):
        """As drive, going on after errors."""
        steps = 0
        more = True
        while more:
            more = False
            for agent in list(self.env.agents.values()):
                steps += 1
                try:
                    if agent.step():
                        more = True
                except ERRORS:
                    self.trace.append((agent.name, ("s", "ERROR")))
                    more = True
                if steps > limit:
                    raise StepLimit("still running after %d steps" % limit)
        return steps

    def beliefs(self, agent=None):
        agent = agent or self.agents[0]
        out = []
        for group, beliefs in agent.beliefs.items():
            for b in beliefs:
                out.append(to_ref(b))
        return sorted(out, key=repr)

    def items(self):
        return [canonical(i) for i in self.trace]


class ModelWorld(ref.World):
    """Model counterpart of Run: programs are (name, program) pairs."""

    faults = False
    phases = ()

    def __init__(self, programs, chooser, expected, actions=None):
        ref.World.__init__(self, chooser, expected, actions)
        self.programs = programs

    def drive(self):
        for name, prog in self.programs:
            self.add(name, prog)
        if self.faults:
            self.run_faults()
            for name, goal in self.phases:
                self.agents[name].event("+", "!", goal, {}, None, delayed=True)
                self.run_faults()
        elif len(self.programs) > 1:
            self.run_any()
        else:
            self.run()


def conform(programs, stats, beliefs=True, limit=4000, extra=None, model_actions=None, texts=None,
            choice_limit=20000, waits=None, faults=False, registries=None, prepare=None,
            cached=False, phases=(), driver=None, key=None):
    """
    Runs the programs on the implementation and checks that the outcome is one
    the model allows.  programs: [(name, model program)].  With faults, errors
    are part of the trace and execution goes on after them.  registries(trace)
    gives the actions by agent name; prepare(world) sets up the model.  phases
    are (name, goal) pairs; each goal is started when everything before it is done.
    driver(run) is used instead of the usual run loop.
    """
    texts = texts or [(n, ref.program_text(p)) for n, p in programs]
    trace = []
    error = None
    recursion = False
    final = None
    steps = 0
    run = Run.__new__(Run)
    try:
        run.trace = trace
        run.env = agentspeak.runtime.Environment()
        run.actions = make_actions(trace, extra=extra)
        run.agents = []
        run.error = None
        by_name = registries(trace) if registries else {}
        for name, text in texts:
            actions = by_name.get(name, run.actions)
            if cached:
                run.agents.append(build_cached(run.env, name, text, actions))
            else:
                run.agents.append(run.env.build_agent(source(name, text), actions, name=name))
        steps = driver(run) if driver else run.drive_faults(limit) if faults else run.drive(limit)
        for name, goal in phases:
            run.env.agents[name].call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement, from_ref(goal, {}),
                                      agentspeak.runtime.Intention(), delayed=True)
            steps += run.drive_faults(limit)
        error = run.error
    except ERRORS as e:
        error = e
    except RecursionError as e:
        # Infinite terms are outside of the model, anything else is a mismatch.
        error = e
        recursion = True
    except StepLimit as e:
        return "%s\n%s" % (e, "\n".join(t for _, t in texts))
    items = [canonical(i) for i in trace]
    if beliefs:
        final = [[to_ref(b) for bs in a.beliefs.values() for b in bs] for a in run.agents]
        final = [sorted(x, key=repr) for x in final]

    def build(chooser, expected):
        world = ModelWorld(programs, chooser, expected, model_actions)
        world.WAITS = waits or {}
        world.faults = faults
        world.phases = phases
        if prepare:
            prepare(world)
        return world

    def accept(world, err):
        if recursion:
            return "unbounded recursion in the implementation"
        if (err is None) != (error is None):
            return "model %s, implementation %s" % (
                "reports error: %s" % err if err else "reports no error",
                "reports error: %r" % error if error else "reports no error")
        if beliefs and error is None:
            model = [sorted(world.agents[n].beliefs, key=repr) for n, _ in programs]
            if model != final:
                return "beliefs differ: model %r, implementation %r" % (model, final)
        return None

    try:
        ok, explored, why = ref.outcomes_match(build, items, accept, choice_limit)
    except (ref.Limit, ref.Cyclic):
        stats.count("outside_model")
        return None
    stats.validated += 1
    key = hash((key, tuple(t for _, t in texts)))
    for i in range(len(items) + 1):
        stats.states.add((key + i * 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF)
    stats.step(steps)
    stats.count("observations", len(items))
    stats.count("model_paths", explored)
    if not ok:
        return "program\n%s\nobserved %s%s\nis not explained by the model (longest prefix %s): %s" % (
            "\n".join("%% %s\n%s" % t for t in texts), items,
            " then error %r" % error if error else "", why[0], "; ".join(map(str, why[1])))
    return None
