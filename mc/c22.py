"""C22: every agent gets a unique, addressable name and builds exactly as requested."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
import os
import re
import sys
from ref import N, S, B, F
import ref

PROPERTY = "C22"
RULE = ("names: every source name of up to three (thorough four) characters from letters, digits, separators and others, and every keyword with several endings, built twice; histories: every "
        "sequence of up to three (thorough four) build requests from single and multiple builds, with and without explicit names, failing in every way, over sources whose names collide; "
        "running: the same with running and messages between the requests and requests by agents themselves; many: long sequences over colliding sources; a state is a distinct "
        "(requests, names), a transition a build request or message")
DESIGN = ("after every history the registry of the environment must hold exactly the agents returned, under valid, unused names related to their sources; every agent is asked for its name and "
          "addressed by it, as atom and as string, from a program; agents built together must behave alike; failed requests must leave no trace")
ASSUMPTIONS = ["a derived name is valid if it can be written as an atom and related if it contains the ASCII letters and digits of the file name without extension",
               "an explicit name that is a valid identifier and not in use is used as it is",
               "not judged: agents that remain when building several fails after the first one; requests made while an agent is being built"]

KEYWORDS = ["true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"]
VALID = re.compile(r"^[a-z][a-zA-Z0-9_]*$")

GOOD = """
kind(%d).
self(1). self(2).
!start.
!more(2). !more(1). !more(2).
r(2, 7) :- self(2). r(3, 8) :- self(1). r(2, 9) :- true.
+!start <- .my_name(N); .emit(name, N); ?kind(K); .emit(kind, K).
@l1 +!more(X) : r(X, Y) <- .emit(more, X, Y).
@l2 +!more(X) : not r(X, 8) <- .emit(none, X).
@l3 +!more(X) <- .emit(never).
+hi(X)[source(S)] <- .emit(hi, X, S).
"""
BAD = {
    "syntax": "a. !start. +!start <- .emit(never",
    "character": "a. !start. +!start <- .emit(never) $.",
    "check": "a. !start. +!start <- .emit(never). +!other <- X = . b",
    "static": "p(1 + a). !start. +!start <- .emit(never).",
    "goal": "a. !start. !nothing. +!start <- .emit(never).",
    "context": "a. !start. !other. +!start <- .emit(never). +!other : .boom <- true.",
    "comparison": "a. !start. !other(a). +!start <- .emit(never). +!other(X) : X < 1 <- true.",
    "include": "{ include(\"missing_file.asl\") } a. !start. +!start <- .emit(never).",
    "unbound": "a(X). !start. +!start <- .emit(never).",
}


MORE = [(F("more"), N(2), N(7)), (F("none"), N(1)), (F("more"), N(2), N(7))]


def related(source, name):
    """Whether the name can have been derived from the source."""
    want = re.sub("[^a-z0-9]", "", os.path.splitext(os.path.basename(source))[0].lower())
    return want in re.sub("[^a-z0-9]", "", name.lower())


class World(object):
    """An environment with the requests made so far."""

    def __init__(self, stats):
        self.stats = stats
        self.trace = []
        self.env = agentspeak.runtime.Environment()
        self.agents = []        # successful builds in order
        self.kinds = {}
        self.count = 0
        self.log = []
        self.actions = impl.make_actions(self.trace)
        self.seen = 0

    def request(self, req):
        """req: (source, explicit name or None, number or None for a single one, failure or None).  Returns a message or None."""
        source, explicit, n, failure = req
        self.count += 1
        self.stats.step()
        before = list(self.env.agents.items())
        text = BAD[failure] if failure else GOOD % self.count
        src = agentspeak.StringSource(source, text)
        kwargs = {} if explicit is None else {"name": explicit}
        cls = agentspeak.runtime.Agent
        if self.count % 2:
            cls = Special
            kwargs["agent_cls"] = cls
        error = None
        with impl.Capture():
            try:
                if n is None:
                    new = [self.env.build_agent(src, self.actions, **kwargs)]
                else:
                    new = self.env.build_agents(src, n, self.actions, **kwargs)
            except impl.ERRORS as e:
                error = e
                new = []
        wanted = 1 if n is None else max(n, 0)
        if failure and wanted:
            if error is None:
                return "no error was reported"
            wanted = 0
        elif error is not None:
            return "failed with %r" % error
        if len(new) != wanted:
            return "%d agents were built" % len(new)
        if list(self.env.agents.items())[:len(before)] != before:
            return "the agents built before changed"
        if len(self.env.agents) != len(before) + len(new):
            return "agents are %s, built were %s" % (sorted(self.env.agents), [a.name for a in new])
        names = set(k for k, _ in before)
        for a in new:
            if type(a) is not cls:
                return "agent %s is no %s" % (a.name, cls)
            if a.env is not self.env or self.env.agents.get(a.name) is not a:
                return "agent %s is not registered under its name" % a.name
            if a.name in names:
                return "the name %s is used twice" % a.name
            if not VALID.match(a.name) or a.name in KEYWORDS:
                return "%r is no valid name" % a.name
            if not related(explicit or source, a.name):
                return "%r is not related to %r" % (a.name, explicit or source)
            if explicit is not None and VALID.match(explicit) and explicit not in KEYWORDS and explicit not in names and a.name != explicit:
                return "the requested name is %r, the agent is %r" % (explicit, a.name)
            names.add(a.name)
            self.kinds[a.name] = self.count
        if len(set(map(id, new))) != len(new):
            return "an agent was returned twice"
        self.agents += new
        return None

    def run(self):
        """Runs everything; every new agent must behave as its program."""
        self.env.run()
        got = {}
        for item in self.trace[self.seen:]:
            got.setdefault(item[0], []).append(item[1:])
        self.seen = len(self.trace)
        return got

    def starts(self, got, agents):
        want = dict((a.name, [(F("name"), F(a.name)), (F("kind"), N(self.kinds[a.name]))] + MORE) for a in agents)
        if got != want:
            return "after building, agents did %r instead of %r" % (got, want)
        for a in agents:
            beliefs = sorted((impl.to_ref(b) for bs in a.beliefs.values() for b in bs), key=repr)
            if beliefs != [F("kind", N(self.kinds[a.name])), F("self", N(1)), F("self", N(2))]:
                return "agent %s believes %r" % (a.name, beliefs)
        return None

    def probe(self):
        """All agents are addressed by a program."""
        names = [a.name for a in self.agents]
        body = []
        for i, n in enumerate(names):
            body.append(".send(%s, tell, hi(%d))" % (n, i))
            body.append(".send(\"%s\", tell, hi(%d))" % (n, 1000 + i))
        if names:
            body.append(".send([%s], tell, hi(2000))" % ", ".join(names))
        body.append(".broadcast(tell, hi(3000))")
        text = "!go.\n+!go <- %s." % "; ".join(body)
        prober = self.env.build_agent(agentspeak.StringSource("prober", text), self.actions)
        self.stats.step(len(body))
        got = self.run()
        for i, n in enumerate(names):
            want = [(F("hi"), N(x), F(prober.name)) for x in (i, 1000 + i, 2000, 3000)]
            if sorted(got.pop(n, []), key=repr) != sorted(want, key=repr):
                return "messages to %s were %r, expected %r" % (n, got.get(n), want)
        if got:
            return "messages arrived elsewhere: %r" % got
        # Telling the same again must find the same agent.
        return None


def check(requests, stats, running=False):
    w = World(stats)
    done = 0
    for i, req in enumerate(requests):
        why = w.request(req)
        if why:
            return "request %d of %r: %s" % (i + 1, requests, why)
        if running:
            why = w.starts(w.run(), w.agents[done:]) or w.probe()
            done = len(w.agents)
            w.kinds.update((n, 0) for n in w.env.agents if n not in w.kinds)
            if why:
                return "request %d of %r: %s" % (i + 1, requests, why)
    if not running:
        why = w.starts(w.run(), w.agents) or w.probe()
        if why:
            return "requests %r: %s" % (requests, why)
    stats.state((requests, sorted(w.env.agents)))
    stats.validated += 1
    return None


# ---- names

ALPHABET = ["a", "B", "1", "_", "-", ".", "/", "\u00fc", " ", "n"]


def gen_names(tier):
    for n in range(4 if tier == "quick" else 5):
        for chars in itertools.product(ALPHABET, repeat=n):
            yield ["".join(chars)]
    for k in KEYWORDS + ["agent", "source", "self", "agent1", "prober", "n1", "Class", "exit"]:
        for form in ("%s", "%s.asl", "%s_.asl", "_%s", "dir/%s.asl", "%s1", "1%s", "%s.%s.asl", ".%s", "-%s", "%s-", "\u00fc%s", "%s\u00fc", "%s.asl.asl", "../%s"):
            yield [form.replace("%s", k)]
            yield [form.replace("%s", k.upper())]
            yield [form.replace("%s", k.capitalize())]


def run_names(case, stats):
    source, = case
    return (check([(source, None, None, None), (source, None, None, None)], stats)
            or check([("x", source or None, None, None), (source, None, 2, None), ("x", source or None, 2, None)], stats))


# ---- histories

SOURCES = ["a", "A.asl", "a1", "dir/a.asl", "1", "agent", ""]
REQUESTS = ([(s, None, None, None) for s in SOURCES] + [("a", None, 3, None), ("a1", None, 2, None), ("a", None, 0, None), ("a", None, -1, None), ("", None, 2, None), ("a", None, 1, None)]
            + [("zz", "a", None, None), ("zz", "a1", 2, None), ("a", "bob", None, None), ("a", "aB_1", 2, None), ("zz", "A-1", None, None), ("zz", "true", 2, None)]
            + [("a", None, None, f) for f in sorted(BAD)] + [("a", None, 2, "goal"), ("a", "bob", None, "context"), ("a", "a1", 3, "syntax")])


def gen_histories(tier):
    for n in (1, 2, 3):
        for i, seq in enumerate(itertools.product(range(len(REQUESTS)), repeat=n)):
            if n == 3 and tier == "quick" and i % 7:
                continue
            yield [list(seq), False]
    if tier == "thorough":
        small = [0, 1, 2, 7, 8, 9, 13, 14, 19, 23, 28]
        for seq in itertools.product(small, repeat=4):
            yield [list(seq), False]


def run_histories(case, stats):
    seq, running = case
    return check([REQUESTS[i] for i in seq], stats, running)


def gen_running(tier):
    for n in (1, 2, 3):
        for i, seq in enumerate(itertools.product(range(len(REQUESTS)), repeat=n)):
            if n == 2 and tier == "quick" and i % 2 or n == 3 and i % (101 if tier == "quick" else 11):
                continue
            yield [list(seq), True]


# ---- requests made by agents

def gen_spawn(tier):
    for n in (1, 2, 3):
        for i, seq in enumerate(itertools.product(range(7), repeat=n)):
            for spawners in (1, 2):
                yield [list(seq), spawners]


SPAWNED = [("child", None), ("child1", None), ("parent", None), ("x", "child"), ("child", "parent1"), ("", None), ("child", "true")]


def run_spawn(case, stats):
    """Agents that build agents while they run, and talk to them."""
    seq, spawners = case
    trace = []
    actions = impl.make_actions(trace)
    env = agentspeak.runtime.Environment()

    @actions.add_function(".spawn", (agentspeak.runtime.Environment, agentspeak.runtime.Agent, int))
    def spawn(env, agent, i):
        source, name = SPAWNED[i]
        kwargs = {} if name is None else {"name": name}
        stats.step()
        return agentspeak.Literal(env.build_agent(agentspeak.StringSource(source, GOOD % 7), actions, **kwargs).name)
    body = "; ".join(".spawn(%d, N%d); .emit(built, N%d); .send(N%d, tell, hi(%d))" % (x, i, i, i, i) for i, x in enumerate(seq))
    text = "!go.\n+!go <- %s." % body
    parents = env.build_agents(agentspeak.StringSource("parent", text), spawners, actions)
    env.run()
    built = [(t[0], t[2]) for t in trace if t[1] == F("built")]
    names = [n[1] for _, n in built]
    stats.state((case, names))
    stats.validated += 1
    if len(names) != len(seq) * spawners or len(set(names) | set(p.name for p in parents)) != len(names) + spawners or set(env.agents) != set(names) | set(p.name for p in parents):
        return "%s\nbuilt %r, agents are %r" % (text, names, sorted(env.agents))
    got = {}
    for t in trace:
        if t[1] != F("built"):
            got.setdefault(t[0], []).append(t[1:])
    order = {}
    for parent, name in built:
        i = order[parent] = order.get(parent, -1) + 1
        want = [(F("name"), name), (F("kind"), N(7)), (F("hi"), N(i), F(parent))] + MORE
        if sorted(got.pop(name[1], []), key=repr) != sorted(want, key=repr) or not VALID.match(name[1]) or name[1] in KEYWORDS:
            return "%s\nagent %r of %s did not start, know its name and get its message: %r" % (text, name[1], parent, trace)
    if got:
        return "%s\nunexpected: %r" % (text, got)
    return None


# ---- many

def gen_many(tier):
    sources = ["a", "a1", "a11", "A", "a_", "1", "n1", "agent", "", "agent2"]
    for k in (1, 2, 3):
        for seq in itertools.combinations(sources, k):
            for n in (None, 3):
                yield [list(seq), n, 30 if tier == "quick" and k > 1 else 130]
    for n in (None, 150):
        yield [["a"], n, 300 if tier == "quick" else 1100]


def run_many(case, stats):
    seq, n, count = case
    return check([(seq[i % len(seq)], None, n, None) for i in range(count // (n or 1))], stats)


SUITES = {"names": (gen_names, run_names), "histories": (gen_histories, run_histories), "running": (gen_running, run_histories), "spawn": (gen_spawn, run_spawn), "many": (gen_many, run_many)}


def setup():
    global impl, agentspeak, Special
    import impl
    import agentspeak
    import agentspeak.runtime

    class Special(agentspeak.runtime.Agent):
        pass


if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
