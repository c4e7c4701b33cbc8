"""C19: custom actions are called as registered, with converted arguments."""
import harness
if __name__ == "__main__":
    harness.reexec()
import functools
import itertools
import scale
import math
import sys
from ref import N, S, B, V, W, F, L, C
import c18
import ref

PROPERTY = "C19"
RULE = ("lookup: every chain of up to three registries, each with any set of registrations of one name for zero, one, two or any number of arguments, against calls with zero to "
        "three arguments; names: the same for names with and without dots, built-in names and beliefs of that name, and agents with different registries; declare: every "
        "declaration of up to three arguments of a function, predicate or procedure against every kind of argument, given as constants, through variables or by expressions; "
        "results: every result against every kind of last argument in every place where a query occurs; objects: every sequence of up to four calls of an action with a memory "
        "in every place; solutions: actions with several answers in every place; a state is a distinct (program, calls and observations so far), a transition a step")
DESIGN = ("lookup, conversion and the effect of the result are defined a second time over the terms of the model; the registered callables record their calls in the trace, "
          "which must be one that the model produces")
ASSUMPTIONS = ["not judged: conversion of booleans and numerals in strings to numbers, of strings to tuples and of unbound variables to strings; registrations after an agent has been built",
               "None, sets, bytes and other values that are no terms are not used as results of functions"]

X, Y, Z, R, Q = V("X"), V("Y"), V("Z"), V("R"), V("Q")


def emit(*t):
    return ("q", ("act", ".emit", tuple(t)))


# ---- replacing calls by what they resolve to

def map_calls(x, f):
    """Applies f to every action call of a program."""
    if isinstance(x, (tuple, list)):
        if len(x) == 3 and x[0] == "act" and isinstance(x[2], tuple):
            return f(x)
        return tuple(map_calls(y, f) for y in x)
    return x


def find(chain, name, arity):
    """The registration that a call runs; chain is a list of {(name, arity or None): tag} from the registry to its ancestors."""
    for level in chain:
        if (name, arity) in level:
            return level[(name, arity)]
        if (name, None) in level:
            return level[(name, None)]
    return None


def resolved(prog, chain, names):
    def f(call):
        if call[1] not in names:
            return call
        tag = find(chain, call[1], len(call[2]))
        return ("lit", F(call[1], *call[2])) if tag is None else ("act", tag, call[2])
    return map_calls(prog, f)


# ---- lookup

class Tags(dict):
    """Model actions: every tag records its call."""

    def __bool__(self):
        return True

    def __contains__(self, name):
        return name.startswith("<")

    def __getitem__(self, name):
        def action(world, agent, args, s):
            world.emit((agent.name, S(name)) + ref.canon([ref.resolve(a, s) for a in args]))
            yield s
        return action


def recorder(trace, tag):
    def f(agent, term, intention):
        names = {}
        trace.append((agent.name, S(tag)) + tuple(impl.deep(a, intention.scope, names) for a in term.args))
        yield
    return f


def register(actions, trace, name, arity, tag, style):
    """The ways to register an action that records its calls."""
    f = recorder(trace, tag)
    if arity is None:
        if style % 2:
            actions.add(name)(f)
        else:
            actions.add(name, None, f)
        return
    style %= 4
    if style == 0:
        actions.add(name, arity)(f)
    elif style == 1:
        actions.add(name, arity, f)
    else:
        specs = [None] * arity
        specs.insert(style % (arity + 1), agentspeak.runtime.Agent)

        def procedure(*args):
            agent = [a for a in args if isinstance(a, agentspeak.runtime.Agent)]
            names = {}
            trace.append((agent[0].name, S(tag)) + tuple(impl.to_ref(a, names) for a in args if a is not agent[0]))

        def predicate(*args):
            procedure(*args)
            return True
        specs = specs if style == 2 else tuple(specs)
        if style == 2:
            actions.add_procedure(name, specs, procedure)
        else:
            actions.add_predicate(name, specs)(predicate)


def chain_of(levels, name):
    """levels: arities (None: any number) per registry, own registry first."""
    return [{(name, arity): "<%d/%s>" % (i, arity) for arity in level} for i, level in enumerate(levels)]


BARE = 2


def registry(chain, trace, style=0):
    if style == BARE:
        # The outermost registry extends nothing.
        actions = agentspeak.Actions()
        actions.add(".emit", None, impl.make_actions(trace).lookup(".emit", 1))
    else:
        actions = impl.make_actions(trace)
    for i, level in reversed(list(enumerate(chain))):
        if style != BARE or i < len(chain) - 1:
            actions = agentspeak.Actions(actions)
        for k, ((name, arity), tag) in enumerate(sorted(level.items(), key=repr)):
            register(actions, trace, name, arity, tag, style + i + k)
    return actions


ARITIES = (0, 1, 2, None)
SUBSETS = [c for k in range(5) for c in itertools.combinations(ARITIES, k)]
ARGS = {0: (), 1: (N(7),), 2: (F("a"), X), 3: (S("s"), N(2), L())}


def calls(name):
    """All calls, each also observed from outside."""
    for n in range(4):
        yield ("if", ("act", name, ARGS[n]), (emit(S("yes"), N(n)),), (emit(S("no"), N(n)),))


def lookup_program(name, beliefs):
    return (beliefs, [(F("r", N(n)), ("act", name, ARGS[n])) for n in range(4)], [F("go")],
            [(None, "+!", F("go"), None, tuple(calls(name)) + tuple(("if", ("lit", F("r", N(n))), (emit(S("rule"), N(n)),), ()) for n in range(4)))])


def gen_lookup(tier):
    for k in (1, 2, 3):
        for levels in itertools.product(SUBSETS, repeat=k):
            for style in range(2 if tier == "quick" and k < 3 or tier == "thorough" else 1):
                yield [[list(x) for x in levels], style]
            if k < 3 or tier == "thorough":
                yield [[list(x) for x in levels], BARE]


def run_lookup(case, stats):
    levels, style = case
    name = ".act"
    chain = chain_of(levels, name)
    prog = lookup_program(name, ())
    stats.state(case)
    return impl.conform([("a", resolved(prog, chain, [name]))], stats, texts=[("a", ref.program_text(prog))], model_actions=Tags(),
                        registries=lambda trace: {"a": registry(chain, trace, style)}, cached=True)


# ---- names and several agents

NAMES = ["act", ".act", ".a.b", "a.b", ".length", ".print", ".my_name", ".emit2", "aB_1"]


def gen_names(tier):
    for name in NAMES:
        for levels in itertools.product([(), (1,), (0, None), (None,), (2, 1), (0,)], repeat=2):
            for believed in (False, True):
                for agents in (1, 2, 3):
                    yield [name, [list(x) for x in levels], believed, agents]


def run_names(case, stats):
    """Agents with different registries that share ancestors."""
    name, levels, believed, agents = case
    chain = chain_of(levels, name)
    builtin = {".length": {2}, ".my_name": {1}, ".print": set(range(9))}.get(name, set())
    ns = [n for n in range(4) if n not in builtin or any(find(chain[i:], name, n) for i in range(1, 2))]
    beliefs = tuple(F(name, *ARGS[n]) for n in (0, 1)) if believed and not builtin else ()
    dotted = F(name, N(7))
    body = tuple(("if", ("act", name, ARGS[n]), (emit(S("yes"), N(n)),), (emit(S("no"), N(n)),)) for n in ns)
    if believed and not builtin:
        # Adding, testing and deleting beliefs of that name does not run the action.
        body += (("+", F(name, S("b"))), ("-", F(name, S("b"))), ("+", F(name, S("c"))))
    prog = (beliefs, [], [F("go")], [(None, "+!", F("go"), None, body)] + ([(None, "+", F(name, S("c")), None, (emit(S("event")),))] if dotted and believed and not builtin else []))
    # Agent 0 has the whole chain, agent 1 only the ancestor, agent 2 another descendant of it.
    chains = [chain, chain[1:], [{(name, 3): "<2/3>"}] + chain[1:]][:agents]
    if builtin:
        chains = chains[:1]
    programs = [("abc"[i], resolved(prog, c, [name])) for i, c in enumerate(chains)]
    texts = [("abc"[i], ref.program_text(prog)) for i in range(len(chains))]

    def registries(trace):
        parent = registry(chain[1:], trace)
        out = {}
        for i in range(len(chains)):
            if i == 1:
                out["b"] = parent
                continue
            own = agentspeak.Actions(parent)
            for (n, arity), tag in chains[i][0].items():
                register(own, trace, n, arity, tag, i)
            out["abc"[i]] = own
        return out
    return impl.conform(programs, stats, texts=texts, model_actions=Tags(), registries=registries)


# ---- declarations

def fmt(t):
    if t[0] == "s":
        return t[1]
    return ref.text(t)


def convert(spec, t):
    """What a callable receives for a term t."""
    k = t[0]
    if spec == "any":
        return t
    if spec in ("int", "float"):
        if k == "n":
            return ("n", float(int(t[1])) if spec == "int" else t[1])
        if k == "b" or k == "s" and t[1].strip().isdigit():
            raise ref.Limit()
        raise ref.RefError("no number")
    if spec == "str":
        if k == "n" and abs(t[1]) > 1e15:
            raise ref.Limit()
        if not ref.is_ground(t):
            raise ref.Limit()
        return S(fmt(t))
    if spec == "tuple":
        if k in ("s", "c"):
            raise ref.Limit()
        if k != "l":
            raise ref.RefError("no list")
        return t
    if spec == "isstr":
        if k != "s":
            raise ref.RefError("no string")
        return t
    if spec == "isliteral":
        if k != "f":
            raise ref.RefError("no literal")
        return t
    if spec == "isbool":
        if k != "b":
            raise ref.RefError("no boolean")
        return t
    raise AssertionError(spec)


SPECS = ["any", "int", "float", "str", "tuple", "isstr", "isliteral", "isbool", "env", "agent"]
PYTHON = {"int": int, "float": float, "str": str, "tuple": tuple, "isstr": str, "isbool": bool}


def specs_of(names):
    table = {"any": None, "int": int, "float": float, "str": agentspeak.asl_str, "tuple": tuple, "isstr": str, "isliteral": agentspeak.Literal, "isbool": bool,
             "env": agentspeak.runtime.Environment, "agent": agentspeak.runtime.Agent}
    return tuple(table[n] for n in names)


def received(names, args):
    """The arguments a callable got, as model terms."""
    if len(args) != len(names):
        return (S("wrong number of arguments"),)
    out = []
    seen = {}
    for spec, a in zip(names, args):
        if spec == "env":
            out.append(S("env " + " ".join(sorted(a.agents))) if isinstance(a, agentspeak.runtime.Environment) else S("no environment"))
        elif spec == "agent":
            out.append(S("agent " + a.name) if isinstance(a, agentspeak.runtime.Agent) else S("no agent"))
        elif spec in PYTHON and type(a) is not PYTHON[spec]:
            out.append(S("wrong type %s" % type(a).__name__))
        else:
            out.append(impl.to_ref(a, seen))
    return tuple(out)


def received_model(world, agent, names, terms):
    out = []
    terms = iter(terms)
    for spec in names:
        if spec == "env":
            out.append(S("env " + " ".join(sorted(world.agents))))
        elif spec == "agent":
            out.append(S("agent " + agent.name))
        else:
            out.append(convert(spec, next(terms)))
    return ref.canon(out)


VALUES = [N(3), N(-2.5), S(""), S("x y"), S("7"), F("a"), F("f", N(1), S("q")), F("g", X, X), B(True), L(), L(N(1), L(F("b"))), C(N(1), L(N(2))), X, ("o", "+", N(1), N(2)),
          F("f", ("o", "*", N(2), N(2.25))), L(("u", "-", N(1))), F("a", annots=(F("s"),)), N(1e20)]
KINDS = ("function", "predicate", "procedure")


def gen_declare(tier):
    for n in range(4):
        for names in itertools.product(SPECS, repeat=n):
            counted = [x for x in names if x not in ("env", "agent")]
            if n == 3 and (tier == "quick" and len(counted) != 1 or len(counted) > 2):
                continue
            for kind in KINDS:
                if len(counted) == 2 and tier == "quick":
                    if hash_of(names, kind) % 3:
                        continue
                for how in range(2 if n < 3 else 1):
                    yield [kind, list(names), how]


def hash_of(names, kind):
    return sum((i + 1) * SPECS.index(x) for i, x in enumerate(names)) + KINDS.index(kind)


RESULT = {"function": F("done"), "predicate": None, "procedure": None}


def run_declare(case, stats):
    kind, names, how = case
    counted = sum(1 for x in names if x not in ("env", "agent"))
    name = ".act"
    tuples = list(itertools.product(VALUES, repeat=counted))
    plans = []
    phases = []
    arity = counted + (kind == "function")
    for i in range(0, len(tuples), 20):
        why = declare_batch(kind, names, how, name, arity, tuples[i:i + 20], stats)
        if why:
            return why
    return None


def declare_batch(kind, names, how, name, arity, tuples, stats):
    plans = []
    phases = []
    for i, args in enumerate(tuples):
        try:
            for spec, a in zip([x for x in names if x not in ("env", "agent")], args):
                convert(spec, ref.resolve(a, {}))
        except ref.Limit:
            continue
        except ref.RefError:
            pass
        extra = (R,) if kind == "function" else ()
        pre = ()
        if how:
            # Through variables: the values are those at the time of the call.
            args = list(args)
            pre = []
            for j, a in enumerate(args):
                if a[0] not in ("v", "o"):
                    pre.append(("q", ("uni", V("A%d" % j), a)))
                    args[j] = V("A%d" % j)
            pre = tuple(pre)
        head = F("go", N(i))
        plans.append((None, "+!", head, None, pre + (("q", ("act", name, tuple(args) + extra)), emit(S("done"), *extra), ("q", ("act", ".fail", ())))))
        phases.append(("a", head))
    prog = ((), [], [], plans)

    def model(world, agent, args, s):
        args = [ref.resolve(a, s) for a in args]
        inputs = args[:-1] if kind == "function" else args
        world.emit(("call", S(kind)) + received_model(world, agent, names, inputs))
        if kind == "function":
            r = ref.unify(args[-1], F("done"), s)
            if r is not None:
                yield r
        elif kind == "procedure":
            yield s
        else:
            yield s

    def registries(trace):
        actions = impl.make_actions(trace)

        def f(*args):
            trace.append(("call", S(kind)) + received(names, args))
            return {"function": agentspeak.Literal("done"), "predicate": True, "procedure": None}[kind]
        specs = specs_of(names)
        if how and len(specs) == 1:
            specs = specs[0]        # a single declaration needs no tuple
        elif how:
            specs = list(specs)
        add = getattr(actions, "add_" + kind)
        if how:
            add(name, specs)(f)
        else:
            add(name, specs, f)
        return {"a": actions}
    tag = {name: model}
    return impl.conform([("a", prog)], stats, model_actions=tag, registries=registries, faults=True, phases=phases)


# ---- results

def python_results():
    lit = agentspeak.Literal
    return [(1, N(1)), (2.5, N(2.5)), (-3, N(-3)), ("", S("")), ("s", S("s")), (True, B(True)), (False, B(False)), ((), L()), ((1, "a"), L(N(1), S("a"))),
            (lit("a"), F("a")), (lit("f", (1, lit("b"))), F("f", N(1), F("b"))), (agentspeak.LinkedList(1, (2,)), L(N(1), N(2))), (((1,), ()), L(L(N(1)), L())),
            (lit("f", (lit("b"), 2)), F("f", F("b"), N(2)))]


N_RESULTS = 14
LAST = [R, W, N(1), S("s"), S(""), B(True), B(False), L(), L(X, Y), C(X, Y), F("a"), F("f", X, Y), F("f", X, X), L(X, X), ("o", "+", N(0), N(1)), N(2.5), N(0), L(L(X), L())]
TRUTH = [(True, 1), (False, 0), (0, 0), (1, 1), ("", 0), ("x", 1), ((), 0), ((0,), 1), (None, 0), (0.0, 0), (-1, 1)]


def gen_results(tier):
    for place in c18.PLACES:
        for way in range(3):
            for i in range(N_RESULTS):
                for j in range(len(LAST)):
                    if tier == "quick" and (i + j + way) % 3 and j > 1:
                        continue
                    yield ["function", place, way, i, j]
            for kind in ("predicate", "procedure"):
                for i in range(len(TRUTH)):
                    for j in range(4):
                        yield [kind, place, way, i, j]


def run_results(case, stats):
    kind, place, way, i, j = case
    arg = [F("k"), X, F("g", X, Y), L(N(1), X)][j % 4]
    bound = []
    if kind == "function":
        last = LAST[j]
        args = [arg, last]
        if way == 1 and ref.is_ground(last) and last[0] not in ("o", "w"):
            bound = [(V("B"), last)]
            args = [arg, V("B")]
        elif way == 2:
            args = [last, last] if last[0] != "o" else [arg, last]
    else:
        args = [arg, V("D")][:1 + (way == 2)]
        if way:
            bound = [(V("D"), F("d"))]
    call = ("act", ".act", tuple(args))
    watch = []
    for a in args + [v for v, _ in bound]:
        c18.variables(a, watch)
    prog, goal = c18.program(place, bound, call, watch)

    def model(world, agent, args, s):
        terms = [ref.resolve(a, s) for a in args]
        if kind == "function":
            world.emit(("call",) + ref.canon(terms[:-1]))
            r = ref.unify(args[-1], python_results()[i][1], s)
            if r is not None:
                yield r
        else:
            world.emit(("call",) + ref.canon(terms))
            if kind == "procedure" or TRUTH[i][1]:
                yield s

    def registries(trace):
        actions = impl.make_actions(trace)

        def f(*args):
            names = {}
            trace.append(("call",) + tuple(impl.to_ref(a, names) for a in args))
            return python_results()[i][0] if kind == "function" else TRUTH[i][0]
        n = len(args) - (kind == "function")
        getattr(actions, "add_" + kind)(".act", (None,) * n, f)
        return {"a": actions}
    return impl.conform([("a", prog)], stats, model_actions={".act": model}, registries=registries, faults=True, beliefs=False, phases=[("a", goal)])


# ---- objects with a memory

OBJECTS = ("method", "closure", "instance", "partial", "raw method")
USES = ("body", "context", "rule", "rule2", "if", "for", "not", "while")


def gen_objects(tier):
    for obj in OBJECTS:
        for n in range(1, 4 if tier == "quick" else 5):
            for uses in itertools.product(USES, repeat=n):
                if n == 3 and tier == "quick" and OBJECTS.index(obj) not in (0, 1 + sum(map(USES.index, uses)) % 4):
                    continue
                yield [obj, list(uses), 1 + (n == 2)]


def run_objects(case, stats):
    obj, uses, agents = case
    rules = [(F("r", X), ("act", ".count_up", (X,))), (F("r2", X, Y), ("and", ("lit", F("r", X)), ("lit", F("r", Y))))]
    body = []
    plans = []
    for i, use in enumerate(uses):
        v = V("X%d" % i)
        u = V("Y%d" % i)
        call = ("act", ".count_up", (v,))
        if use == "body":
            body += [("q", call), emit(v)]
        elif use == "context":
            body += [("!", F("g%d" % i))]
            plans.append((None, "+!", F("g%d" % i), call, (emit(v),)))
        elif use == "rule":
            body += [("?", F("r", v)), emit(v)]
        elif use == "rule2":
            body += [("?", F("r2", v, u)), emit(v, u)]
        elif use == "if":
            body += [("if", call, (emit(v),), ())]
        elif use == "for":
            body += [("for", ("and", call, ("or", ("uni", u, N(1)), ("uni", u, N(2)))), (emit(v, u),))]
        elif use == "not":
            body += [("if", ("not", call), (), (emit(S("called")),))]
        else:
            body += [("while", ("and", call, ("cmp", "<", v, N(3))), (emit(v),))]
    prog = ((), rules, [F("go")], [(None, "+!", F("go"), None, tuple(body))] + plans)
    names = ["a", "b"][:agents]

    def model(world, agent, args, s):
        # One object for each registry.
        counts = world.__dict__.setdefault("COUNTS", {})
        counts[agent.name] = counts.get(agent.name, 0) + 1
        r = ref.unify(args[0], N(counts[agent.name]), s)
        if r is not None:
            yield r

    def registries(trace):
        out = {}
        for name in names:
            actions = impl.make_actions(trace)

            class Counter(object):
                def __init__(self):
                    self.n = 0

                def up(self):
                    self.n += 1
                    return self.n

                def __call__(self):
                    return self.up()

                def raw(self, agent, term, intention):
                    self.n += 1
                    if agentspeak.unify(term.args[0], self.n, intention.scope, intention.stack):
                        yield
            counter = Counter()
            if obj == "raw method":
                actions.add(".count_up", 1, counter.raw)
            else:
                f = {"method": counter.up, "closure": lambda counter=counter: counter.up(), "instance": counter, "partial": functools.partial(Counter.up, counter)}[obj]
                actions.add_function(".count_up", (), f)
            out[name] = actions
        return out
    return impl.conform([(n, prog) for n in names], stats, model_actions={".count_up": model}, registries=registries, beliefs=False)


# ---- actions with several answers

ANSWERS = [(), (N(1),), (N(1), N(2)), (N(2), N(2), N(1)), (F("f", N(1)), N(1), F("f", N(2))), (L(N(1)), L())]


def gen_solutions(tier):
    for place in c18.PLACES:
        for answers in range(len(ANSWERS)):
            for arg in range(len(LAST)):
                for rest in range(6):
                    if tier == "quick" and (arg + rest) % 2:
                        continue
                    yield [place, answers, arg, rest]


def run_solutions(case, stats):
    place, i, j, k = case
    arg = LAST[j]
    call = ("act", ".each", (arg,))
    again = ("act", ".each", (Y,))
    call = [call, ("and", call, again), ("and", call, ("lit", F("p", X))), ("or", call, ("act", ".each", (X,))), ("and", ("lit", F("p", X)), call), ("and", ("not", call), again)][k]
    watch = c18.variables(arg, [])
    for v in (X, Y):
        if v not in watch:
            watch.append(v)
    prog, goal = c18.program(place, [], call, watch)

    def model(world, agent, args, s):
        for t in ANSWERS[i]:
            r = ref.unify(args[0], t, s)
            if r is not None:
                yield r

    def registries(trace):
        actions = impl.make_actions(trace)

        @actions.add(".each", 1)
        def each(agent, term, intention):
            choicepoint = object()
            for t in ANSWERS[i]:
                intention.stack.append(choicepoint)
                if agentspeak.unify(term.args[0], impl.from_ref(t, {}), intention.scope, intention.stack):
                    yield
                agentspeak.reroll(intention.scope, intention.stack, choicepoint)
        return {"a": actions}
    return impl.conform([("a", prog)], stats, model_actions={".each": model}, registries=registries, faults=True, beliefs=False, phases=[("a", goal)])


# ---- agents built together or taught plans

def gen_caller(tier):
    for n in (1, 2, 3):
        for uses in itertools.product(("body", "context", "rule", "for", "not"), repeat=1 if tier == "quick" else 2):
            yield [n, list(uses), "build_agents"]
    for levels in itertools.product([(), (1,), (None,), (0, 1)], repeat=2):
        for place in ("body", "context"):
            yield [[list(x) for x in levels], [place], "tellHow"]


def run_caller(case, stats):
    n, uses, how = case
    if how == "build_agents":
        body = ""
        plans = ""
        for i, use in enumerate(uses):
            body += {"body": ".who(%d); ", "context": "!c%d; ", "rule": "?r(%d); ", "for": "for (.who(%d)) { .emit(inside) }; ", "not": "if (not .who(%d)) { .emit(inside) }; "}[use] % i
            plans += "+!c%d : .who(%d) <- .emit(inside).\n" % (i, i)
        text = "r(X) :- .who(X).\n!go.\n+!go <- %s.emit(finish).\n%s" % (body, plans)
        trace = []
        actions = impl.make_actions(trace)

        @actions.add_predicate(".who", (agentspeak.runtime.Environment, None, agentspeak.runtime.Agent))
        def who(env, i, agent):
            trace.append((agent.name, S("who"), N(i), B(env.agents[agent.name] is agent)))
            return True
        env = agentspeak.runtime.Environment()
        agents = env.build_agents(impl.source("a", text), n, actions)
        want = {}
        for agent in agents:
            items = want[agent.name] = []
            for i, use in enumerate(uses):
                items.append((agent.name, S("who"), N(i), B(True)))
                if use in ("context", "for"):
                    items.append((agent.name, F("inside")))
            items.append((agent.name, F("finish")))
        env.run()
        got = {}
        for item in trace:
            got.setdefault(item[0], []).append(item)
        stats.step(len(trace))
        stats.state((case, trace))
        stats.validated += 1
        if got != want:
            return "%s\nof %d agents: observed %r, expected %r" % (text, n, got, want)
        return None
    # A plan that an agent is told calls the actions of the receiver.
    name = ".act"
    chains = [[{(name, a): "<%d/%s>" % (i, a) for a in level}] for i, level in enumerate(n)]
    if uses == ["body"]:
        plan = "+!g <- %s(7); .emit(finish)." % name
    else:
        plan = "+!g : %s(7) <- .emit(finish)." % name
    texts = [("a", "!start.\n+!start <- .send(b, tellHow, \"%s\"); .send(b, achieve, g)." % plan), ("b", "seen(0).")]
    trace = []
    env = agentspeak.runtime.Environment()
    with impl.Capture() as log:
        for i, (agent, text) in enumerate(texts):
            env.build_agent(impl.source(agent, text), registry(chains[i], trace), name=agent)
        error = None
        try:
            env.run()
        except impl.ERRORS as e:
            error = e
    tag = find(chains[1], name, 1)
    want = [("b", S(tag), N(7)), ("b", F("finish"))] if tag else []
    stats.step(len(trace) + 2)
    stats.state((case, trace))
    stats.validated += 1
    if trace != want or (error is None) != bool(tag):
        return "%s told to an agent with actions %r: observed %r, error %r, expected %r" % (plan, chains[1], trace, error, want)
    return None


# ---- sizes

def gen_scale(tier):
    for n in scale.sizes(tier, 65):
        for kind in ("arguments", "registries", "names", "calls"):
            yield [n, kind]


def run_scale(case, stats):
    n, kind = case
    jobs = []
    if kind == "arguments":
        args = ", ".join(map(str, range(n)))
        said = []

        def make(trace):
            a = impl.make_actions(trace)
            a.add_function(".sum", (float,) * n)(lambda *xs: sum(xs) + 1000 * len(xs))
            a.add_predicate(".even", (int,) * n)(lambda *xs: len(xs) % 2 == 0)
            a.add_procedure(".proc", (str,) * n)(lambda *xs: said.append(xs))

            @a.add(".any")
            def _any(agent, term, intention):
                if agentspeak.unify(term.args[-1], len(term.args), intention.scope, intention.stack):
                    yield
            return a
        body = ".sum(%s); .emit(X); if (.even%s) { .emit(1) } else { .emit(0) }; .any(%s); .emit(Y)" % (args + ", X" if args else "X", "(%s)" % args if args else "", args + ", Y" if args else "Y")
        if n:
            body += "; .proc(%s)" % ", ".join('"%d"' % i for i in range(n))
        jobs.append((make, body, [sum(range(n)) + 1000 * n, int(n % 2 == 0), n + 1], lambda: said == ([tuple(map(str, range(n)))] if n else [])))
    elif kind == "registries":
        for k in scale.some(n + 1):
            for low in scale.some(n + 1):
                def make(trace, k=k, low=low):
                    a = impl.make_actions(trace)
                    for i in range(n + 1):
                        a = agentspeak.Actions(a)
                        if i == k:
                            a.add_function(".who", ())(lambda: "k")
                        if i == low:
                            a.add_function(".who", (int,))(lambda x: "low")
                        if i == min(k, low):
                            a.add_function(".other", ())(lambda: i)
                    return a
                jobs.append((make, ".who(X); .who(1, Y); .emit(X, Y)", [("k", "low")], lambda: True))

                def make(trace, k=k, low=low):
                    a = impl.make_actions(trace)
                    for i in range(n + 1):
                        a = agentspeak.Actions(a)
                        for m in {k, low}:
                            if i == m:
                                a.add_function(".who", ())(lambda m=m: m)
                    return a
                jobs.append((make, ".who(X); .emit(X)", [max(k, low)], lambda: True))
    elif kind == "names":
        def make(trace):
            a = impl.make_actions(trace)
            for i in range(n):
                a.add_function(".f%d" % i, (int,))(lambda x, i=i: 100 * i + x)
                a.add_function(".f%d" % i, (int, int))(lambda x, y, i=i: -100 * i - x - y)
            return a
        body = "; ".join(".f%d(%d, X%d); .f%d(1, %d, Y%d); .emit(X%d, Y%d)" % ((i,) * 8) for i in range(n)) or "true"
        jobs.append((make, body, [(101 * i, -100 * i - 1 - i) for i in range(n)], lambda: True))
    else:
        calls = []

        def make(trace):
            a = impl.make_actions(trace)
            a.add_function(".next", (int,))(lambda x: calls.append(x) or len(calls))
            return a
        body = "for (.range(%d, K)) { .next(K, X); .emit(K, X) }; .next(-1, Z); .emit(Z)" % n
        jobs.append((make, body, [(i, i + 1) for i in range(n)] + [n + 1], lambda: calls == list(range(n)) + [-1]))
    for make, body, want, right in jobs:
        trace = []
        run = impl.Run([("ag", scale.go(body))], actions=make(trace))
        steps = run.drive_faults(100000)
        stats.step(steps)
        stats.state((case, body))
        got = [i[1:] for i in trace]
        if got != scale.items(want) or not right():
            return "%r: %s\nobserved %s, expected %s, the actions %s" % (case, body, got, scale.items(want), right())
        stats.validated += 1
    return None


SUITES = {"lookup": (gen_lookup, run_lookup), "names": (gen_names, run_names), "declare": (gen_declare, run_declare), "results": (gen_results, run_results),
          "objects": (gen_objects, run_objects), "solutions": (gen_solutions, run_solutions), "caller": (gen_caller, run_caller), "scale": (gen_scale, run_scale)}


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime


if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
