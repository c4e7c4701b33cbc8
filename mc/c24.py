"""C24: looking at an agent shows what it has and changes nothing."""
import harness
if __name__ == "__main__":
    harness.reexec()
import contextlib
import io
import itertools
import scale
import os
import re
import sys
from ref import N, S, B, V, W, F, L, C
import ref
import syntax
import grammar
import c10

PROPERTY = "C24"
RULE = ("queries: every query of up to two connectives over a set of atoms (literals, comparisons, =, actions, constants), as the body of a rule and as the context of a plan "
        "of one program; shapes: every head of a rule or a plan of every kind of event and every belief of a list of terms, alone and in pairs in one group; "
        "moments: every sequence of up to three (thorough: four) statements that change the agent (additions, removals, replacements, subgoals, loops, messages, told and "
        "withdrawn plans, .control_flow), the agent being dumped before, between and after them; a state is a distinct dump, a transition a step of an agent")
DESIGN = ("the lines that .dump prints are read by the independent parser and compared, up to the names of variables, with what the model's agent has at that moment: every belief "
          "once, and the rules and plans of every group in the order in which they are tried. The rest of the run, with all observations, must be one that the model explains "
          "without .dump, which stands at every place of the programs.")
ASSUMPTIONS = ["the form of the lines is that of the pinned commit: belief; head :- query; * trigger head : context <- ... .; two numbers and an object for intentions",
               "conditions that are constant are printed with their value", "the headings, which are log messages, are not judged"]

X, Y, Z, T = V("X"), V("Y"), V("Z"), V("T")
emit, lit, act = c10.emit, c10.lit, c10.act


# ---- normal forms

def surface(q):
    """Query of the model as a term of the surface language."""
    k = q[0]
    if k in ("true", "false"):
        return B(k == "true")
    if k == "lit":
        return q[1]
    if k in ("and", "or"):
        return ("o", "&" if k == "and" else "|", surface(q[1]), surface(q[2]))
    if k == "not":
        return ("u", "not", surface(q[1]))
    if k == "cmp":
        return ("o", q[1], q[2], q[3])
    if k == "uni":
        return ("o", "=", q[1], q[2])
    return F(q[1], *q[2])


def fold(t):
    """Constant parts are replaced by their values."""
    k = t[0]
    if k == "f":
        return ("f", t[1], tuple(map(fold, t[2])), ref.norm_annots(map(fold, t[3])))
    if k == "l":
        return ("l", tuple(map(fold, t[1])))
    if k == "c":
        return ref.mkcons(fold(t[1]), fold(t[2]))
    if k == "u":
        a = fold(t[2])
        if t[1] == "not":
            return B(not a[1]) if a[0] == "b" else ("u", "not", a)
        if a[0] == "n":
            return N(-a[1] if t[1] == "-" else a[1])
        return ("u", t[1], a)
    if k == "o":
        op, a, b = t[1], fold(t[2]), fold(t[3])
        if op in ("&", "|"):
            unit = B(op == "&")
            if a == unit:
                return b
            if b == unit:
                return a
            if a[0] == "b":
                return a
        elif op in grammar.COMPARISONS and a[0] in "nsb" and b[0] in "nsb":
            return ref.compare(op, a, b)
        elif op in grammar.NUMERIC and a[0] == b[0] == "n":
            return ref.arith(op, a, b)
        return ("o", op, a, b)
    return t


def names(t, m):
    """Variables by first occurrence."""
    k = t[0]
    if k == "v":
        return m.setdefault(t, ("v", len(m)))
    if k == "f":
        return ("f", t[1], tuple(names(x, m) for x in t[2]), ref.norm_annots([names(x, m) for x in t[3]]))
    if k == "l":
        return ("l", tuple(names(x, m) for x in t[1]))
    if k in "cou":
        return (k,) + tuple(x if isinstance(x, str) else names(x, m) for x in t[1:])
    return t


def normal(*ts):
    m = {}
    return tuple(names(fold(t), m) for t in ts)


def summary(beliefs, rules, plans):
    groups = {}
    for head, q in rules:
        groups.setdefault(("rule", head[1], len(head[2])), []).append(normal(head, q))
    for trigger, head, q in plans:
        groups.setdefault((trigger, head[1], len(head[2])), []).append(normal(head, q))
    return repr((sorted((normal(b) for b in beliefs), key=repr), sorted(groups.items())))


class Unreadable(Exception):
    pass


def read(text):
    """What a dump says."""
    beliefs, rules, plans = [], [], []
    at = None
    for line in text.split("\n")[:-1]:
        m = re.match(r"(\d+) (\d+) \S", line)
        if m:
            i, j = int(m.group(1)), int(m.group(2))
            if not (at is None and j == 0 or at is not None and (i, j) == (at[0], at[1] + 1) or j == 0 and i > at[0]):
                raise Unreadable("intention %r after %r" % ((i, j), at))
            at = (i, j)
            continue
        if at is not None:
            raise Unreadable("%r after the intentions" % line)
        try:
            if line.startswith("* "):
                if not line.endswith(" <- ... ."):
                    raise Unreadable(line)
                (k, _, trigger, head, ctx, _), = grammar.parse(line[2:-len(" <- ... .")] + ".")
                plans.append((trigger, head, B(True) if ctx is None else ctx))
            else:
                (item,) = grammar.parse(line + ".")
                if item[0] == "rule":
                    rules.append(item[1:])
                elif item[0] == "belief":
                    beliefs.append(item[1])
                else:
                    raise Unreadable(line)
        except (grammar.Reject, grammar.Unknown, ValueError) as e:
            raise Unreadable("%r: %s" % (line, e))
    if text and not text.endswith("\n"):
        raise Unreadable("the last line does not end")
    return summary(beliefs, rules, plans)


def has(agent):
    """What an agent of the model has."""
    return summary(agent.beliefs, [(h, surface(q)) for h, q in agent.rules],
                   [(t, h, surface(c) if c is not None else B(True)) for _, t, h, c, _ in agent.plans])


def model_dump(world, agent, args, s):
    world.emit((agent.name, S("dump"), S(has(agent))))
    yield s


def extra(actions, trace):
    """The action as it is, with what it prints in the trace."""
    original = agentspeak.ext_stdlib.actions.lookup(".dump", 0)

    @actions.add(".dump", 0)
    def _dump(agent, term, intention):
        run = iter(original(agent, term, intention))
        while True:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                try:
                    next(run)
                except StopIteration:
                    if out.getvalue():
                        trace.append((agent.name, S("late"), S(out.getvalue())))
                    return
            trace.append((agent.name, S("dump"), S(read(out.getvalue()))))
            yield


_SCRATCH = []


def conform(programs, stats, **kw):
    texts = [(n, syntax.program(p)) for n, p in programs]
    if not _SCRATCH:
        # .control_flow writes a file.
        _SCRATCH.append(harness.scratch())
        os.chdir(_SCRATCH[0])
    try:
        why = impl.conform(programs, stats, texts=texts, faults=True, extra=extra, model_actions=MODEL, cached=True, **kw)
    except Unreadable as e:
        return "program\n%s\nis dumped with %s" % ("\n".join("%% %s\n%s" % t for t in texts), e)
    for n, t in texts:
        stats.state(t)
    return why


MODEL = {".dump": model_dump, ".control_flow": lambda world, agent, args, s: iter([s])}
DUMP = ("q", ("act", ".dump", ()))


# ---- queries

def o(a, op, b):
    return ("o", op, a, b)


ATOMS = {
    "pX": lit(F("p", X)), "q1": lit(F("q", N(1))), "true": ("true",), "false": ("false",), "uni": ("uni", X, F("f", Y)), "str": ("uni", X, S("a b")), "strq": ("uni", S('p("x")'), X),
    "unib": ("uni", X, B(True)), "unil": ("uni", L(X, S("s")), C(S("t"), Y)), "lt": ("cmp", "<", X, N(2)), "sum": ("cmp", "==", o(X, "+", N(1)), o(Y, "*", o(X, "-", N(2)))),
    "cmps": ("cmp", "\\==", S("x,y"), X), "mem": ("act", ".member", (X, L(N(1), S("a"), F("b")))), "act0": ("act", ".own", ()), "ann": lit(F("p", X, annots=(F("source", F("self")), F("k", Y)))),
    "var": lit(Y), "neg": lit(F("p", N(-1), ("u", "-", X))), "list": lit(F("p", L(X, L()), C(X, C(N(1), T)))), "esc": lit(F("p", S('a"\\b\n'), S("\u00e9"))), "wild": lit(F("p", W, W)),
    "ge": ("cmp", ">=", o(N(1), "+", N(2)), o(N(2), "**", X)), "const": ("cmp", "<", N(1), N(2)), "half": lit(F("p", N(0.5), N(1e20))), "dot": lit(F("~p", X)),
}
SMALL = ("pX", "q1", "uni", "lt", "true", "mem", "ann", "cmps")


def trees(atoms):
    for a in atoms:
        yield a
        yield ["not", a]
        yield ["not", ["not", a]]
    for op, a, b in itertools.product(("and", "or"), atoms, atoms):
        yield [op, a, b]


def gen_queries(tier):
    for t in trees(ATOMS):
        yield [t]
    few = SMALL if tier == "thorough" else SMALL[:5]
    small = list(trees(few))
    for op in ("and", "or"):
        for a, t in itertools.product(few, small):
            yield [[op, a, t]]
            yield [[op, t, a]]
    for t in small:
        yield [["not", t]]
    if tier == "thorough":
        for op, a, b in itertools.product(("and", "or"), list(trees(SMALL[:4])), list(trees(SMALL[:4]))):
            yield [[op, a, b]]
            yield [["not", [op, a, b]]]


def tree(t):
    if isinstance(t, str):
        return ATOMS[t]
    return (t[0],) + tuple(map(tree, t[1:]))


OWN = {".own": lambda world, agent, args, s: iter([s])}


def run_queries(case, stats):
    q = tree(case[0])
    prog = ((), ((F("r", X, Y), q), (F("r", X, X), ("not", q))), (F("start"),),
            ((None, "+!", F("start"), None, (DUMP,)), (None, "+!", F("g", X, Y), q, (emit(X),)), (None, "+!", F("g", X, Y), ("not", q), ())))

    def both(actions, trace):
        extra(actions, trace)

        @actions.add(".own", 0)
        def _own(agent, term, intention):
            yield
    text = syntax.program(prog)
    try:
        return impl.conform([("a", prog)], stats, texts=[("a", text)], extra=both, model_actions={".dump": model_dump})
    except Unreadable as e:
        return "program\n%s\nis dumped with %s" % (text, e)


# ---- shapes

HEADS = [F("g"), F("g", X), F("g", N(1)), F("g", N(-1.5)), F("g", S("a b")), F("g", S("1")), F("g", B(True)), F("g", W), F("g", F("f", X, X)), F("g", L()), F("g", L(X, Y)), F("g", C(X, T)), F("g", X, X), F("g", X, Y),
         F("g", X, annots=(F("k", X),)), F("g", annots=(F("source", Y),)), F("h", X), F("~g", X), F("g", F("g")), F("g", F("g", annots=(F("a"),))), F("a.g", X), F("g", C(N(1), W))]
FACTS = [t for t in HEADS if ref.is_ground(t)] + [F("g", N(1), annots=(F("a"), F("b", N(2)))), F("g", N(1), annots=(F("a"),)), F("g", S('":-\\'), S("* +!g : x")), F("g", S("0 0 x")), F("g", L(L(), L(N(1)))), F("g", S("\t\u2028")), F("g", N(1e20), N(0.1))]
TRIGGERS = ("+!", "+?", "+", "-", "-!", "-?")


def gen_shapes(tier):
    for i in range(len(FACTS)):
        yield ["belief", "", i, None]
        for j in range(len(FACTS)):
            if i != j:
                yield ["belief", "", i, j]
    for i in range(len(HEADS)):
        for t in ("rule",) + TRIGGERS:
            yield ["", t, i, None]
            for j in range(len(HEADS)) if tier == "thorough" or t in ("rule", "+!") else range(i % 3, len(HEADS), 3):
                yield ["", t, i, j]


def run_shapes(case, stats):
    kind, t, i, j = case
    pair = [i] if j is None else [i, j]
    beliefs, rules, plans = [F("c", N(1))], [(F("other", X), ("true",))], [(None, "+!", F("start"), None, (DUMP,)), (None, "+", F("new"), lit(F("c", X)), ())]
    if kind == "belief":
        beliefs += [FACTS[k] for k in pair]
    elif t == "rule":
        rules += [(HEADS[k], lit(F("d", N(n), X))) for n, k in enumerate(pair)]
    else:
        plans += [("l%d" % n if k % 2 else None, t, HEADS[k], lit(F("d", N(n), X)), (emit(X),) if k % 3 else ()) for n, k in enumerate(pair)]
    return conform([("a", (tuple(beliefs), tuple(rules), (F("start"),), tuple(plans)))], stats)


# ---- moments

ME, OTHER = F("a"), F("o")
TOLD = ((None, "+!", F("t", X), ("or", ("and", lit(F("b", X)), ("not", lit(F("c", Y)))), ("not", ("and", lit(F("c", X)), ("uni", X, S("s"))))), (emit(S("told")), DUMP)),
        ("l2", "+", F("c", X), lit(F("r", X)), (DUMP, emit(S("c"), X))))
STATEMENTS = {
    "add": ("+", F("b", N(3))), "again": ("+", F("b", N(1))), "rem": ("-", F("b", N(1))), "none": ("-", F("b", N(9))), "var": ("-", F("b", Z)), "repl": ("-+", F("b", N(4))), "ann": ("+", F("b", N(1), annots=(F("k"),))),
    "c": ("+", F("c", S("x y"))), "cc": ("-+", F("c", Z)), "abol": act(".abolish", F("b", W)), "sub": ("!", F("s", N(1))), "par": ("!!", F("s", N(2))), "test": ("?", F("r", Z)),
    "told": act(".send", ME, F("tellHow"), S(syntax.plan(TOLD[0]))), "told2": act(".send", ME, F("tellHow"), S(syntax.plan(TOLD[1]))), "untold": act(".send", ME, F("untellHow"), S("@l2")), "untold1": act(".send", ME, F("untellHow"), S("@l1")),
    "tell": act(".send", ME, F("tell"), F("b", N(5))), "untell": act(".send", ME, F("untell"), F("b", N(5))), "far": act(".send", OTHER, F("tell"), F("b", N(6))), "goal": act(".send", OTHER, F("achieve"), F("s", N(3))),
    "ask": act(".send", OTHER, F("askHow"), S("+!t(X)")), "for": ("for", lit(F("b", Z)), (DUMP, ("+", F("c", Z)))), "if": ("if", ("and", lit(F("r", Z)), ("act", ".dump", ())), (DUMP, ("-", F("b", Z))), (DUMP,)),
    "t": ("!", F("t", N(1))), "two": ("q", ("and", ("act", ".dump", ()), ("and", lit(F("b", Z)), ("and", ("act", ".dump", ()), ("cmp", ">", Z, N(1)))))), "not": ("q", ("not", ("and", ("act", ".dump", ()), ("false",)))),
    "find": act(".findall", Z, F("b", Z), T), "while": ("while", lit(F("c", Z)), (("-", F("c", Z)), DUMP)), "fail": act(".fail"), "flow": act(".control_flow"),
}
RULES = ((F("r", X), ("and", lit(F("b", X)), ("not", lit(F("c", X))))), (F("r", X), ("uni", X, S("none"))), (F("z"), ("act", ".dump", ())))
PLANS = ((None, "+!", F("s", X), ("not", ("not", ("not", lit(F("c", X))))), (DUMP, ("+", F("c", X)), emit(S("s"), X))),
         (None, "+!", F("s", X), None, (emit(S("s2"), X), DUMP)), ("l1", "-", F("b", X), ("cmp", "<", X, N(4)), (emit(S("gone"), X), DUMP)),
         (None, "+", F("b", X, annots=(F("source", Y),)), ("true",), (emit(X, Y), DUMP)))
OPLANS = PLANS[:2] + ((None, "+!", F("t", X), ("or", lit(F("c", X)), ("true",)), (emit(S("o's"), X),)), (None, "+", F("b", X), lit(F("z")), (DUMP, emit(S("o"), X))))
QUICK3 = ("add", "rem", "repl", "c", "sub", "par", "told", "untold1", "tell", "for", "t", "if")


def gen_moments(tier):
    for n in (1, 2):
        for seq in itertools.product(STATEMENTS, repeat=n):
            yield list(seq)
    for seq in itertools.product(STATEMENTS if tier == "thorough" else QUICK3, repeat=3):
        yield list(seq)
    if tier == "thorough":
        for seq in itertools.product(QUICK3, repeat=4):
            yield list(seq)


def run_moments(case, stats):
    body = [DUMP]
    for n, x in enumerate(case):
        # A variable of the statement is its own.
        body += [rename(STATEMENTS[x], n), DUMP, emit(S(x))]
    a = ((F("b", N(1)), F("b", N(2), annots=(F("k", S("v")),))), RULES, (F("start"),), PLANS + ((None, "+!", F("start"), None, tuple(body)),))
    other = ((F("b", N(7)),), RULES, (), OPLANS)

    def prepare(world):
        world.PLANS = {syntax.plan(p): p for p in TOLD}
        world.ASKS = {"+!t(X)": "t"}
    return conform([("a", a), ("o", other)], stats, prepare=prepare)


def rename(t, n):
    if isinstance(t, tuple):
        if t == Z or t == T:
            return V("%s%d" % (t[1], n))
        return tuple(rename(x, n) for x in t)
    return t


# ---- sizes

def gen_scale(tier):
    for n in scale.sizes(tier, 64):
        for kind in ("facts", "rules", "plans", "query", "goals"):
            yield [n, kind]


def run_scale(case, stats):
    n, kind = case
    beliefs, rules, goals, plans = [], [], [F("start")], [(None, "+!", F("start"), None, (DUMP,))]
    if kind == "facts":
        beliefs = [F("p%d" % (i % 3), *[N(j) for j in range(i)]) for i in range(n)]
        plans.append((None, "+!", F("start"), None, tuple(("+", F("q", N(i))) for i in range(n))))
        plans[0] = (None, "+!", F("start"), None, tuple(("+", F("q", N(i))) for i in range(n)) + (DUMP, ("-", F("q", N(0))), DUMP)[:1 if n == 0 else 3])
    elif kind == "rules":
        rules = [(F("r%d" % (i % 2), X), ("and", lit(F("p", X)), ("cmp", "<", X, N(i)))) for i in range(n)]
    elif kind == "plans":
        plans += [("l%d" % i if i % 2 else None, TRIGGERS[i % 4], F("g%d" % (i % 3), X), lit(F("p", N(i), X)), (emit(X),)) for i in range(n)]
    elif kind == "query":
        q = lit(F("p", N(0)))
        for i in range(min(n, 20)):
            q = ("and" if i % 3 else "or", q, lit(F("p", N(i)))) if i % 2 else ("and" if i % 3 else "or", lit(F("p", N(i))), ("not", q))
        rules = [(F("r", X), q)]
        plans.append((None, "+!", F("g", X), q, ()))
    else:
        goals = [F("g", N(i)) for i in range(n)] + goals
        plans.append((None, "+!", F("g", X), lit(F("t")), (emit(X),)))
        plans.append((None, "+!", F("g", X), None, (emit(X), emit(S("again"), X))))
    return conform([("a", (tuple(beliefs), tuple(rules), tuple(goals), tuple(plans)))], stats)


def setup():
    global agentspeak, impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.ext_stdlib
    import impl


SUITES = {"queries": (gen_queries, run_queries), "shapes": (gen_shapes, run_shapes), "moments": (gen_moments, run_moments), "scale": (gen_scale, run_scale)}

if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
