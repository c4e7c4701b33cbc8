"""C15: expressions have the value that precedence and the operators define, however their operands are given."""
import harness
if __name__ == "__main__":
    harness.reexec()
import collections
import itertools
from ref import N, S, B, V, F, L
import ref
import scale
import syntax
import grammar

PROPERTY = "C15"
RULE = ("sequences: every sequence of up to four operands joined by every combination of operators and unary prefixes, without parentheses; chains: every chain of three and (of some operators) four comparisons over all small operands, as value, context and condition, with ill-typed operands; table: every operator "
        "on every pair of values of all types; trees: every expression tree up to depth 2 over values of all types; logic: every tree of &, |, not, comparisons "
        "and boolean variables as condition and as value; places: every place where an expression can stand. Each with constants replaced by variables in "
        "(nearly) every way; a state is a distinct program, a transition an executed statement")
DESIGN = ("every expression is parsed by the independent precedence parser of grammar.py (or built as a tree and printed with as few parentheses as possible) and "
          "evaluated by the model. The implementation loads and runs a program that hands the expression to an action, once with constants and once for "
          "every choice of operands that become variables: all variants must observe exactly the model's value, or, where the model has none, report an "
          "error when loading or running and observe nothing.")
ASSUMPTIONS = ["the order of booleans and of annotated structures is not specified", "finite values",
               "a condition with an ill-typed constant operand may be rejected at load time although it would not be evaluated"]

NAMES = "XYZUPQRT"


# ---- running one expression in several variants

def leaves(t):
    if t[0] == "o":
        return leaves(t[2]) + leaves(t[3])
    if t[0] == "u":
        return leaves(t[2])
    return [t]


def split(t, mask):
    """Replaces the leaves selected by the mask with variables; returns the expression and [(name, value)]."""
    bound = []
    count = [0]

    def go(t):
        if t[0] == "o":
            return ("o", t[1], go(t[2]), go(t[3]))
        if t[0] == "u":
            return ("u", t[1], go(t[2]))
        i = count[0]
        count[0] += 1
        if mask >> i & 1 and t[0] != "v":
            for name, value in bound:
                if value == t:
                    return V(name)
            name = NAMES[len(bound)]
            bound.append((name, t))
            return V(name)
        return t
    return go(t), bound


BINDERS = ("goal", "equation", "belief", "context")


def plan(i, text, bound, how):
    """A goal and a plan which observes the value of an expression."""
    args = ", ".join(n for n, _ in bound)
    values = ", ".join(ref.text(v) for _, v in bound)
    call = ".emit(%d, %s)" % (i, text)
    if how == "goal" and bound:
        return "!g%d(%s).\n+!g%d(%s) <- %s.\n" % (i, values, i, args, call)
    if how == "belief" and bound:
        return "v%d(%s).\n!g%d.\n+!g%d <- ?v%d(%s); %s.\n" % (i, values, i, i, i, args, call)
    if how == "context" and bound:
        return "v%d(%s).\n!g%d.\n+!g%d : v%d(%s) <- %s.\n" % (i, values, i, i, i, args, call)
    body = "".join("%s = %s; " % (n, ref.text(v)) for n, v in bound)
    return "!g%d.\n+!g%d <- %s%s.\n" % (i, i, body, call)


def observe(text, stats):
    """Loads and runs a program; returns (items, load error, run errors)."""
    stats.state(text)
    trace = []
    run = impl.Run.__new__(impl.Run)
    run.trace = trace
    run.env = agentspeak.runtime.Environment()
    run.actions = impl.make_actions(trace)
    try:
        run.env.build_agent(impl.source("x.asl", text), run.actions)
    except impl.ERRORS as e:
        return [], e, 0
    stats.step(run.drive_faults())
    errors = sum(1 for t in trace if t[1] == ("s", "ERROR"))
    return [t[1:] for t in trace if t[1] != ("s", "ERROR")], None, errors


def value(t):
    try:
        return ref.resolve(t, {})
    except ref.RefError:
        return None


def same(a, b):
    return a == b or repr(a) == repr(b)


def judge(t, write, masks, how, stats):
    """All variants of the expression t, written by write(t), have the model's value."""
    try:
        want = value(t)
    except ref.Limit:
        stats.count("unspecified")
        return None
    if want is None:
        for mask in masks:
            e, bound = split(t, mask)
            text = plan(0, write(e), bound, how)
            items, loading, errors = observe(text, stats)
            if items or (loading is None and errors != 1):
                return "%s\nis an error but gives %r" % (text, items)
            stats.count("errors_reported")
        stats.validated += len(masks)
        return None
    if not ref.is_ground(want):
        return None
    text = ""
    for i, mask in enumerate(masks):
        e, bound = split(t, mask)
        text += plan(i, write(e), bound, how)
    items, loading, errors = observe(text, stats)
    if loading or errors:
        return "%s\nshould give %r but fails: %r" % (text, want, loading or "at run time")
    got = dict((i[0][1], i[1]) for i in items)
    if len(items) != len(masks):
        return "%s\nobserved %r" % (text, items)
    for i, mask in enumerate(masks):
        if not same(got[i], want):
            return "%s\nvariant %d has the value %r, expected %r" % (text, i, got[i], want)
    stats.validated += len(masks)
    return None


# ---- sequences without parentheses

ARITH = ("+", "-", "*", "/", "div", "mod", "**")
OPS = ARITH + ref.COMPARE
OPERANDS = (("7", "2", "3", "2"), ("2", "3", "2", "0.5"), ("(-1)", "0", "4", "3"))


def gen_sequences(tier):
    for n in (1, 2, 3, 4):
        for ops in itertools.product(OPS, repeat=n - 1):
            if n == 4 and tier != "thorough" and sum(o in ref.COMPARE for o in ops) > 1:
                continue
            for vals in range(len(OPERANDS)):
                if n == 4 and tier != "thorough" and vals == 2:
                    continue
                for signs in itertools.product(("", "-") if n > 3 or tier != "thorough" else ("", "-", "+", "- -"), repeat=n):
                    if n == 4 and tier != "thorough" and sum(map(bool, signs)) > 1:
                        continue
                    yield [list(ops), vals, list(signs)]


def write_sequence(ops, signs, operands):
    out = [signs[0] + operands[0]]
    for op, sign, x in zip(ops, signs[1:], operands[1:]):
        out.append("%s %s%s" % (op, sign, x))
    return " ".join(out)


def run_sequences(case, stats):
    ops, vals, signs = case
    operands = OPERANDS[vals]
    n = len(ops) + 1
    text = write_sequence(ops, signs, operands)
    t = parse_term(text)
    full = (1 << n) - 1
    masks = sorted({0, full, 0b0101 & full, 0b1010 & full, 1, 1 << (n - 1)} if n > 2 else set(range(full + 1)))
    # The text of each variant is the same sequence with names in place of operands.
    want = value_or_none(t)
    if want is False:
        return None

    def variant(mask):
        bound, names = [], []
        for i, x in enumerate(operands[:n]):
            if mask >> i & 1:
                bound.append((NAMES[i], parse_term(x)))
                names.append(NAMES[i])
            else:
                names.append(x)
        return write_sequence(ops, signs, names), bound

    how = BINDERS[(len(ops) + vals) % 4]
    if want is None:
        for mask in masks:
            e, bound = variant(mask)
            program = plan(0, e, bound, how)
            items, loading, errors = observe(program, stats)
            if items or (loading is None and errors != 1):
                return "%s\nis an error but gives %r" % (program, items)
        stats.validated += len(masks)
        return None
    program = "".join(plan(i, variant(m)[0], variant(m)[1], how) for i, m in enumerate(masks))
    items, loading, errors = observe(program, stats)
    if loading or errors or len(items) != len(masks):
        return "%s\nshould give %r but fails: %r %r" % (program, want, loading, items)
    for i in items:
        if not same(i[1], want):
            return "%s\nvariant %d has the value %r, expected %r" % (program, i[0][1], i[1], want)
    stats.validated += len(masks)
    return None


def parse_term(text):
    return grammar.parse("p(%s)." % text)[0][1][2][0]


def value_or_none(t):
    try:
        return value(t)
    except ref.Limit:
        return False


# ---- chains of comparisons

CHAIN = (N(1), N(2), N(3))


def gen_chains(tier):
    for ops in itertools.product(ref.COMPARE, repeat=3):
        yield [list(ops)]
    for ops in itertools.product(ref.COMPARE if tier == "thorough" else ("<", ">=", "=="), repeat=4):
        yield [list(ops)]


def chain_value(ops, xs):
    """Left to right, as far as needed; None for an error."""
    for op, a, b in zip(ops, xs, xs[1:]):
        v = value(("o", op, a, b))
        if v is None:
            return None
        if v == B(False):
            return False
    return True


def run_chains(case, stats):
    ops = case[0]
    n = len(ops) + 1
    names = NAMES[:n]
    chain = " ".join(x for p in zip(names, ops + [""]) for x in p).strip()
    args = ", ".join(names)
    domain = CHAIN if n == 4 else CHAIN[:2]
    fine = list(itertools.product(domain, repeat=n))
    odd = [x for i in range(n) for x in itertools.product(*[(S("a"),) if i == j else CHAIN[:2] for j in range(n)])]
    text = "".join("!v(%s).\n" % ", ".join(map(ref.text, x)) for x in fine)
    text += "".join("!d(%s).\n" % ", ".join(map(ref.text, x)) for x in fine + odd) + "+!d(%s) <- !c(%s).\n" % (args, args)
    text += "+!v(%s) <- .emit(v, %s, %s).\n" % (args, args, chain)
    text += "+!c(%s) : %s <- .emit(c, %s, true).\n+!c(%s) <- .emit(c, %s, false).\n" % (args, chain, args, args, args)
    text += "".join("!i(%s).\n" % ", ".join(map(ref.text, x)) for x in fine + odd)
    text += "+!i(%s) <- if (not (%s)) { .emit(i, %s, false) } else { .emit(i, %s, true) }.\n" % (args, chain, args, args)
    want, faults = collections.Counter(), 0
    for what, xss in (("v", fine), ("c", fine + odd), ("i", fine + odd)):
        for x in xss:
            v = chain_value(ops, x)
            if v is None:
                faults += 1
            else:
                want[(F(what),) + x + (B(v),)] += 1
    # One goal after the other, so that an error does not hide the others.
    items, loading, errors = observe(text, stats)
    if loading:
        return "%s\nis not loaded: %r" % (text[-1500:], loading)
    got = collections.Counter(tuple(i) for i in items)
    if got != want or errors != faults:
        return "%s: wrong %r, missing %r, %d errors instead of %d" % (chain, list((got - want).items())[:3], list((want - got).items())[:3], errors, faults)
    # Constants instead of variables.
    lines = []
    for i, x in enumerate(fine):
        c = " ".join(y for p in zip(map(ref.text, x), ops + [""]) for y in p).strip()
        lines.append(".emit(%d, %s)" % (i, c))
    items, loading, errors = observe("!g.\n+!g <- %s.\n" % ";\n".join(lines), stats)
    if loading or errors or [i[1] for i in items] != [B(chain_value(ops, x)) for x in fine]:
        return "%s\nobserves %r" % ("\n".join(lines), loading or items)
    stats.validated += 1
    return None


# ---- all operators on all pairs of values

VALUES = ([N(x) for x in (0, 1, 2, -1, 3, -3, 0.5, -0.5, 2.5, 10, 1e10, 1e300, -7)] + [S(x) for x in ("", "a", "b", "ab", "1", "true", "A", "B", "aB", "a ", "\xe4")] + [B(True), B(False)]
          + [F(x) for x in ("a", "b", "ab", "trues")] + [F("f", N(1)), F("f", N(2)), F("f", N(1), N(2)), F("g", N(1)), F("f", F("a")), F("f", S("a")), F("a", annots=(N(1),))]
          + [L(), L(N(1)), L(N(2)), L(N(1), N(2)), L(F("a")), L(L()), L(S("a"))])


def gen_table(tier):
    for op in OPS + ("&", "|"):
        for a, b in itertools.product(VALUES, repeat=2):
            for how in BINDERS if tier == "thorough" else BINDERS[:1]:
                yield [("o", op, a, b), how]
    for op in ("+", "-", "not"):
        for a in VALUES:
            for how in BINDERS:
                yield [("u", op, a), how]
                yield [("u", op, ("u", op, a)), how]
    # Variables without value are no operands.
    for op in OPS + ("&", "|"):
        for a in VALUES:
            if op not in ("==", "\\=="):
                yield [("o", op, a, V("Free")), "goal"]
                yield [("o", op, V("Free"), a), "goal"]


def run_table(case, stats):
    t = ref.tup(case[0])
    n = len(leaves(t))
    return judge(t, syntax.term, range(1 << n), case[1], stats)


# ---- trees

KINDS = (N(2), N(-1), S("a"), B(True), F("a"), L(N(1)), N(0.5), B(False))


def level(below, other, ops=OPS + ("&", "|")):
    for op in ops:
        for a, b in itertools.product(below, other):
            yield ("o", op, a, b)
            if a != b:
                yield ("o", op, b, a)


def gen_trees(tier):
    kinds = KINDS[:6]
    one = [("u", op, a) for op in ("+", "-", "not") for a in kinds] + [("o", op, a, b) for op in OPS + ("&", "|") for a in kinds for b in kinds]
    good = [t for t in one if value_or_none(t)]
    few = KINDS[:4] if tier != "thorough" else KINDS
    for t in one:
        for op in ("+", "-", "not"):
            yield [("u", op, t)]
    for t in level(one if tier == "thorough" else good, few):
        yield [t]
    # Both sides are expressions.
    nums = [("o", op, a, b) for op in ARITH for a in (N(2), N(-3)) for b in (N(2), N(0.5))] + [("u", "-", N(2))]
    logic = [("o", op, a, b) for op in ("<", "==", "\\==", ">=") for a in (N(2), N(3)) for b in (N(2),)] + [("u", "not", B(False)), ("o", "&", B(True), B(False))]
    for op in OPS:
        for a, b in itertools.product(nums, repeat=2):
            yield [("o", op, a, b)]
    for op in ("&", "|", "==", "\\=="):
        for a, b in itertools.product(logic, repeat=2):
            yield [("o", op, a, b)]
    if tier == "thorough":
        for op, op2 in itertools.product(OPS + ("&", "|"), repeat=2):
            for a, b in itertools.product(nums[::3] + logic[::3], repeat=2):
                for c in KINDS[:4]:
                    yield [("o", op2, ("o", op, a, b), c)]


def run_trees(case, stats):
    t = ref.tup(case[0])
    n = len(leaves(t))
    full = (1 << n) - 1
    return judge(t, syntax.term, sorted({0, full, 0b0101 & full, 0b1010 & full, 1}), BINDERS[0], stats)


# ---- logic

ATOMS = {
    "t": ("true",), "f": ("false",), "vt": ("lit", V("X")), "vf": ("lit", V("Y")),
    "lt": ("cmp", "<", V("U"), N(2)), "ge": ("cmp", ">=", ("o", "+", V("U"), N(1)), N(3)), "cc": ("cmp", "<", N(1), N(2)), "ce": ("cmp", "==", N(1), N(2)),
    "eb": ("cmp", "==", V("X"), V("Y")), "et": ("cmp", "\\==", V("X"), B(True)), "bad": ("cmp", "<", V("U"), S("a")), "div": ("cmp", "<", ("o", "/", N(1), V("Z")), N(2)),
    "uni": ("uni", V("U"), ("o", "-", N(3), N(2))), "p": ("lit", F("p", V("U"))), "q": ("lit", F("q")),
}
WORDS = tuple(ATOMS)


def boolean_trees(depth, atoms, shallow):
    if depth == 0:
        for a in atoms:
            yield a
        return
    below = list(boolean_trees(depth - 1, atoms, shallow))
    for a in below:
        yield a
    for a in below:
        yield ["not", a]
    for op in ("and", "or"):
        for a, b in itertools.product(below, shallow):
            yield [op, a, b]
            if not isinstance(a, str):
                yield [op, b, a]


PLACES_L = ("context", "if", "while", "rule", "body")


def gen_logic(tier):
    one = list(boolean_trees(1, WORDS, WORDS))
    for q in one:
        for place in PLACES_L:
            yield [place, q]
    two = [x for x in boolean_trees(2, WORDS[:8] if tier != "thorough" else WORDS, WORDS[2:8:2] if tier != "thorough" else WORDS[1:9]) if not isinstance(x, str)]
    for i, q in enumerate(two):
        yield [PLACES_L[i % 5], q]


def build_q(q):
    if isinstance(q, str):
        return ATOMS[q]
    return (q[0],) + tuple(build_q(x) for x in q[1:])


def emit(*t):
    return ("q", ("act", ".emit", tuple(t)))


def run_logic(case, stats):
    place, q = case[0], build_q(case[1])
    X, Y, Z, U = V("X"), V("Y"), V("Z"), V("U")
    beliefs = [F("p", N(1)), F("q")]
    rules = []
    head = F("g", X, Y, Z, U)
    goals = [F("g", B(True), B(False), N(0), N(u)) for u in (1, 2)]
    plans = []
    if place == "context":
        plans = [(None, "+!", head, q, (emit(S("yes"), U),)), (None, "+!", head, None, (emit(S("no"), U),))]
    elif place == "if":
        plans = [(None, "+!", head, None, (("if", q, (emit(S("yes"), U),), (emit(S("no"), U),)),))]
    elif place == "while":
        plans = [(None, "+!", head, None, (("while", ("and", ("not", ("lit", F("done", U))), q), (emit(S("yes"), U), ("+", F("done", U)))), emit(S("no"), U)))]
    elif place == "rule":
        rules = [(F("r", X, Y, Z, U), q)]
        plans = [(None, "+!", head, ("lit", F("r", X, Y, Z, U)), (emit(S("yes"), U),)), (None, "+!", head, None, (emit(S("no"), U),))]
    else:
        plans = [(None, "+!", head, None, (("q", q), emit(S("yes"), U)))]
    prog = (beliefs, rules, goals, plans)
    text = syntax.program(prog)
    try:
        ok, _ = grammar.verdict(text)
    except grammar.Unknown:
        ok = None
    if ok is False:
        stats.count("not_a_program")
        return None
    return impl.conform([("a", prog)], stats, texts=[("a", text)], faults=True, beliefs=False)


# ---- places

EXPRS = [("o", "+", V("X"), N(1)), ("o", "*", V("X"), V("Y")), ("u", "-", V("X")), ("o", "-", ("o", "**", V("Y"), N(2)), V("X")), ("o", "+", N(1), N(2)),
         ("o", "/", V("X"), N(0)), ("o", "+", V("X"), V("S")), ("o", "<", V("X"), V("Y")), ("u", "not", V("T")), ("o", "|", V("T"), B(False)),
         ("o", "==", V("S"), S("a")), ("o", "mod", N(7), V("Y")), ("o", "&", V("T"), V("X")), ("o", "div", N(1), N(0)), ("o", "<", V("S"), N(1)),
         ("o", "-", N(1), ("o", "-", N(2), N(3))), ("o", "+", V("X"), V("Free")), ("o", "<", V("Free"), V("X"))]


def wrappers(e):
    yield e
    yield F("f", e)
    yield L(e, N(0))
    yield F("f", L(F("g", e)))
    yield ("c", e, L(V("X")))
    yield F("f", annots=(e,))


def gen_places(tier):
    for i in range(len(EXPRS)):
        for w in range(6):
            for place in range(len(PLACES)):
                yield [i, w, place]


def r_plan(*body, ctx=None, head=None):
    return (None, "+!", head or F("run", V("X"), V("Y"), V("S"), V("T")), ctx, tuple(body))


EXTRA = [(None, "+!", F("h", V("V")), None, (emit(S("h"), V("V")),)), (None, "+?", F("h", V("V")), None, (emit(S("test"), V("V")),)),
         (None, "+", F("h", V("V")), None, (emit(S("added"), V("V")),)), (None, "-", F("h", V("V")), None, (emit(S("removed"), V("V")),)),
         (None, "+!", F("k", N(3), V("V")), None, (emit(S("k"), V("V")),))]
H = lambda t: F("h", t)  # noqa
BIND = (("uni", V("X"), N(2)), ("uni", V("Y"), N(3)), ("uni", V("S"), S("a")), ("uni", V("T"), B(True)))
RHEAD = lambda t: F("r", V("X"), V("Y"), V("S"), V("T"), t)  # noqa
RCALL = F("r", V("X"), V("Y"), V("S"), V("T"), V("V"))
PLACES = [
    lambda t: ([], r_plan(emit(t))),
    lambda t: ([], r_plan(("!", H(t)), emit(S("end")))),
    lambda t: ([], r_plan(("!!", H(t)), emit(S("end")))),
    lambda t: ([], r_plan(("+", H(t)), emit(S("end")))),
    lambda t: ([], r_plan(("+", H(N(3))), ("-", H(t)), emit(S("end")))),
    lambda t: ([], r_plan(("+", H(N(3))), ("-+", H(t)), emit(S("end")))),
    lambda t: ([], r_plan(("?", H(t)), emit(S("end")))),
    lambda t: ([], r_plan(("q", ("uni", V("V"), t)), emit(V("V")))),
    lambda t: ([], r_plan(("q", ("uni", t, V("V"))), emit(V("V")))),
    lambda t: ([], r_plan(("q", ("uni", t, N(3))), emit(S("three")))),
    lambda t: ([], r_plan(("q", ("uni", L(t, V("V")), L(V("W"), t))), emit(V("V"), V("W")))),
    lambda t: ([], r_plan(emit(S("yes")), ctx=("cmp", "==", t, t))),
    lambda t: ([], r_plan(emit(V("V")), ctx=("uni", V("V"), t))),
    lambda t: ([], r_plan(emit(S("yes")), ctx=("lit", H(t)))),
    lambda t: ([], r_plan(("for", ("act", ".member", (V("V"), L(t, N(9)))), (emit(V("V")),)))),
    lambda t: ([], r_plan(("if", ("cmp", "\\==", V("X"), t), (emit(S("yes")),), (emit(S("no")),)))),
    lambda t: ([(RHEAD(t), ("true",))], r_plan(emit(V("V")), ctx=("lit", RCALL))),
    lambda t: ([(RHEAD(V("V")), ("uni", V("V"), t))], r_plan(emit(V("V")), ctx=("lit", RCALL))),
    lambda t: ([(RHEAD(V("V")), ("and", ("lit", H(t)), ("uni", V("V"), N(1))))], r_plan(emit(V("V")), ctx=("lit", RCALL))),
    lambda t: ([], r_plan(("q", ("act", ".findall", (t, F("n", V("X")), V("V")))), emit(V("V")), head=F("run", V("Q"), V("Y"), V("S"), V("T")))),
    lambda t: ([], r_plan(("!", F("k", t, V("X"))), emit(S("end")))),
    lambda t: ([], r_plan(emit(S("h"), F("h", t, V("X"))))),
]


def run_places(case, stats):
    t = list(wrappers(EXPRS[case[0]]))[case[1]]
    rules, p = PLACES[case[2]](t)
    if any(st[0] == "-+" for st in p[4]) and grammar.constant(EXPRS[case[0]]):
        # What is replaced depends on whether the argument is a constant (see C04).
        return None
    prog = ([F("n", N(4)), F("n", N(5))], rules, [], [p] + EXTRA)
    goal = F("run", N(2), N(3), S("a"), B(True))
    text = syntax.program(prog)
    ok, _ = grammar.verdict(text)
    if ok is False:
        stats.count("not_a_program")
        return None
    fails = None
    if ok is None:
        # Constants without value may be found when loading.
        try:
            impl.Run([("a", text)])
        except impl.ERRORS as e:
            fails = e
        if fails is not None:
            stats.count("load_errors")
            return None if value_or_none(EXPRS[case[0]]) is None else "%s\nis not loaded: %r" % (text, fails)
    return impl.conform([("a", prog)], stats, texts=[("a", text)], faults=True, phases=[("a", goal)])


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.stdlib


SUITES = {"sequences": (gen_sequences, run_sequences), "chains": (gen_chains, run_chains), "table": (gen_table, run_table), "trees": (gen_trees, run_trees), "logic": (gen_logic, run_logic),
          "places": (gen_places, run_places), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
