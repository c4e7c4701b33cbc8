"""C18: built-in actions compute their documented functions."""
import harness
if __name__ == "__main__":
    harness.reexec()
import functools
import io
import itertools
import math
import re
import sys
from ref import N, S, B, V, W, F, L, C
import ref
import scale
import shapes

PROPERTY = "C18"
RULE = ("functions: every built-in function on all argument tuples over lists up to length three, strings, numbers, literals and unbound variables, with the result "
        "unbound, right, wrong, ignored or a pattern; strings: the same with strings of white space, quotes, letters outside ASCII and combining characters; enumerators: every built-in that enumerates, in every binding mode; again: every call of a corpus executed three times by the same statement with other arguments each time, by new intentions, by calls and in a loop; types: every type test on every kind of "
        "term; each in every place where an action can be called (body, context, condition, loop, negation, rule, before a failing condition), with arguments given "
        "as constants or through variables; shapes: results with the same variable in several places, taken apart; print: every sequence of printed terms; unbound: every tuple of terms with unbound variables, each of which is printed as one name; world: .date, .time, .random, .randint in every binding mode, sequences of up to three .csv of two agents; a state is a distinct (program, observations so far), a transition a step")
DESIGN = ("the functions are defined a second time over the terms of the model; a program that calls the action in a place and hands the arguments and the result "
          "to an action is run, and its observations (answers in order, bindings during and after the call, errors) must be those of the model")
ASSUMPTIONS = ["not judged: .length of literals, strings where lists are expected and strings or booleans where numbers are expected (converted as Python does), fractions as index, ties of .round, "
               "lists with unbound elements as arguments of functions, .tail of the empty list, order of booleans and annotated structures",
               "the order of beliefs is not specified"]

X, Y, Z, R, Q = V("X"), V("Y"), V("Z"), V("R"), V("Q")


# ---- the functions

def value(t, s):
    return ref.resolve(t, s)


def the_list(t):
    if t[0] == "l":
        if not ref.is_ground(t):
            raise ref.Limit()
        return t[1]
    if t[0] in ("s", "c"):
        raise ref.Limit()
    raise ref.RefError("not a list")


def number(t):
    if t[0] == "n":
        return t[1]
    if t[0] == "b" or t[0] == "s":
        raise ref.Limit()
    raise ref.RefError("not a number")


def ordered(items):
    def cmp(a, b):
        if a == b:
            return 0
        return -1 if ref.less(a, b) else 1
    for a, b in itertools.combinations(items, 2):
        cmp(a, b)
    return sorted(items, key=functools.cmp_to_key(cmp))


def length(t):
    if t[0] == "s":
        return N(len(t[1]))
    if t[0] == "f":
        raise ref.Limit()
    return N(len(the_list(t)))


def nth(i, t):
    i = number(i)
    if i != int(i):
        raise ref.Limit()
    items = the_list(t)
    if not 0 <= i < len(items):
        raise ref.RefError("index")
    return items[int(i)]


def least(t):
    items = the_list(t)
    if not items:
        raise ref.RefError("empty")
    return ordered(items)[0]


def greatest(t):
    items = the_list(t)
    if not items:
        raise ref.RefError("empty")
    return ordered(items)[-1]


def tail(t):
    items = the_list(t)
    if not items:
        raise ref.Limit()
    return L(*items[1:])


def rounded(t):
    x = number(t)
    if x % 1 == 0.5:
        raise ref.Limit()
    return N(math.floor(x + 0.5))


def render(t, inner=False):
    if t[0] == "n":
        return "%d" % t[1] if t[1] == int(t[1]) else repr(t[1])
    if t[0] == "s":
        if inner:
            raise ref.Limit()
        return t[1]
    if t[0] == "b":
        return "true" if t[1] else "false"
    if t[0] == "l":
        return "[%s]" % ", ".join(render(x, True) for x in t[1])
    if t[0] == "f":
        if t[3]:
            raise ref.Limit()
        return t[1] + ("(%s)" % ", ".join(render(x, True) for x in t[2]) if t[2] else "")
    if ref.is_ground(t):
        raise ref.Limit()
    raise ref.RefError("not ground")


def concat(*ts):
    for t in ts:
        if not ref.is_ground(t):
            raise ref.RefError("not ground")
        if t[0] == "c":
            raise ref.Limit()
    if all(t[0] == "l" for t in ts):
        return L(*[x for t in ts for x in t[1]])
    return S("".join(map(render, ts)))


FUNCTIONS = {".length": (length, 1), ".nth": (nth, 2), ".min": (least, 1), ".max": (greatest, 1), ".sort": (lambda t: L(*ordered(the_list(t))), 1),
             ".tail": (tail, 1), ".floor": (lambda t: N(math.floor(number(t))), 1), ".ceil": (lambda t: N(math.ceil(number(t))), 1), ".round": (rounded, 1),
             ".concat": (concat, None)}


def function(f):
    def action(world, agent, args, s):
        r = ref.unify(args[-1], f(*[value(a, s) for a in args[:-1]]), s)
        if r is not None:
            yield r
    return action


def predicate(f):
    def action(world, agent, args, s):
        if f(value(args[0], s)):
            yield s
    return action


def is_list(t):
    if t[0] == "c":
        raise ref.Limit()
    return t[0] == "l"


TYPES = {".atom": lambda t: t[0] == "f" and not t[2] and not t[3], ".literal": lambda t: t[0] == "f", ".list": is_list, ".number": lambda t: t[0] == "n",
         ".string": lambda t: t[0] == "s", ".structure": lambda t: t[0] == "f" or is_list(t), ".ground": ref.is_ground}


def substring(world, agent, args, s):
    needle, hay = [value(a, s) for a in args[:2]]
    needle, hay = render(needle), render(hay)
    for i in range(len(hay) + 1):
        if hay[i:i + len(needle)] == needle:
            r = ref.unify(args[2], N(i), s)
            if r is not None:
                yield r


def member(world, agent, args, s):
    t = value(args[1], s)
    if t[0] in ("s", "c"):
        raise ref.Limit()
    if t[0] != "l":
        raise ref.RefError("not a list")
    for x in t[1]:
        r = ref.unify(args[0], x, s)
        if r is not None:
            yield r


def range_(world, agent, args, s):
    n = number(ref.ground(args[0], s))
    if n != int(n):
        raise ref.Limit()
    for i in range(int(n)):
        r = ref.unify(args[1], N(i), s)
        if r is not None:
            yield r


def total(world, agent, args, s):
    out = 0.0
    for r in agent.query_term(args[1], s):
        x = ref.ground(args[0], r)
        if x[0] != "n":
            raise ref.RefError("not a number")
        out += x[1]
    r = ref.unify(args[2], N(out), s)
    if r is not None:
        yield r


ACTIONS = {".substring": substring, ".member": member, ".range": range_, ".sum": total}
for _name, (_f, _n) in FUNCTIONS.items():
    ACTIONS[_name] = function(_f)
for _name, _f in TYPES.items():
    ACTIONS[_name] = predicate(_f)


# ---- places

BELIEFS = [F("p", N(1)), F("p", N(2)), F("q", F("a"), N(3)), F("q", F("b"), N(4)), F("q", F("a"), N(5)), F("t", S("x")), F("m", B(True)), F("u", L(N(1))), F("zero", N(0))]


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


def emit(*t):
    return ("q", ("act", ".emit", tuple(t)))


PLACES = ("body", "context", "for", "not", "fails", "rule", "disjunction")


def program(place, bound, call, watch):
    """A program that calls an action in a place and observes the watched variables there and afterwards."""
    head = F("go", *[v for v, _ in bound])
    goal = F("go", *[t for _, t in bound])
    seen = emit(S("in"), *watch)
    after = emit(S("after"), *watch)
    rules = []
    plans = []
    if place == "body":
        plans = [(None, "+!", head, None, (("q", call), seen, after))]
    elif place == "context":
        plans = [(None, "+!", head, call, (seen,)), (None, "+!", head, None, (after,))]
    elif place == "for":
        plans = [(None, "+!", head, None, (("for", call, (seen,)), after))]
    elif place == "not":
        plans = [(None, "+!", head, None, (("if", ("not", call), (seen,), (after,)), after))]
    elif place == "fails":
        body = ("and", call, ("and", ("act", ".emit", (S("in"),) + tuple(watch)), ("act", ".fail", ())))
        plans = [(None, "+!", head, None, (("if", body, (), (after,)), after))]
    elif place == "rule":
        rules = [(F("r", *watch), call)]
        plans = [(None, "+!", head, None, (("for", ("lit", F("r", *watch)), (seen,)), after))]
    else:
        plans = [(None, "+!", head, None, (("for", ("or", call, ("uni", Q, N(7))), (emit(S("in"), Q, *watch),)), after))]
    # The goal is started by a plan, so that errors are reported by the run loop.
    plans.append((None, "+!", F("start"), None, (("!", goal),)))
    return (BELIEFS, rules, [], plans), F("start")


def variables(t, acc):
    if t[0] == "v":
        if t not in acc:
            acc.append(t)
    elif t[0] in ("o", "u"):
        for x in t[2:]:
            variables(x, acc)
    elif t[0] == "f":
        for x in t[2] + t[3]:
            variables(x, acc)
    elif t[0] == "l":
        for x in t[1]:
            variables(x, acc)
    elif t[0] == "c":
        variables(t[1], acc)
        variables(t[2], acc)
    return acc


def conform(name, args, by_variable, place, stats):
    """by_variable: bit mask of arguments that are given through variables."""
    bound = []
    call_args = []
    for i, a in enumerate(args):
        if by_variable >> i & 1 and a[0] not in ("v", "w"):
            v = V("A%d" % i)
            bound.append((v, a))
            call_args.append(v)
        else:
            call_args.append(a)
    watch = []
    for a in list(args) + [v for v, _ in bound]:
        variables(a, watch)
    if any(variables(t, []) for _, t in bound):
        # Values of goal arguments are renamed; only ground ones are given through variables.
        bound, call_args = [], list(args)
        watch = []
        for a in args:
            variables(a, watch)
    prog, goal = program(place, bound, ("act", name, tuple(call_args)), watch)
    return impl.conform([("a", prog)], stats, model_actions=ACTIONS, faults=True, beliefs=False, phases=[("a", goal)], cached=False)


# ---- functions

ELEMENTS = [N(1), N(2), S("b"), S("a"), F("a"), F("f", N(1)), L(N(1))]
SCALARS = [N(x) for x in (0, 1, 2, -1, 0.4, 2.5, -1.7, 1e10)] + [S(""), S("ab"), S("aab"), F("a"), F("ab"), F("f", N(1)), B(True), V("U")]
# Strings that something may strip, fold or quote.
ODD = [S(x) for x in (" a", "a ", "\n", "a\n", "\ta", " ", "A", "Ab", "\u00e4", "\u00df", "a\\", "\"", "aa\u0308", "\U0001f600b")]


def lists(n, elements):
    for k in range(n + 1):
        for items in itertools.product(elements, repeat=k):
            yield L(*items)


LISTS = list(lists(2, ELEMENTS)) + [L(N(3), N(1), N(2)), L(N(2), N(2), N(1)), L(S("b"), S("c"), S("a")), L(F("c"), F("a"), F("b")), L(F("f", N(2)), F("f", N(1)), F("f", N(3))),
                                    L(L(N(2)), L(N(1), N(2)), L(N(1))), L(N(1), N(2), S("x")), L(F("f", N(2)), F("g", N(1))), L(F("f", S("b")), F("f", S("a"))), C(N(1), L(N(2))),
                                    C(N(1), C(N(0), L())), L(N(10), N(9), N(-1), N(0.5)), L(S("B"), S("a"), S("")), L(B(True)), L(N(1), B(True)), L(F("f", N(1), N(2)), F("f", N(1), N(1)))]


def results(want):
    """Ways to give the result argument."""
    out = [R, W, N(99), S("zz"), F("f", R, Z), C(R, Z), L()]
    if want is not None:
        out.append(want)
        if want[0] == "l":
            out.append(C(R, L(*want[1][1:])) if want[1] else R)
            out.append(L(*[V("E%d" % i) for i in range(len(want[1]))]))
        if want[0] == "n":
            out.append(N(want[1] + 1))
            out.append(("o", "+", N(want[1] - 1), N(1)))
    return out


def expected(name, args):
    try:
        return FUNCTIONS[name][0](*[ref.resolve(a, {}) for a in args])
    except ref.RefError:
        return None


def tuples(name, n, tier):
    if name == ".nth":
        for i in [N(x) for x in (0, 1, 2, 3, -1, -2, 0.5, 1e10)] + [F("a"), L(), S("a"), V("U"), ("o", "-", N(2), N(1))]:
            for t in LISTS[::1 if tier == "thorough" else 3] + SCALARS[8:]:
                yield (i, t)
    elif name == ".concat":
        pool = [L(), L(N(1)), L(N(1), F("a")), C(F("b"), L(S("x"))), L(L()), S(""), S("ab"), S("\"\\"), N(1), N(2.5), N(-3), F("a"), B(False), F("f", N(1)), V("U"), L(V("U"))]
        for k in (0, 1, 2):
            for args in itertools.product(pool, repeat=k):
                yield args
        for args in itertools.product(pool if tier == "thorough" else pool[::3], repeat=3):
            yield args
    elif name in (".floor", ".ceil", ".round"):
        for t in SCALARS + [N(x) for x in (0.5, 1.5, -0.5, -0.4, 1e15, 123456.75, -2, 0.999999)] + [L(), L(N(1)), ("o", "/", N(7), N(2))]:
            yield (t,)
    else:
        for t in LISTS + SCALARS:
            yield (t,)
        if tier == "thorough":
            for t in lists(3, ELEMENTS):
                if len(t[1]) == 3:
                    yield (t,)
    # Wrong numbers of arguments are no calls of the action (see C19).


def gen_functions(tier):
    k = 0
    for name, (f, n) in FUNCTIONS.items():
        for args in tuples(name, n, tier):
            try:
                want = expected(name, args)
            except ref.Limit:
                continue
            forms = results(want)
            for r in forms:
                for place in PLACES:
                    for mask in range(2 ** (len(args) + 1)):
                        # Everything with an unbound result; for the others, places and ways alternate.
                        k += 1
                        if tier == "thorough" and len(args) < 3:
                            if r is not R and k % 3:
                                continue
                        elif (r is not R or mask not in (0, 2 ** (len(args) + 1) - 1)) and k % 31:
                            continue
                        elif r is R and len(LISTS) > 0 and name not in (".concat", ".nth") and k % 2:
                            continue
                        elif name in (".concat", ".nth") and k % 5:
                            continue
                        yield [name, list(args) + [r], mask, place]


def run_functions(case, stats):
    name, args, mask, place = case
    return conform(name, ref.tup(args), mask, place, stats)


# ---- strings of unusual characters

def gen_strings(tier):
    for s in ODD:
        for r in (R, N(len(s[1])), N(len(s[1]) + 1)):
            yield [".length", [s, r], "body"]
        yield [".length", [s, R], "for"]
        for name in TYPES:
            yield [name, [s], "body"]
    few = ODD + [S(""), S("a"), N(1), F("a"), N(1e15), N(-123456789012345680.0), N(0.1), N(1234567.125)]
    for s, t in itertools.product(few, repeat=2):
        for r in (R, S(render(s) + render(t)), s):
            yield [".concat", [s, t, r], "body"]
        yield [".substring", [s, t, R], "for"]
        yield [".substring", [s, S(render(s) + render(t)), R], "for"]
        yield [".member", [s, L(t, s), ], "body"]
        yield [".member", [X, L(t, s)], "for"]
        for name in (".sort", ".min", ".max", ".length", ".tail"):
            yield [name, [L(s, t), R], "body"]
    for s in itertools.product(ODD if tier == "thorough" else ODD[::2], repeat=3):
        yield [".sort", [L(*s), R], "body"]
        yield [".concat", list(s) + [R], "body"]


def run_strings(case, stats):
    name, args, place = case
    for mask in (0, 1):
        msg = conform(name, ref.tup(args), mask, place, stats)
        if msg:
            return msg
    return None


# ---- enumerators

PATTERNS = [X, N(1), F("a"), S("a"), F("f", X), F("f", Y, X), L(X), C(X, Y), W, V("U")]


def enumerations(tier):
    pool = [N(1), N(2), F("a"), S("a"), F("f", X), F("f", N(1), N(2)), L(N(1)), L(), Y, F("f", Y, Y), B(True)]
    # .member: element patterns against lists with and without variables.
    seqs = [()] + [(a,) for a in pool] + list(itertools.product(pool, repeat=2)) + list(itertools.product(pool[:4] + [Y], repeat=3))
    for items in seqs:
        for pat in PATTERNS if tier == "thorough" or len(items) < 2 else PATTERNS[len(items) % 2::2]:
            yield ".member", (pat, L(*items))
    for pat in PATTERNS:
        yield ".member", (pat, C(N(1), C(X, L())))
        for t in (N(1), F("a"), F("f", N(1)), V("U"), B(True)):
            yield ".member", (pat, t)
    # .substring
    strings = [S(x) for x in ("", "a", "b", "aa", "ab", "aba", "abab", "aaaa")] + [N(1), N(12.5), F("ab"), B(True), V("U"), F("f", N(1))]
    for a, b in itertools.product(strings, repeat=2):
        for pos in (X, N(0), N(1), N(2), N(7), W, F("a"), S("0")):
            yield ".substring", (a, b, pos)
    # .range
    for n in [N(x) for x in (0, 1, 2, 3, -1, 1.7, 0.5, -0.5)] + [F("a"), L(), V("U"), ("o", "+", N(1), N(1))]:
        for x in (X, N(0), N(1), N(2), N(5), W, F("a"), F("f", X)):
            yield ".range", (n, x)
    # Queries.
    queries = [F("p", X), F("p", N(2)), F("p", W), F("q", X, Y), F("q", F("a"), Y), F("q", X, X), F("none", X), F("t", X), F("m", X), F("u", C(X, Y)), F("s", X), F("d", X, Y), B(True), B(False),
               N(1), S("a"), V("U"), L()]
    for q in queries:
        for pat in (X, Y, F("f", X, Y), N(1), F("f", X)[:3] + ((F("g", Y),),), L(X), F("a"), ("o", "+", X, N(1)), W):
            for r in (R, L(), N(2), L(N(1), N(2)), C(R, Z), W):
                yield ".findall", (pat, q, r)
            for r in (R, N(3), N(0), N(9), F("a"), W):
                yield ".sum", (pat, q, r)
        for r in (R, N(0), N(1), N(2), N(3), F("a"), W, ("o", "+", N(1), N(1))):
            yield ".count", (q, r)
    for r in (R, F("a"), F("b"), S("a"), W, F("a", N(1)), N(1)):
        yield ".my_name", (r,)
    yield ".fail", ()


RULES = [(F("s", X), ("and", ("lit", F("p", X)), ("cmp", "<", X, N(2)))), (F("d", X, Y), ("and", ("lit", F("p", X)), ("lit", F("p", Y))))]


def gen_enumerators(tier):
    k = 0
    for name, args in enumerations(tier):
        for place in PLACES:
            for mask in (0, (1 << len(args)) - 1, 1, 2):
                k += 1
                if tier != "thorough" and (k % 7 if name in (".findall", ".sum", ".substring") else k % 5):
                    continue
                yield [name, list(args), mask, place]


# ---- types

TERMS = SCALARS + [S("1"), S("true"), B(False), L(), L(N(1)), L(X), C(N(1), L()), C(N(1), L(X)), F("f", X), F("f", L(X)), F("a", annots=(N(1),)), F("a", annots=(X,)), F("f", N(1), annots=(F("s"),)),
                   F("~a"), F("a.b"), ("o", "+", N(1), N(2)), ("o", "<", N(1), N(2)), ("u", "-", N(1)), X, F("f", F("g", F("h", X))), F("f", F("g", F("h", N(1)))), L(L(L(X)))]


def gen_types(tier):
    for name in TYPES:
        for t in TERMS:
            for place in PLACES:
                for mask in (0, 1):
                    yield [name, [t], mask, place]
    # Variables that are bound by other calls before.
    for name in TYPES:
        for t in TERMS:
            yield ["later", [name, t], 0, "body"]


def run_types(case, stats):
    name, args, mask, place = case
    if name != "later":
        return conform(name, ref.tup(args), mask, place, stats)
    name, t = args[0], ref.tup(args[1])
    body = (("q", ("uni", V("K"), t)), ("if", ("act", name, (V("K"),)), (emit(N(1)),), (emit(N(2)),)), ("if", ("act", name, (F("w", V("K")),)), (emit(N(1)),), (emit(N(2)),)),
            ("q", ("uni", X, N(1))), ("if", ("act", name, (V("K"),)), (emit(N(1)),), (emit(N(2)),)))
    return impl.conform([("a", (BELIEFS, [], [], [(None, "+!", F("go"), None, body)]))], stats, model_actions=ACTIONS, faults=True, beliefs=False, phases=[("a", F("go"))])


def run_enumerators(case, stats):
    name, args, mask, place = case
    return conform(name, ref.tup(args), mask, place, stats)


# ---- print

PRINTED = [N(1), N(-2.5), N(0), N(1e10), S("a b"), S(""), S("q\"'\\"), S("é€"), B(True), B(False), F("a"), F("~a"), F("f", N(1), F("b")), L(), L(N(1), F("a")), C(N(1), L(N(2))), X, ("o", "+", N(1), N(1)), L(L(N(1)), B(True)),
           N(1e15), N(123456789012345680.0), N(-1e20), N(0.1), N(1234567.125), N(999999999999999.0)]
ANSI = re.compile("\x1b\\[[0-9;]*m")


def gen_print(tier):
    for n in (0, 1, 2, 3):
        for args in itertools.product(range(len(PRINTED)), repeat=n):
            if n == 3 and tier != "thorough" and sum(args) % 8:
                continue
            yield [list(args)]


def run_print(case, stats):
    args = [PRINTED[i] for i in case[0]]
    text = "!go.\n+!go <- X = w(3); .print%s; .emit(done).\n" % ("(%s)" % ", ".join(map(ref.text, args)) if args else "")
    stats.state(text)
    run = impl.Run([("ag", text)])
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        stats.step(run.drive_faults())
        shown = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    want = " ".join(render(ref.resolve(a, {X: F("w", N(3))})) for a in args)
    shown = ANSI.sub("", shown)
    if shown.split() != ("ag " + want).split() or not shown.endswith(want + "\n") or shown.count("\n") != 1:
        return "%s\nprints %r, expected %r" % (text, shown, "ag " + want)
    if [t[1] for t in run.trace] != [F("done")]:
        return "%s\nobserved %r" % (text, run.trace)
    stats.validated += 1
    return None


# ---- printing variables

U1, U2 = V("U"), V("V")
UNBOUND = [U1, U2, F("f", U1), C(N(1), U2), L(U2, U1), W, N(1), F("g", W, U1)]


def gen_unbound(tier):
    for n in range(1, 5 if tier == "thorough" else 4):
        for args in itertools.product(range(len(UNBOUND)), repeat=n):
            for alias in (False, True):
                yield [list(args), alias]
    for args in itertools.product((0, 1, 2, 5), repeat=4):
        yield [list(args), False]


def pattern(t, groups):
    """A regular expression for the text of a term: each variable has a name of its own."""
    if t[0] == "v":
        if t in groups:
            return "(?P=%s)" % groups[t]
        groups[t] = "v%d" % len(groups)
        return "(?P<%s>[^][,|() ]+)" % groups[t]
    if t[0] == "w":
        return "[^][,|() ]+"
    if t[0] == "c" and ref.resolve(t, {})[0] == "l":
        t = ref.resolve(t, {})
    if t[0] == "c":
        return "\\[" + pattern(t[1], groups) + "\\|" + pattern(t[2], groups) + "\\]"
    if t[0] == "l":
        return "\\[" + ", ".join(pattern(x, groups) for x in t[1]) + "\\]"
    if t[0] == "f":
        text = re.escape(t[1])
        for args, (start, end) in ((t[2], "()"), (t[3], "[]")):
            if args:
                text += "\\" + start + ", ".join(pattern(x, groups) for x in args) + "\\" + end
        return text
    return re.escape(render(t))


def run_unbound(case, stats, args=None):
    args = args or [UNBOUND[i] for i in case[0]]
    text = "!go.\n+!go <- %s.print(%s); .emit(done).\n" % ("U = V; " if case[1] else "", ", ".join(map(ref.text, args)))
    stats.state(text)
    run = impl.Run([("ag", text)])
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        stats.step(run.drive_faults())
        shown = ANSI.sub("", sys.stdout.getvalue())
    finally:
        sys.stdout = old
    groups = {}
    if case[1]:
        args = [ref.resolve(a, {U1: U2}) for a in args]
    want = "ag\\s+" + " ".join(pattern(a, groups) for a in args) + "\n"
    m = re.fullmatch(want, shown)
    if not m or len(set(m.groupdict().values())) != len(groups):
        return "%s\nprints %r, expected %s" % (text, shown, want)
    stats.validated += 1
    return None


# ---- structures that hold the same variable several times

def gen_shapes(tier):
    for kind, leaves in shapes.terms("quick"):
        if len(leaves) < 5 or tier == "thorough":
            for how in ("findall", "findall2", "member", "nth", "tail", "print"):
                yield [kind, leaves, how]


def run_shapes(case, stats):
    kind, leaves, how = case
    t = shapes.term(kind, leaves)
    if how == "print":
        if kind == "annots" and len(leaves) > 1:
            return None
        return run_unbound([None, False], stats, [t])
    ps = [V("P%d" % i) for i in range(len(leaves))]
    fresh = shapes.KINDS[kind](tuple(ps))
    get, one = {"findall": ((act(".findall", t, F("p", X), R), ("q", ("uni", R, C(V("E"), W)))), V("E")),
                "findall2": ((act(".findall", t, F("p", W), R), ("q", ("uni", R, C(V("D"), C(V("E"), W))))), V("E")),
                "member": ((act(".member", V("E"), L(N(1), t)), ), V("E")), "nth": ((act(".nth", N(1), L(X, t, Y), V("E")),), V("E")),
                "tail": ((act(".tail", L(Y, t, X), R), ("q", ("uni", R, C(V("E"), W)))), V("E"))}[how]
    body = get + (("if", ("uni", one, fresh), (emit(S("s"), X, Y, *ps),), (emit(S("no"), one),)),)
    for i, v in enumerate(ps):
        body += (("if", ("uni", v, N(i + 2)), (emit(S("b"), X, Y, *ps),), ()),)
    body += (emit(R, V("E"), X, Y),)
    return impl.conform([("a", (BELIEFS, [], [], [(None, "+!", F("go"), None, body)]))], stats, model_actions=ACTIONS, faults=True, beliefs=False, phases=[("a", F("go"))])


# ---- one call, several times

A0, A1 = V("A"), V("B")
AGAIN = [(n, (x,)) for n in sorted(TYPES) for x in (A0, F("f", A0), L(A0), F("g", N(1), F("f", A0), A1))]
AGAIN += [(n, (x, R)) for n in (".length", ".min", ".max", ".sort", ".tail") for x in (A0, L(A0), L(A0, A1), L(A1, N(1), A0))]
AGAIN += [(n, (x, R)) for n in (".floor", ".ceil", ".round") for x in (A0, ("o", "+", A0, N(0.25)), ("u", "-", A0))]
AGAIN += [(".concat", (A0, A1, R)), (".concat", (L(A0), A1, R)), (".concat", (S("x"), A0, R)), (".nth", (A0, L(N(5), A1), R)), (".nth", (N(0), A0, A1)),
          (".substring", (A0, A1, R)), (".substring", (S("a"), A0, R)), (".member", (R, L(A0, A1))), (".member", (A0, A1)), (".member", (A0, L(N(1), F("a"), A1))),
          (".range", (A0, R)), (".range", (N(3), A0)), (".sum", (R, F("p", R), A0)), (".sum", (R, F("q", A0, R), Z))]
GIVEN = [N(1), N(2), N(0), F("a"), S("ab"), L(N(2), N(1)), L(), L(F("a"), F("b")), V("U"), F("f", N(1)), C(N(1), L())]


def gen_again(tier):
    for k in range(len(AGAIN)):
        both = any(A1 in variables(x, []) for x in AGAIN[k][1])
        for i in range(len(GIVEN)):
            for j in range(len(GIVEN)):
                for n, way in enumerate(("goals", "loop", "calls")):
                    for b in (3, 5, 7, 2) if both and tier == "thorough" else ((i + j + k) % len(GIVEN),):
                        if tier == "thorough" or way == "goals" or (i + j) % 2 == n - 1:
                            yield [k, [i, j, i if way == "goals" else b], [b, 5, 1], way]


def run_again(case, stats):
    k, firsts, seconds, way = case
    name, args = AGAIN[k]
    pairs = [(GIVEN[i], GIVEN[j]) for i, j in zip(firsts, seconds)]
    seen = ("for", ("act", name, args), (emit(S("in"), A0, A1, R, Z),))
    step = (None, "+!", F("step", A0, A1), None, (seen, emit(S("after"), A0, A1, R, Z)))
    if way == "goals":
        start = tuple(("!!", F("step", a, b)) for a, b in pairs)
    elif way == "calls":
        start = tuple(("!", F("step", a, b)) for a, b in pairs)
    else:
        if any(a[0] in "vc" or b[0] in "vc" for a, b in pairs):
            return None
        start = (("for", ("act", ".member", (F("k", A0, A1), L(*[F("k", a, b) for a, b in pairs]))), (seen,)),)
    plans = [step, (None, "+!", F("start"), None, start)]
    return impl.conform([("a", (BELIEFS, [], [], plans))], stats, model_actions=ACTIONS, faults=True, beliefs=False, phases=[("a", F("start"))], cached=False)


# ---- clock, random numbers and files

PIECES = [V("A"), V("B"), W, "now", N(-1), F("a"), S("x"), L()]
WORLD_PLACES = {"body": "+!go <- %s; .emit(yes, A, B, C).", "context": "+!go : %s <- .emit(yes, A, B, C).\n+!go <- .emit(no).", "not": "+!go <- if (not %s) {.emit(no)} else {.emit(yes)}.",
                "again": "+!go : %s & .emit(yes, A, B, C) & false.\n+!go <- .emit(no, A, B, C)."}


def gen_world(tier):
    for name in (".date", ".time"):
        for args in itertools.product(range(len(PIECES)), repeat=3):
            for n, place in enumerate(WORLD_PLACES):
                if tier == "thorough" or sum(args) % 4 == n or args.count(0) > 1:
                    yield [name, [PIECES[i] for i in args], place]
    for place in WORLD_PLACES:
        for r in (V("A"), W, N(2), N(-1), F("a"), S("0"), L()):
            yield [".random", [r], place]
        for a, b in itertools.product((-2, -1, 0, 1, 2), repeat=2):
            for r in (V("A"), W, N(-3), N(3), N(0.5), F("a"), "only"):
                yield [".randint", [N(a), N(b), r], place]
    for n in (1, 2, 3):
        for rows in itertools.product(range(len(ROWS)), repeat=n):
            if n < 3 or tier == "thorough" or sum(rows) % 5 == 0:
                yield [".csv", [list(rows)], "body"]


ROWS = [("x", ()), ("x", (N(1),)), ("x", (N(2.5), F("f", X, L(N(1), F("s"))), S("a b"))), ("y", (S("\u00e9"), B(True))), ("y", (X, N(-1), L())), ("x", (("o", "+", X, N(1)), S("")))]


def run_world(case, stats):
    import datetime
    name, args, place = case
    args = [a if isinstance(a, str) else ref.tup(a) for a in args]
    if name == ".csv":
        return run_csv(args[0], stats)
    names = ["A", "B", "C"]
    before = datetime.datetime.now()
    given = []
    for i, a in enumerate(args):
        if a == "now":
            a = N([before.year, before.month, before.day][i] if name == ".date" else [before.hour, before.minute, before.second][i])
        elif a == "only":
            a = args[0]
        given.append(a)
    text = "!first.\n+!first <- !!go.\n" + WORLD_PLACES[place] % ("%s(%s)" % (name, ", ".join(map(ref.text, given)))) + "\n"
    text = text.replace("!go <- ", "!go <- C = 0; ", 1) if place == "body" else text.replace(", C)", ")")
    stats.state((name, case[1], place))
    run = impl.Run([("ag", text)])
    stats.step(run.drive_faults())
    after = datetime.datetime.now()
    got = [i[1:] for i in run.items()]
    options = []
    if name == ".random":
        return random_outcome(text, given, place, got, stats)
    if name == ".randint":
        lo, hi = int(given[0][1]), int(given[1][1])
        candidates = [(given[0], given[1], N(i)) for i in range(lo, hi + 1)] or [None]
    else:
        candidates = []
        t = before.replace(microsecond=0)
        while t <= after:
            candidates.append(tuple(map(N, (t.year, t.month, t.day) if name == ".date" else (t.hour, t.minute, t.second))))
            t += datetime.timedelta(seconds=1)
    for c in candidates:
        s = {}
        if c is None:
            options.append([(S("ERROR"),)])
            continue
        for a, v in zip(given, c):
            s = ref.unify(a, v, s) if s is not None else None
        yes = s is not None
        if place == "body":
            o = [ref.canon((F("yes"), ref.resolve(V("A"), s), ref.resolve(V("B"), s), N(0)))] if yes else [(S("ERROR"),)]
        elif place == "context":
            o = [ref.canon((F("yes"), ref.resolve(V("A"), s), ref.resolve(V("B"), s)))] if yes else [(F("no"),)]
        elif place == "not":
            o = [(F("yes" if yes else "no"),)]
        else:
            o = ([ref.canon((F("yes"), ref.resolve(V("A"), s), ref.resolve(V("B"), s)))] if yes else []) + [ref.canon((F("no"), V("A"), V("B")))]
        options.append(o)
    stats.validated += 1
    if got not in options:
        return "%s\nobserved %r, expected one of %r" % (text, got, options[:5])
    return None


def random_outcome(text, given, place, got, stats):
    free = given[0][0] in "vw"
    value = None
    if free and given[0][0] == "v" and place != "not" and got and len(got[0]) > 1:
        value = got[0][1]
        got[0] = (got[0][0], V("A")) + got[0][2:]
        if value[0] != "n" or not 0 <= value[1] < 1:
            return "%s\nobserved %r" % (text, value)
    if place == "body":
        want = [(F("yes"), V("A"), V("B"), N(0))] if free else [(S("ERROR"),)]
    elif place == "context":
        want = [(F("yes"), V("A"), V("B"))] if free else [(F("no"),)]
    elif place == "not":
        want = [(F("yes" if free else "no"),)]
    else:
        want = ([(F("yes"), V("A"), V("B"))] if free else []) + [(F("no"), V("A"), V("B"))]
    stats.validated += 1
    if [ref.canon(x) for x in got] != [ref.canon(x) for x in want]:
        return "%s\nobserved %r, expected %r" % (text, got, want)
    return None


def run_csv(rows, stats):
    import os
    import shutil
    d = harness.scratch()
    here = os.getcwd()
    seen = []

    def extra(actions, trace):
        @actions.add(".peek", 0)
        def _peek(agent, term, intention):
            out = {}
            for n in ("x", "y"):
                p = os.path.join(d, n + ".csv")
                out[n] = open(p, encoding="utf-8").read() if os.path.exists(p) else None
            seen.append(out)
            yield
    texts = {"x": "", "y": ""}
    for i, k in enumerate(rows):
        who, args = ROWS[k]
        call = ".csv(%s)" % ", ".join(map(ref.text, args)) if args else ".csv"
        texts[who] += "+!s(%d) <- X = g(2); X = g(Y); .csv_; .peek.\n".replace(".csv_", call.replace("X", "Y")) % i
    # One agent tells the other when it is its turn.
    turns = "".join("+!turn(%d) <- !s(%d); .send(%s, achieve, turn(%d)).\n" % (i, i, ROWS[rows[i + 1]][0], i + 1) if i + 1 < len(rows) else "+!turn(%d) <- !s(%d).\n" % (i, i) for i in range(len(rows)))
    progs = [(n, ("!turn(0).\n" if n == ROWS[rows[0]][0] else "") + texts[n] + turns) for n in ("x", "y")]
    try:
        os.chdir(d)
        run = impl.Run(progs, extra=extra)
        stats.step(run.drive_faults())
    finally:
        os.chdir(here)
        shutil.rmtree(d)
    want = []
    have = {"x": None, "y": None}
    for k in rows:
        who, args = ROWS[k]
        have[who] = (have[who] or "") + ",".join(render(ref.resolve(ref.evaluate(a, {X: N(2)}), {X: N(2)})) for a in args) + "\n"
        want.append(dict(have))
    stats.state(("csv", rows))
    stats.validated += 1
    if run.trace or seen != want:
        return "%r\nleave the files %r, expected %r %r" % (progs, seen, want, run.trace)
    return None


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.stdlib


SUITES = {"shapes": (gen_shapes, run_shapes), "again": (gen_again, run_again), "functions": (gen_functions, run_functions), "strings": (gen_strings, run_strings), "enumerators": (gen_enumerators, run_enumerators), "types": (gen_types, run_types), "print": (gen_print, run_print), "unbound": (gen_unbound, run_unbound), "world": (gen_world, run_world), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
