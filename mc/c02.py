"""C02: annotated literals match iff their annotations can be paired consistently."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C02"
RULE = ("matching: every pair of literals with up to three annotations a side from the alphabet, every earlier binding, "
        "each under several renamings of the atoms so that annotation sets are iterated in different orders; "
        "equals: every pair of annotation lists on both sides of `=` between literals written out, bound to variables, inside of arguments or read from beliefs, in six places of programs; programs: belief queries, removals, plan heads and waiters with annotations in agent programs. "
        "A state is a distinct (left, right, bindings, renaming) or program; a transition is one match offered by the implementation")
ASSUMPTIONS = ["annotations that become equal through earlier bindings are excluded",
               "at most three annotations on each side; a bare variable is not an annotation on both sides",
               "bare booleans and numbers are not annotations of the same literal (see known findings of C20)"]

X, Y, Z = V("X"), V("Y"), V("Z")
VARS = (X, Y, Z, V("U"))
a, b, c = F("a"), F("b"), F("c")


def s(*t):
    return F("s", *t)


LEFT = [a, b, X, Y, s(a), s(X), s(Y), s(X, Y), F("s", X, annots=(Y,)), N(1), W, L(X), s(W), s(N(1))]
RIGHT = [a, b, s(a), s(b), s(a, b), F("s", a, annots=(b,)), N(1), S("a"), L(N(1)), V("U"), s(Z), S("1"), F("t", a), s(B(True))]
PRIORS = [{}, {X: a}, {X: Y}, {Y: F("s", Z)}, {X: b, Y: N(1)}, {X: F("s", a, annots=(b,)), Y: F("s", W, annots=(W,))}]
# Order of annotation sets depends on hashes: rename atoms to vary it.
NAMES = ["abcst", "tsbac", "kmwzq", "qxkbn", "uvjyo", "cabts"]


def subsets(items, n):
    for k in range(n + 1):
        for x in itertools.combinations(items, k):
            yield x


def lefts(tier):
    for x in subsets(LEFT, 2):
        yield x
    three = [a, X, s(X), s(Y), s(X, Y)] if tier != "thorough" else LEFT
    for x in itertools.combinations(three, 3):
        yield x


def rights(tier):
    for x in subsets(RIGHT, 2):
        yield x
    three = [a, b, s(a), s(b), s(a, b), N(1)] if tier != "thorough" else RIGHT[:11]
    for x in itertools.combinations(three, 3):
        yield x


ARGS = [((), ()), ((X,), (a,)), ((a,), (X,)), ((X, Y), (Y, a)), ((X,), (b,))]


def gen_match(tier):
    for p in range(len(PRIORS)):
        for x in range(len(ARGS)):
            for l in lefts(tier):
                if (p and x) and tier != "thorough" and len(l) > 1:
                    continue
                yield [tier, l, x, p]


def setup():
    global impl, agentspeak, collections
    import impl
    import agentspeak
    import collections


def renamed(t, k):
    if t[0] == "f":
        f = NAMES[k]["abcst".index(t[1])] if t[1] in "abcst" else t[1]
        return ("f", f, tuple(renamed(x, k) for x in t[2]), tuple(renamed(x, k) for x in t[3]))
    if t[0] == "l":
        return ("l", tuple(renamed(x, k) for x in t[1]))
    return t


_names = {}
_cache = {}


def impl_term(t):
    if not _names:
        for v in VARS:
            _names[v] = agentspeak.Var()
    if t not in _cache:
        _cache[t] = impl.from_ref(t, _names)
    return _cache[t]


def collapses(annots, prior):
    r = [ref.resolve(x, prior) for x in annots]
    return len(set(r)) != len(r)


def run_match(case, stats):
    tier, left, x, p = case
    left = ref.tup(left)
    prior = PRIORS[p]
    largs, rargs = ARGS[x]
    if collapses(left, prior):
        return None
    for right in rights(tier):
        if collapses(right, prior):
            continue
        for k in range(len(NAMES)):
            msg = match(renamed(F("p", *largs, annots=left), k), renamed(F("p", *rargs, annots=right), k),
                        dict((v, renamed(t, k)) for v, t in prior.items()), stats, right)
            if msg:
                return msg
            if k and len(left) < 2 and len(right) < 2:
                break
        stats.validated += 1
    return None


def match(l, r, prior, stats, key):
    try:
        expected = set()
        for m in ref.match_annotated(l, r, prior):
            expected.add(ref.canon([ref.resolve(v, m) for v in VARS]))
    except ref.Cyclic:
        stats.count("infinite_term_excluded")
        return None
    left, right = impl_term(l), impl_term(r)
    scope = dict((_names[v], impl_term(t)) for v, t in prior.items())
    before = dict(scope)
    stack = collections.deque(scope)
    got = set()
    n = 0
    for _ in agentspeak.unify_annotated(left, right, scope, stack):
        names = {}
        got.add(ref.canon([impl.deep(_names[v], scope, names) for v in VARS]))
        n += 1
        stats.step()
        if n > 200:
            return "matching %s with %s does not end" % (ref.text(l), ref.text(r))
    what = "matching %s with %s under %s" % (ref.text(l), ref.text(r), prior)
    if got != expected:
        return "%s: offers %s, expected %s" % (what, sorted(got, key=repr), sorted(expected, key=repr))
    if scope != before or len(stack) != len(before):
        return "%s: bindings left behind: %s" % (what, scope)
    if bool(agentspeak.unifies_annotated(left, right, dict(before), collections.deque())) != bool(expected):
        return "%s: unifies_annotated is wrong" % what
    stats.state((l, r, repr(prior)))
    return None


# ---- programs

PB = [(), (a,), (a, b), (s(a), s(b)), (s(a), s(b), a), (s(a), s(b, a)), (F("s", a, annots=(b,)),), (N(1), s(a))]
PQ = [(), (a,), (X,), (s(X),), (s(X), s(Y)), (X, Y), (s(X), a), (F("s", X, annots=(Y,)),), (s(X), s(X, Y)), (s(X), s(Y, X)),
      (b, a), (N(1),), (s(X), Y)]


def gen_programs(tier):
    for q in range(len(PQ)):
        for i in range(len(PB)):
            for kind in ("for", "context", "remove", "test", "head", "rule", "abolish", "findall"):
                for j in range(len(PB)):
                    if tier == "thorough" or (i + j) % 3 == 0 or i == j:
                        yield [kind, q, i, j]


def emit(*t):
    return ("q", ("act", ".emit", tuple(t)))


def run_program(case, stats):
    kind, q, i, j = case
    beliefs = (F("p", N(0), annots=PB[i]), F("p", N(1), annots=PB[j]))
    pattern = F("p", Z, annots=PQ[q])
    rules, goals = (), (F("go"),)
    plans = ()
    head = F("go")
    if kind == "for":
        body = (("for", ("lit", pattern), (emit(X, Y, Z),)), emit(X, Y, Z))
        ctx = None
    elif kind == "context":
        ctx = ("lit", pattern)
        body = (emit(X, Y, Z),)
        plans = ((None, "+!", F("go"), None, (emit(S("none")),)),)
    elif kind == "remove":
        ctx = None
        body = (("-", pattern), emit(X, Y, Z), ("-", F("p", W, annots=PQ[q])), emit(X, Y, Z))
    elif kind == "test":
        ctx = None
        body = (("?", pattern), emit(X, Y, Z))
    elif kind == "findall":
        ctx = None
        body = (("q", ("act", ".findall", (L(X, Y, Z), pattern, V("R")))), emit(V("R"), X, Y, Z))
    elif kind == "abolish":
        ctx = None
        body = (("q", ("act", ".abolish", (pattern,))), emit(X, Y, Z))
    elif kind == "head":
        # The plan head is annotated, the goal is annotated.
        ctx = None
        goals = (F("p", N(0), annots=PB[i]), F("p", N(1), annots=PB[j]))
        head = pattern
        beliefs = ()
        body = (emit(X, Y, Z),)
        plans = ((None, "+!", F("p", Z), None, (emit(S("other"), Z),)),)
    elif kind == "rule":
        rules = ((F("r", X, Y, Z), ("lit", pattern)),)
        ctx = None
        body = (("for", ("lit", F("r", X, Y, Z)), (emit(X, Y, Z),)),)
    plan = (None, "+!", head, ctx, body)
    return impl.conform([("ag", (beliefs, rules, goals, (plan,) + plans))], stats)


# ---- annotations inside of arguments, and beliefs that differ in annotations only

BARGS = [a, F("a", annots=(b,)), s(a), s(F("a", annots=(b,))), F("s", a, annots=(b,)), F("a", annots=(b, c)), L(a), L(F("a", annots=(b,)))]
QARGS = [a, X, W, F("a", annots=(b,)), F("a", annots=(c,)), F("a", annots=(Y,)), s(X), s(a), F("s", X, annots=(Y,)), s(F("a", annots=(c,))), L(a), L(X), C(a, X)]
KINDS = ("for", "context", "remove", "test", "head", "rule", "abolish", "findall", "count", "not")


def gen_inside(tier):
    for kind in KINDS:
        for q in range(len(QARGS)):
            for ann in range(3):
                for i in range(len(BARGS)):
                    for j in range(-1, i):
                        if j < 1 or (i + j + q) % 3 == 0 or tier == "thorough":
                            yield [kind, q, ann, i, j]


def run_inside(case, stats):
    kind, q, ann, i, j = case
    annots = ((), (a,), (X,))[ann]
    beliefs = (F("p", BARGS[i]), F("p", BARGS[i], annots=(a,))) + ((F("p", BARGS[j], annots=(b, a)),) if j >= 0 else ())
    return about(kind, beliefs, F("p", QARGS[q], annots=annots), stats)


def gen_same(tier):
    for kind in KINDS:
        for q in range(len(PQ)):
            for arg in range(3):
                for some in itertools.combinations(range(len(PB)), 3 if tier == "thorough" else 2):
                    yield [kind, q, arg, some]
                if tier != "thorough":
                    yield [kind, q, arg, [0, 1, 2]]
                    yield [kind, q, arg, [0, 3, 6]]


def run_same(case, stats):
    kind, q, arg, some = case
    return about(kind, tuple(F("p", N(0), annots=PB[i]) for i in some), F("p", (N(0), Z, ("o", "-", N(1), N(1)))[arg], annots=PQ[q]), stats)


def about(kind, beliefs, pattern, stats):
    rules, goals, plans, head, ctx = (), (F("go"),), (), F("go"), None
    tail = (emit(X, Y, Z),)
    if kind == "for":
        body = (("for", ("lit", pattern), tail),) + tail
    elif kind == "context":
        ctx = ("lit", pattern)
        body = tail
        plans = ((None, "+!", F("go"), None, (emit(S("none")),)),)
    elif kind == "remove":
        body = (("-", pattern),) + tail + (("-", pattern),) + tail + (("-", pattern),) + tail
    elif kind == "test":
        body = (("?", pattern),) + tail
    elif kind == "findall":
        body = (("q", ("act", ".findall", (L(X, Y, Z), pattern, V("R")))), emit(V("R"), X, Y, Z))
    elif kind == "count":
        body = (("q", ("act", ".count", (pattern, V("R")))), emit(V("R"), X, Y, Z))
    elif kind == "not":
        body = (("if", ("not", ("lit", pattern)), (emit(S("no")),), (emit(S("yes")),)),) + tail
    elif kind == "abolish":
        body = (("q", ("act", ".abolish", (pattern,))),) + tail
    elif kind == "head":
        if any(x[0] == "o" for x in pattern[2]):
            return None
        goals, beliefs, head, body = beliefs, (), pattern, tail
        plans = ((None, "+!", F("p", Z), None, (emit(S("other"), Z),)),)
    else:
        rules = ((F("r", X, Y, Z), ("lit", pattern)),)
        body = (("for", ("lit", F("r", X, Y, Z)), tail),)
    return impl.conform([("ag", (beliefs, rules, goals, ((None, "+!", head, ctx, body),) + plans))], stats)


# ---- `=` between annotated literals

EL = [(), (a,), (X,), (s(X),), (X, Y), (s(X), Y), (s(X), a), (b, a), (F("s", X, annots=(Y,)),), (N(1),)]
ER = [(), (a,), (a, b), (s(a), s(b)), (s(a), b), (Z,), (F("s", a, annots=(b,)),), (N(1), s(a)), (s(Z), a)]
EWAYS = ("direct", "left", "right", "both", "inside", "fact")
EPLACES = ("if", "for", "context", "rule", "not", "and")


def gen_equals(tier):
    for place in EPLACES:
        for way in EWAYS:
            for l in range(len(EL)):
                for r in range(len(ER)):
                    if tier == "thorough" or way == "direct" or (l + r) % 2 == 0:
                        yield [place, way, l, r]


def run_equals(case, stats):
    place, way, l, r = case
    P, Q = V("P"), V("Q")
    left, right = F("p", X, annots=EL[l]), F("p", a, annots=ER[r])
    before, beliefs = [], ()
    if way in ("left", "both"):
        # `P = p(..)[..]` binds P to the literal.
        before.append(("uni", P, left))
    if way in ("right", "both"):
        before.append(("uni", Q, right))
    q = ("uni", P if way in ("left", "both") else left, Q if way in ("right", "both") else right)
    if way == "inside":
        q = ("uni", F("g", left), F("g", right))
    elif way == "fact":
        beliefs = (F("w", F("p", a, annots=tuple(x for x in ER[r] if x not in (Z, s(Z))))),)
        before.append(("lit", F("w", Q)))
        q = ("uni", left, Q)
    for x in reversed(before):
        q = ("and", x, q)
    seen = (emit(X, Y, Z),)
    rules, ctx, plans = (), None, ()
    if place == "if":
        body = (("if", q, seen, (emit(S("no")),)),) + seen
    elif place == "for":
        body = (("for", q, seen),) + seen
    elif place == "context":
        ctx, body = q, seen
        plans = ((None, "+!", F("go"), None, (emit(S("none")),)),)
    elif place == "rule":
        rules = ((F("r", X, Y, Z), q),)
        body = (("for", ("lit", F("r", X, Y, Z)), seen),)
    elif place == "not":
        body = (("if", ("not", q), (emit(S("no")),), (emit(S("yes")),)),) + seen
    else:
        # Backtracks into the matches of `=`.
        beliefs += (F("k", b), F("k", a))
        body = (("for", ("and", q, ("lit", F("k", Y))), seen),) + seen
    return impl.conform([("ag", (beliefs, rules, (F("go"),), ((None, "+!", F("go"), ctx, body),) + plans))], stats)


SUITES = {"equals": (gen_equals, run_equals), "inside": (gen_inside, run_inside), "same": (gen_same, run_same), "matching": (gen_match, run_match), "programs": (gen_programs, run_program), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
