"""C01: unification succeeds exactly when it can, with a most general result, and can be undone."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C01"
RULE = ("pairs: every ordered pair from an enumerated set of terms under every earlier binding of a set; "
        "histories: every sequence of unification attempts and undos up to the bound, as a state machine over bindings. "
        "A state is a distinct (terms, earlier bindings) or a distinct history; a transition is one unification or undo "
        "performed on the implementation and compared with the model")
ASSUMPTIONS = ["pairs whose only solution is an infinite term are excluded",
               "terms up to nesting depth 3 over 3 variables"]

X, Y, Z = V("X"), V("Y"), V("Z")
VARS = (X, Y, Z)
a, b = F("a"), F("b")


def terms(tier):
    base0 = [a, b, N(1), N(0), N(2.5), S("a"), S("1"), S(""), B(True), B(False), X, Y, Z, W, L()]
    inner = [a, N(1), X, Y, Z]
    out = list(base0)
    out += [F("f", t) for t in inner + [W, B(True), L(), b]]
    out += [F("g", t, u) for t in inner for u in inner]
    out += [L(t) for t in inner + [B(True), S("a")]]
    out += [L(t, u) for t in inner[1:] for u in inner[1:]]
    out += [C(t, u) for t in (N(1), X, Y, W) for u in (X, Y, Z)]
    out += [C(t, L(N(1))) for t in (X, a)]
    out += [("o", "+", N(1), N(0)), ("o", "-", N(2), N(1)), ("u", "-", N(0)), F("f", ("o", "*", N(1), N(1))),
            L(("o", "-", N(1), N(1)), X)]
    mid = [F("f", X), F("f", a), F("g", X, Y), L(X), L(N(1), Y), C(X, Y), L()]
    out += [F("f", t) for t in mid]
    out += [L(t) for t in mid]
    out += [F("g", t, u) for t in (F("f", X), F("f", Y), L(X), C(X, Y)) for u in (X, Y, F("f", X), F("f", Y), L(Y, X), C(Y, Z))]
    out += [L(X, Y, Z), L(N(1), X, N(1)), C(X, C(Y, Z)), C(X, C(X, Y)), L(X, X, X), L(a, b, L(a)),
            C(N(1), C(N(1), C(N(1), X))), F("f", F("f", F("f", X))), F("f", F("f", F("f", a))),
            F("h", X, Y, Z), F("h", Y, Z, X), F("h", X, X, a), F("h", a, X, X), F("h", N(1), B(True), S("1")),
            N(0.3), ("o", "+", N(0.1), N(0.2)), N(1.0000000001), N(1e15), N(1e15 + 1), ("u", "-", N(1)), S(" a"), S("A"), F("aa"),
            F("h", L(X, Y), C(X, Z), Z), F("f", a, b), F("f", ), F("g", X), F("h", F("g", X, Y), F("g", Y, X), X)]
    if tier == "thorough":
        out += [F("h", t, u, v) for t in VARS + (a,) for u in VARS + (a,) for v in VARS + (a,)]
        out += [L(t, u, v) for t in VARS + (N(1),) for u in VARS + (N(1),) for v in VARS + (N(1),)]
        out += [C(t, C(u, v)) for t in (X, Y, a) for u in (X, Z, a) for v in VARS]
        out += [F("f", F("g", t, u)) for t in mid for u in mid]
        out += [F("g", t, L(u, u)) for t in mid for u in mid]
    seen = []
    s = set()
    for t in out:
        if t not in s:
            s.add(t)
            seen.append(t)
    return seen


PRIORS = [
    {}, {X: a}, {X: Y}, {Y: X}, {X: F("f", Y)}, {X: L(N(1), Y)}, {X: C(Y, Z)}, {X: Y, Y: Z}, {Z: N(1), X: F("g", Y, Z)},
    {X: Y, Y: N(1)}, {Y: L()}, {Y: B(True), Z: N(1)}, {X: C(N(1), Y), Y: C(N(1), Z)}, {Z: F("f", X), X: L(Y)},
]

_terms = {}


def pool(tier):
    if tier not in _terms:
        _terms[tier] = terms(tier)
    return _terms[tier]


def gen_pairs(tier):
    for t in pool(tier):
        for p in range(len(PRIORS)):
            yield [tier, t, p]


def solved(s, names, impl, scope):
    """The value of all variables, renamed: equal for two most general solutions."""
    seen = {}
    return ref.canon([ref.resolve(v, s) for v in VARS]), ref.canon(
        [impl.deep(names[v], scope, seen) for v in VARS])


def setup():
    global impl, agentspeak, collections
    import impl
    import agentspeak
    import collections


_names = {}
_impl_terms = {}


def impl_term(t):
    if not _names:
        for v in VARS:
            _names[v] = agentspeak.Var()
    if t not in _impl_terms:
        _impl_terms[t] = impl.from_ref(t, _names)
    return _impl_terms[t]


def show(scope):
    return {str(v[1]): impl.to_ref(scope[_names[v]], dict((_names[w], w) for w in VARS)) for v in VARS if _names[v] in scope}


def improper(t):
    return t[0] == "c" or t[0] in "fl" and any(map(improper, t[-1 if t[0] == "l" else 2]))


def check_unify(left, right, prior, stats):
    l, r = impl_term(left), impl_term(right)
    scope = dict((_names[v], impl_term(t)) for v, t in prior.items())
    before = dict(scope)
    older = object()
    choicepoint = object()
    stack = collections.deque([older] + list(scope) + [choicepoint])
    depth = len(stack)
    try:
        expected = ref.unify(left, right, dict(prior))
        if expected is not None:
            [ref.resolve(v, expected) for v in VARS]
    except ref.Cyclic:
        stats.count("infinite_term_excluded")
        return None
    got = agentspeak.unify(l, r, scope, stack)
    stats.step()
    if bool(got) != (expected is not None):
        return "unify(%s, %s) under %s: %s" % (ref.text(left), ref.text(right), prior,
                                               "succeeds but should fail" if got else "fails but should succeed")
    for v, t in before.items():
        if v not in scope or scope[v] is not t:
            return "unify(%s, %s) under %s changed an earlier binding" % (ref.text(left), ref.text(right), prior)
    if got:
        m, i = solved(expected, _names, impl, scope)
        if m != i:
            return "unify(%s, %s) under %s gives %s, most general is %s" % (
                ref.text(left), ref.text(right), prior, i, m)
        if ref.is_ground(ref.resolve(left, expected)) and ref.is_ground(ref.resolve(right, expected)) \
                and not improper(ref.resolve(left, expected)):
            x, y = agentspeak.grounded(l, scope), agentspeak.grounded(r, scope)
            if not agentspeak.BinaryOp.op_eq.value.func(x, y):
                return "unify(%s, %s): the results are not the same term: %r, %r" % (ref.text(left), ref.text(right), x, y)
    agentspeak.reroll(scope, stack, choicepoint)
    if scope != before or len(stack) != depth - 1 or any(scope[v] is not before[v] for v in scope):
        return "undoing unify(%s, %s) under %s leaves %s" % (ref.text(left), ref.text(right), prior, show(scope))
    if not prior and bool(agentspeak.unifies(l, r)) != (expected is not None):
        return "unifies(%s, %s) is wrong" % (ref.text(left), ref.text(right))
    stats.validated += 1
    return None


def run_pairs(case, stats):
    tier, left, p = case
    left = ref.tup(left)
    prior = PRIORS[p]
    for right in pool(tier):
        for x, y in ((left, right), (right, left)):
            msg = check_unify(x, y, prior, stats)
            if msg:
                return msg
        stats.state((left, right, p))
    return None


# ---- histories: attempts and undos as a state machine

ATTEMPTS = [
    (X, Y), (Y, F("f", Z)), (Z, N(1)), (F("g", X, Z), F("g", F("f", N(1)), Y)), (C(X, Y), L(N(1), N(2))),
    (X, F("f", N(2))), (F("h", X, Y, a), F("h", Y, Z, X)), (Z, C(X, Y)), (F("f", Z), F("f", W)), (X, B(True)),
]


def gen_histories(tier):
    # The last two moves are enumerated inside the case.
    n = len(ATTEMPTS) + 1
    for k in range(1, (4 if tier == "thorough" else 3) + 1):
        for h in itertools.product(range(n), repeat=k):
            yield list(h)


def run_history(case, stats):
    n = len(ATTEMPTS) + 1
    for tail in itertools.product(range(n), repeat=2):
        msg = history(tuple(case) + tail, stats)
        if msg:
            return msg
    return None


def history(h, stats):
    impl_term(X)
    scope = {}
    stack = collections.deque()
    trail = []          # (choicepoint, model substitution before)
    s = {}
    for op in h:
        if op == len(ATTEMPTS):
            if not trail:
                return None
            choicepoint, s = trail.pop()
            agentspeak.reroll(scope, stack, choicepoint)
        else:
            left, right = ATTEMPTS[op]
            try:
                r = ref.unify(left, right, s)
                if r is not None:
                    [ref.resolve(v, r) for v in VARS]
            except ref.Cyclic:
                return None
            choicepoint = object()
            stack.append(choicepoint)
            got = agentspeak.unify(impl_term(left), impl_term(right), scope, stack)
            if bool(got) != (r is not None):
                return "history %s: unify(%s, %s) %s" % (h, ref.text(left), ref.text(right), "succeeds" if got else "fails")
            if r is None:
                agentspeak.reroll(scope, stack, choicepoint)
            else:
                trail.append((choicepoint, s))
                s = r
        stats.step()
        m, i = solved(s, _names, impl, scope)
        if m != i:
            return "history %s: bindings %s, expected %s" % (h, i, m)
    stats.state(h)
    stats.validated += 1
    while trail:
        choicepoint, s = trail.pop()
        agentspeak.reroll(scope, stack, choicepoint)
        m, i = solved(s, _names, impl, scope)
        if m != i:
            return "history %s then undo: bindings %s, expected %s" % (h, i, m)
    if scope or stack:
        return "history %s: after undoing everything %s is left" % (h, show(scope))
    return None


SUITES = {"pairs": (gen_pairs, run_pairs), "histories": (gen_histories, run_history), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
