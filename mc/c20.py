"""C20: equality, hashing, ordering and copying of terms are consistent."""
import harness
if __name__ == "__main__":
    harness.reexec()
import collections
import itertools
import sys
from ref import N, S, B, V, W, F, L, C
import ref
import scale

PROPERTY = "C20"
RULE = ("equality: every pair of ground terms up to depth three over numbers, booleans, strings, atoms, structures, lists and annotations, each in every representation (integers or "
        "fractions, lists built at once or element by element, annotations in any order); order: every pair, triple and arrangement of three terms of the same shape; shapes: every pair of terms of any shape; programs: the "
        "same pairs compared, sorted and believed by programs; annotations: pairs of terms with booleans and numbers as annotations; copies: every small term with three variables, "
        "expressions and wildcards under every acyclic binding of the variables; a state is a distinct (term, representation) or (term, binding), a transition an operation on terms")
DESIGN = ("terms of the model are compared structurally, with booleans and numbers apart, annotations as sets and lists as sequences; every pair must compare, hash and order like its "
          "model terms, and the laws of equivalence and order are checked on the results themselves; copies are resolved by the model")
ASSUMPTIONS = ["not judged: which of two terms of different shape, booleans or annotated terms is the smaller one (only that an order of them, if it is no error, does not contradict itself); Python's own equality between two raw tuples or numbers with "
               "booleans (judged as compared by programs)"]

X, Y, Z = V("X"), V("Y"), V("Z")


# ---- ground terms

LEAVES = [N(0), N(1), N(2.5), N(-1), B(True), B(False), S(""), S("a"), S("1"), S("true"), F("a"), F("b"), L()]


def terms(tier):
    out = list(LEAVES)
    small = [N(0), N(1), B(True), B(False), S("a"), F("a"), L()]
    for x in [F("b"), S("a"), N(2), B(True), F("f", N(1))]:
        # Lists that end in something else.
        out += [C(N(1), x), C(N(1), C(N(2), x)), F("f", C(L(), x))]
    for x in LEAVES:
        out += [F("f", x), L(x), F("f", F("f", x)), L(L(x)), F("f", L(x)), L(F("f", x)), F("f", x, N(1)), F("f", N(1), x), L(x, N(1)), L(N(1), x)]
    for x, y in itertools.product(small, repeat=2):
        out += [F("g", x, y), L(x, y)]
    out += [F("g", x) for x in small] + [F("a", x) for x in small]
    marks = [N(1), N(0), S("1"), S("a"), F("a"), F("b"), F("f", N(1)), F("f", B(True)), F("f", L(N(1))), L(N(2)), L(F("a")), F("a", annots=(F("b"),)), L()]
    for m in marks:
        out += [F("a", annots=(m,)), F("f", N(1), annots=(m,)), L(F("a", annots=(m,))), F("f", F("a", annots=(m,)))]
    for x, y in itertools.combinations(marks, 2):
        out.append(F("a", annots=(x, y)))
    out += [F("a", annots=(F("a"), F("b"), N(1))), F("f", L(L(N(1), N(2)), L())), L(N(1), N(2), N(3)), L(F("f", L(B(True))), S("a")), L(N(1), L(N(2), L(N(3), L())))]
    if tier == "thorough":
        base = list(out)
        for x in base:
            out += [F("f", x), L(x), L(N(1), x), F("g", x, F("a")), F("g", F("a"), x), L(x, x)]
        for x, y, z in itertools.product(small, repeat=3):
            out += [L(x, y, z), F("g", x, L(y, z)), F("g", F("f", x), y, z)]
    seen = set()
    for t in out:
        t = ref.resolve(t, {})
        if t not in seen:
            seen.add(t)
            yield t


STYLES = 4


def build(t, style):
    """Representations: 0 floats and tuples, 1 integers and linked lists, 2 mixed, annotations reversed, 3 integers, lists with a linked start."""
    k = t[0]
    if k == "n":
        return int(t[1]) if style in (1, 3) and t[1] == int(t[1]) else t[1]
    if k in "sb":
        return t[1]
    if k == "f":
        annots = [build(x, style) for x in t[3]]
        return agentspeak.Literal(t[1], [build(x, style) for x in t[2]], annots if style in (0, 3) else annots[::-1])
    if k == "c":
        return agentspeak.LinkedList(build(t[1], style), build(t[2], style))
    items = [build(x, style) for x in t[1]]
    if style == 0 or not items:
        return tuple(items)
    if style == 1:
        out = ()
        for x in reversed(items):
            out = agentspeak.LinkedList(x, out)
        return out
    return agentspeak.LinkedList(items[0], tuple(items[1:]))


def differ(t, style):
    """Whether a representation is a different one."""
    s = repr(t)
    return style == 0 or "('n'" in s or "('l', ((" in s or t[0] == "f" and len(t[3]) > 1


_ALL = {}


def all_built(tier):
    if tier not in _ALL:
        _ALL[tier] = [(t, k, build(t, k)) for t in terms(tier) for k in range(STYLES) if differ(t, k)]
    return _ALL[tier]


def raw(x):
    """Compared by Python itself."""
    return isinstance(x, (int, float, str, tuple))


def has_bool(t):
    return "('b'" in repr(t)


def gen_equality(tier):
    for t in terms(tier):
        for k in range(STYLES):
            if differ(t, k):
                yield [t, k, tier]


def run_equality(case, stats):
    t, k, tier = case
    t = ref.tup(t)
    x = build(t, k)
    hx = hash(x)
    stats.state((t, k))
    for u, j, y in all_built(tier):
        if raw(x) and raw(y) and (has_bool(t) or has_bool(u)):
            continue
        want = t == u
        stats.step()
        if bool(x == y) is not want or bool(y == x) is not want:
            return "%r == %r is %r, and the other way round %r" % (x, y, x == y, y == x)
        if bool(x != y) is want or bool(y != x) is want:
            return "%r != %r is %r, and the other way round %r" % (x, y, x != y, y != x)
        if want:
            if hx != hash(y):
                return "%r and %r are equal but have different hashes" % (x, y)
            if len({x, y}) != 1:
                return "%r and %r are equal but different elements of a set" % (x, y)
        elif len({x, y}) != 2:
            return "%r and %r are the same element of a set" % (x, y)
        if isinstance(y, agentspeak.Literal) and not y.annots and hash(y) != hash(agentspeak.Literal(y.functor, y.args)):
            return "hash of %r changes" % (y,)
    stats.validated += 1
    return None


# ---- order

def shape(t):
    if t[0] == "f" and not t[2]:
        return "atom"
    if t[0] == "f":
        return ("f", t[1]) + tuple(map(shape, t[2]))
    if t[0] == "l":
        return ("l",) + tuple(map(shape, t[1]))
    return t[0]


def groups(tier):
    base = {"n": [N(0), N(1), N(2.5), N(-1), N(10)], "s": [S(""), S("a"), S("B"), S("ab"), S("1"), S("\u00e9")], "atom": [F("a"), F("b"), F("ab"), F("aB")]}
    out = [base["n"], base["s"], base["atom"]]
    kinds = sorted(base)
    for k in kinds:
        out += [[F("f", x) for x in base[k]], [L(x) for x in base[k]], [F("f", L(x)) for x in base[k]], [L(F("f", x)) for x in base[k]], [L(L(x)) for x in base[k]]]
    for k, m in itertools.product(kinds, repeat=2):
        n = 3 if tier == "quick" else 4
        out += [[F("f", x, y) for x in base[k][:n] for y in base[m][:n]], [L(x, y) for x in base[k][:n] for y in base[m][:n]]]
    for k in kinds:
        out.append([L(x, L(y, z)) for x in base[k][:2] for y in base["n"][:2] for z in base[k][:2]])
        out.append([F("f", x, F("g", y), L(z)) for x in base[k][:2] for y in base[k][:2] for z in base["s"][:2]])
    return out


def gen_order(tier):
    for i, g in enumerate(groups(tier)):
        for t in g:
            yield [g, t]


def run_order(case, stats):
    g, t = ref.tup(case)
    built = [(u, build(u, k)) for u in g for k in range(STYLES) if differ(u, k)]
    stats.state(t)
    for k in range(STYLES):
        if not differ(t, k):
            continue
        x = build(t, k)
        smaller = {}
        for u, y in built:
            stats.step()
            got = (bool(x < y), bool(x == y), bool(x > y), bool(x <= y), bool(x >= y), bool(y < x), bool(y > x), bool(y <= x), bool(y >= x))
            lt, gt = ref.less(t, u), ref.less(u, t)
            want = (lt, t == u, gt, not gt, not lt, gt, lt, not lt, not gt)
            if got != want:
                return "%r against %r: (<, ==, >, <=, >=) and the other way round is %r instead of %r" % (x, y, got, want)
            smaller[id(y)] = got[0]
        # Laws on the results themselves.
        for (u, y), (v, z) in itertools.product(built, repeat=2):
            stats.step()
            if smaller[id(y)] and y < z and not x < z:
                return "%r < %r < %r, but not %r < %r" % (x, y, z, x, z)
            if smaller[id(y)] and y == z and not x < z:
                return "%r < %r == %r, but not %r < %r" % (x, y, z, x, z)
    # Sorting.
    others = [u for u in g if u != t][:4 if len(g) > 6 else 6]
    for pair in itertools.combinations(others, 2):
        results = set()
        for p in itertools.permutations((t,) + pair):
            for k in range(STYLES):
                results.add(tuple(impl.to_ref(y) for y in sorted(build(u, k) for u in p)))
                stats.step()
        if len(results) != 1:
            return "sorting %r has %d results: %r" % ((t,) + pair, len(results), results)
    stats.validated += 1
    return None


# ---- terms of different shape

def attempt(f):
    try:
        return bool(f())
    except (TypeError, agentspeak.AslError):
        return None


def gen_shapes(tier):
    for t in terms("quick"):
        for k in range(STYLES):
            if differ(t, k):
                yield [t, k]


def run_shapes(case, stats):
    """An order of any two terms is an error or one that cannot be contradicted."""
    t, k = ref.tup(case)
    x = build(t, k)
    stats.state((t, k))
    for u, j, y in all_built("quick"):
        stats.step()
        lt, gt, le, ge = attempt(lambda: x < y), attempt(lambda: x > y), attempt(lambda: x <= y), attempt(lambda: x >= y)
        tl, tg = attempt(lambda: y < x), attempt(lambda: y > x)
        if lt and gt or lt and tl or gt and tg:
            return "%r is both less and greater than %r" % (x, y)
        if t == u and (lt or gt):
            return "%r is not only equal to %r but less or greater" % (x, y)
        if lt and (tg is False or le is False or ge) or gt and (tl is False or ge is False or le):
            return "%r against %r: <, >, <=, >= is %r" % (x, y, (lt, gt, le, ge))
    stats.validated += 1
    return None


# ---- by programs

def lists_text(t, style):
    """Text with lists built in another way."""
    k = t[0]
    if k == "l" and t[1]:
        if style == 1:
            return "[%s|%s]" % (lists_text(t[1][0], 1), lists_text(("l", t[1][1:]), 1))
        if style == 2 and len(t[1]) > 1:
            return "[%s|%s]" % (lists_text(t[1][0], 2), lists_text(("l", t[1][1:]), 0))
        return "[%s]" % ", ".join(lists_text(x, style) for x in t[1])
    if k == "f":
        r = t[1]
        if t[2]:
            r += "(%s)" % ", ".join(lists_text(x, style) for x in t[2])
        if t[3]:
            annots = t[3] if style == 0 else t[3][::-1]
            r += "[%s]" % ", ".join(lists_text(x, style) for x in annots)
        return r
    if k == "c":
        return "[%s|%s]" % (lists_text(t[1], style), lists_text(t[2], style))
    if k == "n":
        return "(%s)" % ref.text(t) if t[1] < 0 else ref.text(t)
    return ref.text(t)


def program_terms(tier):
    ts = list(terms("quick"))
    if tier == "quick":
        # All leaves and every third of the others.
        ts = [t for i, t in enumerate(ts) if i < len(LEAVES) or i % 4 == 0]
    return ts


def gen_programs(tier):
    ts = program_terms(tier)
    for t in ts:
        for i in range(0, len(ts), 25):
            yield [t, ts[i:i + 25], len(repr((t, i))) % 3]
        yield [t, [t], 1]
        yield [t, [t], 2]


def run_programs(case, stats):
    t, us, style = ref.tup(case)
    x = lists_text(t, 0)
    body = []
    want = []
    wanted = []
    for i, u in enumerate(us):
        y = lists_text(u, style)
        same = t == u
        body.append("X%d = p(%s); Y%d = p(%s); if (%s == %s) { .emit(%d, eq1) }; if (X%d == Y%d) { .emit(%d, eq2) }; if (%s \\== %s) { .emit(%d, ne1) }; if (Y%d \\== X%d) { .emit(%d, ne2) }"
                    % (i, x, i, y, x, y, i, i, i, i, y, x, i, i, i, i))
        want += [("a", N(i), F(e)) for e in (("eq1", "eq2") if same else ("ne1", "ne2"))]
        body.append("+b(%d, %s); +b(%d, %s); .count(b(%d, _), N%d); .emit(%d, N%d); .findall(Q, b(%d, Q), L%d); .emit(%d, L%d)" % (i, x, i, y, i, i, i, i, i, i, i, i))
        want.append(("a", N(i), N(1 if same else 2)))
        want.append(("a", N(i), "list", frozenset([t, u])))
    text = "!go.\n+!go <- %s." % ";\n".join(body)
    run = impl.Run([("a", text)])
    run.drive()
    got = [item if len(item) < 3 or item[2][0] != "l" else (item[0], item[1], "list", frozenset(item[2][1])) for item in run.items()]
    stats.step(len(got))
    stats.state((t, us, style))
    stats.validated += 1
    if run.error or got != want:
        bad = [(a, b) for a, b in itertools.zip_longest(got, want) if a != b][:1]
        return "%s\nerror %r, first difference (observed, expected): %r" % (text, run.error, bad)
    return None


# ---- booleans and numbers as annotations

MIXED = [F("p", annots=a) for a in ((N(1),), (B(True),), (N(1), B(True)), (N(0),), (B(False),), (L(N(1)),), (L(B(True)),), (N(2),), (S("1"),), (F("f", B(True)),), (F("f", N(1)),))]


def gen_annotations(tier):
    for t, u in itertools.combinations_with_replacement(MIXED, 2):
        yield [t, u]


def run_annotations(case, stats):
    t, u = ref.tup(case)
    want = ref.norm_annots(t[3]) == ref.norm_annots(u[3])
    x, y = build(t, 0), build(u, 0)
    stats.step()
    stats.state(case)
    stats.validated += 1
    if (x == y) is not want or (x != y) is want:
        return "%s == %s is %r" % (ref.text(t), ref.text(u), x == y)
    if want and len(x.annots) != len(t[3]):
        return "%s has %d annotations" % (ref.text(t), len(x.annots))
    return None


# ---- copies

VARS = [X, Y, Z]
OPEN = [X, F("f", X), F("f", X, X), F("f", X, Y), F("f", F("g", X), L(Y)), L(X), L(X, Y), L(X, X), C(X, Y), C(N(1), X), C(X, C(Y, Z)), C(X, L(N(2))), F("f", C(X, Y), X), F("a", annots=(X,)),
        F("f", X, annots=(X,)), F("f", X, annots=(Y, F("g", Z))), L(F("f", X), F("g", Y, Z)), F("f", X, Y, Z), F("f", F("f", F("f", X))), F("f", N(1), L()), N(1), S("a"), F("a"), L(),
        ("o", "+", X, N(1)), F("f", ("o", "*", X, Y)), L(("u", "-", X)), C(("o", "+", X, X), Y), F("a", annots=(("o", "-", X, N(1)),)), F("f", W, X), L(W), F("f", ("o", "==", X, Y)),
        F("f", ("o", "+", F("a"), N(1))), C(F("f", X), C(X, L())), F("f", X, F("f", Y, F("f", X, Z))), F("f", B(True), X), L(L(X, L(Y)), X)]
BINDINGS = [None, N(2), N(3.5), S("s"), F("b"), F("g", N(1)), L(), L(N(1), N(2)), "next", "after", F("g", "next"), L("next", "after"), C(N(7), "next"), F("g", "after", "next"), F("b", annots=("next",)),
            ("o", "+", N(1), N(1)), B(True), C("next", "after")]


def close(b, i):
    """Values of variable i refer to the following variables only, so that bindings are acyclic."""
    if b == "next":
        return VARS[(i + 1)] if i < 2 else None
    if b == "after":
        return VARS[2] if i < 1 else None
    if isinstance(b, tuple):
        out = []
        for x in b:
            y = close(x, i) if isinstance(x, tuple) or x in ("next", "after") else x
            if y is None:
                return None
            out.append(y)
        return tuple(out)
    return b


def scopes(tier):
    per = []
    for i in range(3):
        values = []
        for b in BINDINGS:
            if b is None:
                values.append(None)
                continue
            v = close(b, i)
            if v is not None and v not in values:
                values.append(v)
        per.append(values)
    for a, b, c in itertools.product(*per):
        yield [x for x in (a, b, c)]


def gen_copies(tier):
    for i, s in enumerate(scopes(tier)):
        if tier == "quick" and i % 2:
            continue
        yield [s, i]


def sort_annots(t):
    if t[0] == "f":
        return ("f", t[1], tuple(map(sort_annots, t[2])), ref.norm_annots(map(sort_annots, t[3])))
    if t[0] == "l":
        return ("l", tuple(map(sort_annots, t[1])))
    if t[0] == "c":
        return ("c", sort_annots(t[1]), sort_annots(t[2]))
    return t


def resolved(t, s):
    """None if the term has no value."""
    try:
        return ref.resolve(t, s)
    except ref.RefError:
        return None


def inner_vars(t, acc):
    if isinstance(t, agentspeak.Var):
        if not isinstance(t, agentspeak.Wildcard):
            acc.add(t)
    elif isinstance(t, tuple):
        for x in t:
            inner_vars(x, acc)
    elif isinstance(t, agentspeak.LinkedList):
        inner_vars(t.head, acc)
        inner_vars(t.tail, acc)
    elif isinstance(t, agentspeak.Literal):
        for x in t.args:
            inner_vars(x, acc)
        for x in t.annots:
            inner_vars(x, acc)
    elif not isinstance(t, (bool, int, float, str)):
        raise impl.Unknown("%r in a copy" % (t,))
    return acc


def run_copies(case, stats):
    binding, number = case
    binding = [None if b is None else ref.tup(b) for b in binding]
    model = {v: b for v, b in zip(VARS, binding) if b is not None}
    for t in OPEN:
        why = copy_one(t, model, stats)
        if why:
            return "%s under %s: %s" % (ref.text(t), {v[1]: ref.text(b) for v, b in model.items()}, why)
    stats.validated += 1
    return None


def copy_one(t, model, stats):
    names = {}
    stats.state((t, sorted(model.items())))
    stats.step(4)
    originals = [impl.from_ref(v, names) for v in VARS]
    scope = {names[v]: impl.from_ref(b, names) for v, b in model.items()}
    snapshot = dict(scope)
    term = impl.from_ref(t, names)
    whole_model = resolved(F("$", X, Y, Z, t), model)
    value = resolved(t, model)
    whole = agentspeak.Literal("$", originals + [term])
    # A copy on its own, and one that shares its variables with copies of the variables themselves.
    for what in (0, 1):
        memo = {}
        want = whole_model
        try:
            if what:
                copy = agentspeak.freeze(whole, scope, memo)
            else:
                parts = [agentspeak.freeze(x, scope, memo) for x in [term] + originals]
                copy = agentspeak.Literal("$", parts[1:] + parts[:1])
        except agentspeak.AslError:
            copy = None
        if copy is None or want is None:
            if copy is not want:
                return "copy %s, expected %s" % (copy, want)
            continue
        got = sort_annots(ref.canon([impl.to_ref(copy)])[0])
        expected = sort_annots(ref.canon([want])[0])
        if got != expected:
            return "copy is %s, expected %s" % (ref.text(got[2][3]), ref.text(expected[2][3]))
        fresh = inner_vars(copy, set())
        if fresh & set(names.values()):
            return "the copy %s contains variables of the original" % (copy,)
        if scope != snapshot:
            return "copying changed bindings"
        # Binding what was unbound does not reach the copy.
        later = dict(scope)
        for v in names.values():
            later.setdefault(v, "later")
        if ref.canon([impl.deep(copy, later, {})]) != ref.canon([impl.to_ref(copy)]):
            return "the copy %s changes with the original" % (copy,)
        # ... and binding the copy does not reach the original.
        bound = dict(scope)
        stack = collections.deque()
        for v in fresh:
            v.bind("later", bound, stack)
        if resolved(t, model) != resolved_impl(term, bound, names):
            return "the original changes with the copy %s" % (copy,)
    # Grounding.
    try:
        got = impl.to_ref(agentspeak.grounded(term, scope))
    except agentspeak.AslError:
        got = None
    want = value if value is not None and ref.is_ground(value) else None
    if got != want:
        return "grounding gives %s, expected %s" % (got and ref.text(got), want and ref.text(want))
    if value is not None and bool(agentspeak.is_ground(term, scope)) != (want is not None):
        return "is_ground gives %r" % agentspeak.is_ground(term, scope)
    return None


def resolved_impl(term, scope, names):
    back = {v: k for k, v in names.items()}
    try:
        return impl.deep(term, scope, dict(back))
    except agentspeak.AslError:
        return None


SUITES = {"equality": (gen_equality, run_equality), "order": (gen_order, run_order), "shapes": (gen_shapes, run_shapes), "programs": (gen_programs, run_programs), "annotations": (gen_annotations, run_annotations),
          "copies": (gen_copies, run_copies), "scale": scale.suite(PROPERTY)}


def setup():
    global impl, agentspeak
    import impl
    import agentspeak


if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
