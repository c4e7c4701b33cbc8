"""
Families of programs with a size: for every size up to a bound, what the
program does is known in closed form.  Used by the checks as their suite
"scale": thresholds, caches and off-by-one errors that only show with many of
something are outside of what enumerating small programs can reach.
"""
from ref import N, S, B, V, W, F, L, C
import ref

SIZES = list(range(0, 25)) + [31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129]
MORE = list(range(25, 131)) + [199, 200, 201, 255, 256, 257, 300]


def sizes(tier, most):
    out = set(SIZES) | set(MORE if tier == "thorough" else ())
    if most > 130:
        out |= set(i for i in (150, 200, 255, 256, 257, 300, 400, 500, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 3000) if i <= most)
    return sorted(i for i in out if i <= most)


def some(n):
    """Positions to be special among n."""
    return sorted(set(i for i in (0, 1, n // 2, n - 2, n - 1) if 0 <= i < n))


def T(x):
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, (int, float)):
        return N(x)
    if isinstance(x, str):
        return S(x)
    if isinstance(x, list):
        return L(*[T(i) for i in x])
    return x


class Case(object):
    def __init__(self, texts, want, bag=False, label="", beliefs=None, limit=400000):
        self.texts = [("ag", texts)] if isinstance(texts, str) else texts
        self.want = {"ag": want} if isinstance(want, list) else want
        self.bag = bag
        self.label = label
        self.beliefs = {"ag": beliefs} if isinstance(beliefs, list) else beliefs
        self.limit = limit


def items(xs):
    return [ref.canon(tuple(T(i) for i in (x if isinstance(x, tuple) and not (x and x[0] in ("f", "l", "n", "s", "b", "c")) else (x,)))) for x in xs]


def run_case(case, stats):
    import impl
    trace = []
    run = impl.Run.__new__(impl.Run)
    run.trace = trace
    run.env = impl.agentspeak.runtime.Environment()
    run.actions = impl.make_actions(trace)
    run.agents = []
    error = None
    try:
        for name, text in case.texts:
            run.agents.append(run.env.build_agent(impl.source(name, text), run.actions, name=name))
        steps = run.drive_faults(case.limit)
    except impl.ERRORS as e:
        return "%s: loading fails: %s\n%s" % (case.label, e, shown(case.texts))
    except impl.StepLimit as e:
        return "%s: %s\n%s" % (case.label, e, shown(case.texts))
    if hasattr(stats, "transitions"):
        stats.transitions += steps
    stats.state((case.label, tuple(text for _, text in case.texts)))
    for name, _ in case.texts:
        seen = [ref.canon(i[1:]) for i in trace if i[0] == name]
        want = items((case.want or {}).get(name, []))
        if case.bag:
            seen, want = sorted(seen, key=repr), sorted(want, key=repr)
        if seen != want:
            i = 0
            while i < min(len(seen), len(want)) and seen[i] == want[i]:
                i += 1
            return "%s: agent %s: %d observations, expected %d; number %d is %s, expected %s\n%s" % (
                case.label, name, len(seen), len(want), i, seen[i:i + 1], want[i:i + 1], shown(case.texts))
        if case.beliefs and name in case.beliefs:
            have = sorted(run.beliefs(run.env.agents[name]), key=repr)
            expected = sorted((T(b) for b in case.beliefs[name]), key=repr)
            if have != expected:
                return "%s: agent %s has %d beliefs, expected %d, difference %s / %s\n%s" % (
                    case.label, name, len(have), len(expected), [b for b in have if b not in expected][:3], [b for b in expected if b not in have][:3], shown(case.texts))
    return None


def shown(texts):
    return "\n".join("--- %s\n%s" % (name, text if len(text) < 1500 else text[:700] + "\n...\n" + text[-700:]) for name, text in texts)


def cs(f, n, sep=", "):
    return sep.join(f(i) for i in range(n))


def go(body):
    return "!go.\n+!go <- %s.\n" % body


# ---------------------------------------------------------------- C01

def c01_width(n):
    args = cs(lambda i: "X%d" % i, n + 1)
    vals = cs(str, n + 1)
    for l, r in (("f(%s)", "f(%s)"), ("[%s]", "[%s]"), ("f(a, [%s])", "f(a, [%s])")):
        yield Case(go("%s = %s; .emit(%s)" % (l % args, r % vals, args)), [tuple(range(n + 1))], label="all bound")
        yield Case(go("%s = %s; .emit(%s)" % (l % vals, r % args, args)), [tuple(range(n + 1))], label="all bound")
        for k in some(n + 1):
            other = cs(lambda i: str(i) if i != k else "z", n + 1)
            yield Case(go("if (%s = %s) { .emit(1) } else { .emit(0) }; .emit(%s)" % (l % (args + ", " + args), r % (vals + ", " + other), args.split(", ")[k])),
                       [0, (V(0),)], label="position %d differs" % k)
            same = cs(lambda i: "X%d" % (i if i != k else (k + 1) % (n + 1)), n + 1)
            want = [i if i != k else (k + 1) % (n + 1) for i in range(n + 1)]
            vals2 = ", ".join(map(str, want))
            yield Case(go("%s = %s; .emit(%s)" % (l % same, r % vals2, same)), [tuple(want)], label="position %d shared" % k)
        more = vals + ", 1"
        yield Case(go("if (%s = %s) { .emit(1) } else { .emit(0) }" % (l % args, r % more)), [0], label="lengths differ")


def c01_depth(n):
    deep = N(7)
    for _ in range(n):
        deep = F("s", deep)
    build = "!go.\n+!b(0, T, T).\n+!b(N, T, R) : N > 0 <- !b(N - 1, s(T), R).\n"
    yield Case(build + "+!go <- !b(%d, X, A); !b(%d, 7, B); A = B; .emit(X)." % (n, n), [7], label="deep variable")
    yield Case(build + "+!go <- !b(%d, X, A); !b(%d, 7, B); B = A; .emit(X)." % (n, n), [7], label="deep variable")
    yield Case(build + "+!go <- !b(%d, 8, A); !b(%d, 7, B); if (A = B) { .emit(1) } else { .emit(0) }." % (n, n), [0], label="deep difference")
    yield Case(build + "+!go <- !b(%d, 7, A); !b(%d, 7, B); if (A = B) { .emit(1) } else { .emit(0) }." % (n + 1, n), [0], label="depths differ")


def c01_chain(n):
    for order in (range(n), reversed(range(n)), [i for i in range(0, n, 2)] + [i for i in range(1, n, 2)]):
        eqs = ["X%d = X%d" % (i, i + 1) for i in order]
        for k in some(n + 1):
            yield Case(go("; ".join(eqs + ["X%d = 5" % k, ".emit(%s)" % cs(lambda i: "X%d" % i, n + 1)])), [(5,) * (n + 1)], label="chain bound at %d" % k)
            yield Case(go("; ".join(["X%d = 5" % k] + eqs + [".emit(%s)" % cs(lambda i: "X%d" % i, n + 1)])), [(5,) * (n + 1)], label="chain bound at %d first" % k)
        eqs = eqs or ["true"]
        yield Case(go("; ".join(eqs + ["if (X0 = 1 & X%d = 2) { .emit(1) } else { .emit(0) }" % n, ".emit(%s)" % cs(lambda i: "X%d" % i, n + 1)])),
                   [0, (V(0),) * (n + 1)], label="chain can not have two values")


def cons(n, f=lambda i: "X%d" % i, tail="T"):
    return "".join("[%s|" % f(i) for i in range(n)) + tail + "]" * n


def c01_list(n):
    vals = cs(str, n)
    full = list(range(n))
    split = "!go.\n+!split(0, L, L).\n+!split(N, [_|T], R) : N > 0 <- !split(N - 1, T, R).\n"
    for k in some(n):
        pat = cons(k + 1)
        yield Case(go("%s = [%s]; .emit(X%d, T)" % (pat, vals, k)), [(k, full[k + 1:])], label="split after %d" % k)
        yield Case(go("[%s] = %s; .emit(X%d, T)" % (vals, pat, k)), [(k, full[k + 1:])], label="split after %d" % k)
        yield Case(go("%s = [%s]; T = [%s]; .emit(X%d)" % (pat, vals, ", ".join(map(str, full[k + 1:])), k)), [k], label="rest after %d" % k)
        yield Case(split + "+!go <- !split(%d, [%s], R); .emit(R)." % (k, vals), [(full[k:],)], label="steps to %d" % k)
    yield Case(go("%s = [%s]; .emit(T)" % (cons(n + 1), cs(str, n + 1))), [([],)], label="empty rest")
    yield Case(go("if (%s = [%s]) { .emit(1) } else { .emit(0) }; .emit(T)" % (cons(n + 1), vals)), [0, (V(0),)], label="too short")


# ---------------------------------------------------------------- C02

def c02_ground(n):
    a = ["a%d" % i for i in range(n)]
    for order in (a, a[::-1], a[n // 2:] + a[:n // 2]):
        def lits(xs):
            return "p(1)" + ("[%s]" % ", ".join(xs) if xs else "")

        def q(xs):
            return "p(X)" + ("[%s]" % ", ".join(xs) if xs else "")
        for k in [None] + some(n):
            part = [x for i, x in enumerate(order) if i != k]
            text = "%s.\n!go.\n+!go <- ?%s; .emit(X); if (%s) { .emit(1) } else { .emit(0) }; if (%s) { .emit(1) } else { .emit(0) }; -%s; .count(p(_), M); .emit(M).\n" % (
                lits(a), q(part), q(part + ["z"]), q([x if i != k else "z" for i, x in enumerate(order)]), q(part))
            yield Case(text, [1, 0, 1 if k is None else 0, 0], label="annotations without number %s" % k)


def c02_bindings(n):
    ann = ", ".join("k(%d)" % i for i in range(n))
    text = "p%s.\n!go.\n+!go <- for (p[k(X)]) { .emit(X) }; .count(p[k(_)], M); .emit(c, M).\n" % ("[%s]" % ann if n else "")
    yield Case(text, [(i,) for i in range(n)] + [(F("c"), n)], bag=True, label="every annotation")
    if n <= 24:
        text = "p%s.\n!go.\n+!go <- .count(p[k(X), k(Y)], M); .emit(M).\n" % ("[%s]" % ann if n else "")
        yield Case(text, [n * (n - 1)], label="every pair of annotations")
    for k in some(n):
        text = "p[%s].\n!go.\n+!go <- X = %d; if (p[k(X)]) { .emit(1) }; if (p[k(X), k(Y)] & Y == X + 1) { .emit(2, Y) }.\n" % (ann, k)
        yield Case(text, [1] + [(2, k + 1)] * (k + 1 < n), label="annotation %d" % k)


# ---------------------------------------------------------------- C03

def c03_facts(n):
    rules = "".join("r(%d) :- true.\n" % i for i in range(n))
    ans = list(range(n))
    yield Case(rules + go("for (r(X)) { .emit(X) }; .findall(X, r(X), L); .emit(L)"), [(i,) for i in ans] + [(ans,)], label="rules in order")
    beliefs = "".join("b(%d).\n" % i for i in range(n))
    yield Case(beliefs + go("for (b(X)) { .emit(X) }"), [(i,) for i in ans], bag=True, label="beliefs")
    for k in some(n):
        yield Case(beliefs + rules + go("?b(%d); ?r(%d); .count(b(%d), M); .emit(M); for (r(X) & b(X) & X >= %d) { .emit(X) }" % (k, k, k, k)),
                   [(1,)] + [(i,) for i in range(k, n)], label="joined from %d" % k)
        yield Case(rules + go("if (r(X) & X > %d) { .emit(X) } else { .emit(none) }; if (not r(%d)) { .emit(no) } else { .emit(yes) }" % (k, k)),
                   [(k + 1,) if k + 1 < n else (F("none"),), (F("yes"),)], label="first answer after %d" % k)
    yield Case(rules + beliefs + go("if (not r(%d) & not b(%d)) { .emit(no) }" % (n, n)), [(F("no"),)], label="no such answer")


def c03_chain(n):
    rules = "r0(1) :- true.\nr0(2) :- true.\n" + "".join("r%d(X) :- r%d(X).\n" % (i + 1, i) for i in range(n))
    yield Case(rules + go("for (r%d(X)) { .emit(X) }" % n), [1, 2], label="rule calls rule")
    rec = "b(0).\nnum(0, []) :- true.\nnum(N, [N|T]) :- N > 0 & num(N - 1, T).\n"
    yield Case(rec + go("?num(%d, L); .emit(L); .count(num(%d, _), M); .emit(M)" % (n, n)), [(list(range(n, 0, -1)),), 1], label="recursive rule")
    edges = "".join("e(%d, %d).\n" % (i, i + 1) for i in range(n))
    path = edges + "path(X, Y, 1) :- e(X, Y).\npath(X, Y, K + 1) :- e(X, Z) & path(Z, Y, K).\n"
    if n <= 33:
        yield Case(path.replace("path(X, Y, K + 1) :-", "path(X, Y, M) :-").replace("path(Z, Y, K).", "path(Z, Y, K) & M = K + 1.") + go("for (path(0, Y, K)) { .emit(Y, K) }"),
                   [(i, i) for i in range(1, n + 1)], label="paths")


def c03_conn(n):
    n += 1
    yield Case(go("for (%s) { .emit(X) }" % cs(lambda i: "X = %d" % i, n, " | ")), [(i,) for i in range(n)], label="alternatives")
    yield Case("q(0) :- true.\nq(1) :- true.\n" + go("for (%s & X0 + 0 >= 1) { .emit(%s) }" % (cs(lambda i: "q(X%d)" % i if i == 0 else "X%d = X%d" % (i, i - 1), n, " & "), cs(lambda i: "X%d" % i, n))),
               [(1,) * n], label="conjunction")
    for k in some(n):
        conj = cs(lambda i: "X%d = %d" % (i, i) if i != k else "(X%d = a | X%d = b)" % (i, i), n, " & ")
        yield Case(go("for (%s) { .emit(X%d) }" % (conj, k)), [(F("a"),), (F("b"),)], label="choice at %d" % k)
        fails = cs(lambda i: "X%d = %d" % (i, i) if i != k else "1 = 2", n, " & ")
        yield Case(go("if (%s) { .emit(1) } else { .emit(%s) }" % (fails, cs(lambda i: "X%d" % i, n))), [tuple(V(i) for i in range(n))], label="failure at %d" % k)


def c03_not(n):
    q = "X = 1"
    for _ in range(n):
        q = "not (%s)" % q
    yield Case(go("if (%s) { .emit(1, X) } else { .emit(0, X) }" % q), [(1, 1) if n == 0 else (1 if n % 2 == 0 else 0, V(0))], label="negations")


def c03_bound(n):
    """Queries of a plan that has bound many variables before."""
    rules = "p(1). p(2).\nr(X) :- p(X) & not q(X).\nt(X, [Y|Z]) :- r(X) & .member(Y, [X, 7]) & Z = [].\n"
    binds = "".join("V%d = f(%d); " % (i, i) for i in range(n))
    last = "V%d" % (n - 1) if n else "0"
    body = binds + ".findall(A, r(A), L); .sort(L, M); .emit(M); .count(t(_, _), C); .emit(C); ?r(2); if (t(2, [B])) { .emit(B) }; if (not r(B2) | r(3)) { .emit(no) } else { .emit(yes, B2) }; .emit(%s)" % last
    yield Case(rules + go(body), [([1, 2],), (4,), (2,), (F("yes"), V(0)), (F("f", N(n - 1)) if n else 0,)], label="bound one by one")
    if n:
        yield Case(rules + "!start.\n+!start <- !go(%s).\n+!go(%s) : r(2) & t(1, [1]) <- .findall(A, r(A), L); .sort(L, M); .emit(M); .emit(X0, X%d).\n" % (
            cs(str, n), cs(lambda i: "X%d" % i, n), n - 1), [([1, 2],), (0, n - 1)], label="bound by the head")


# ---------------------------------------------------------------- C04

def c04_many(n):
    ev = "+p(X) <- .emit(add, X).\n-p(X) <- .emit(del, X).\n+go(go) <- true.\n"
    add = cs(lambda i: "+p(%d)" % i, n, "; ") or "true"
    every = [(F("add"), i) for i in range(n)]
    base = [F("p", N(i)) for i in range(n)]
    yield Case(ev + go(add + "; .count(p(_), M); .emit(M)"), every + [n], beliefs=base, label="additions")
    yield Case(ev + go(add + "; " + add + "; .count(p(_), M); .emit(M)"), every + every + [n], beliefs=base, label="repeated additions")
    for k in some(n):
        yield Case(ev + go(add + "; -p(%d); if (p(%d)) { .emit(1) }; .count(p(_), M); .emit(M); -p(%d); +p(%d)" % (k, k, k, k)),
                   every + [(F("del"), k), n - 1, (F("add"), k)], beliefs=base, label="removal of %d" % k)
        yield Case(ev + go(add + "; for (p(X) & X <= %d) { -p(X) }; .count(p(_), M); .emit(M)" % k),
                   every + [(F("del"), i) for i in range(k + 1)] + [n - k - 1], bag=True, beliefs=base[k + 1:], label="removal up to %d" % k)
        yield Case(ev + go(add + "; .abolish(p(%d)); .count(p(_), M); .emit(M); .abolish(p(_)); .count(p(_), K); .emit(K)" % k),
                   every + [n - 1, 0], beliefs=[], label="abolish %d" % k)


def c04_counter(n):
    text = "c(0).\n-c(X) <- .emit(del, X).\n+c(X) : X > 0 <- .emit(add, X).\n!go.\n+!go : c(N) & N < %d <- -+c(N + 1); !go.\n+!go : c(N) <- .emit(N).\n" % n
    want = []
    for i in range(n):
        want += [(F("del"), V(0)), (F("add"), i + 1)]
    yield Case(text, want + [n], beliefs=[F("c", N(n))], label="counter")
    text = "!go.\n+!go <- %s.\n+c(X) <- -c(X); .emit(X).\n" % (cs(lambda i: "+c(%d)" % (i % 3), n, "; ") or "true")
    yield Case(text, [(i % 3,) for i in range(n)], beliefs=[], label="added and removed")


def c04_shapes(n):
    args = [tuple(range(i)) for i in range(min(n, 24) + 1)]
    text = go("; ".join("+q(%s)" % ", ".join(map(str, a)) if a else "+q" for a in args) + "; -q(%s); .emit(1)" % ", ".join(map(str, args[-1])) if n else "+q; -q; .emit(1)")
    yield Case(text, [1], beliefs=[F("q", *[N(i) for i in a]) for a in args[:-1]] if n else [], label="arities")
    text = go((cs(lambda i: "+q(1)[%s]" % ", ".join("a%d" % j for j in range(i + 1)), min(n, 24), "; ") or "true") + "; .count(q(1), M); .emit(M)")
    yield Case(text, [min(n, 24)], label="annotations")


# ---------------------------------------------------------------- C05

def c05_plans(n):
    n += 1
    for k in some(n):
        goals = "!g(%d).\n!h(%d).\n+e(%d).\n" % (k, k, k)
        text = go("!g(%d); !h(%d); +e(%d); !f" % (k, k, k)) + "".join("+!g(%d) <- .emit(g, %d).\n" % (i, i) for i in range(n))
        text += "".join("+!h(X) : X == %d <- .emit(h, %d).\n" % (i, i) for i in range(n))
        text += "".join("+e(X) : X == %d <- .emit(e, %d).\n" % (i, i) for i in range(n))
        text += "".join("+!f : %s <- .emit(f, %d).\n" % ("1 == 2" if i < k else "true", i) for i in range(n))
        yield Case(text, [(F("g"), k), (F("h"), k), (F("e"), k), (F("f"), k)], label="plan number %d" % k)
    text = go("!g(%d); .emit(never)" % n) + "".join("+!g(%d) <- .emit(g, %d).\n" % (i, i) for i in range(n))
    yield Case(text, [("ERROR",)], label="no plan")


def c05_answers(n):
    n += 1
    rules = "".join("r(%d) :- true.\n" % i for i in range(n))
    for k in some(n):
        yield Case(rules + go("!g; !a(%d)" % k) + "+!g : r(X) & X >= %d <- .emit(X).\n+!g <- .emit(never).\n+!a(Y) : r(X) & X > Y <- .emit(X).\n+!a(Y) <- .emit(none, Y).\n" % k,
                   [(k,), (k + 1,) if k + 1 < n else (F("none"), k)], label="answer %d" % k)


# ---------------------------------------------------------------- C06

def c06_loops(n):
    rules = "".join("r(%d) :- true.\n" % i for i in range(n))
    yield Case(rules + go("for (r(X)) { .emit(X); Y = X; .emit(Y) }; .emit(X, Y)"), [(i,) for i in range(n) for _ in (0, 1)] + [(V(0), V(1))], label="for")
    yield Case("c(0).\n" + go("while (c(N) & N < %d) { .emit(N); -+c(N + 1) }; .emit(fin, N); ?c(M); .emit(M)" % n),
               [(i,) for i in range(n)] + [(F("fin"), V(0)), n], label="while")
    for k in some(n):
        yield Case(rules + go("for (r(X)) { if (X == %d) { .emit(hit) } else { .emit(X) } }; .emit(fin)" % k),
                   [(i,) if i != k else (F("hit"),) for i in range(n)] + [(F("fin"),)], label="if in for")
        yield Case(rules + go("for (r(X)) { .emit(X); X < %d }; .emit(fin)" % k), [(i,) for i in range(k + 1)] + ["ERROR"], label="failure in for")
        yield Case("c(0).\n" + go("while (c(N)) { .emit(N); -+c(N + 1); N < %d }; .emit(fin)" % k), [(i,) for i in range(k + 1)] + ["ERROR"], label="failure in while")
    if n <= 33:
        yield Case(rules + go("for (r(X)) { for (r(Y) & Y < X) { .emit(X, Y) } }; .emit(fin)"), [(i, j) for i in range(n) for j in range(i)] + [(F("fin"),)], label="for in for")


def c06_body(n):
    yield Case(go(cs(lambda i: ".emit(%d)" % i, n, "; ") or "true"), [(i,) for i in range(n)], label="sequence")
    for k in some(n):
        yield Case(go(cs(lambda i: ".emit(%d)" % i if i != k else ".fail", n, "; ")), [(i,) for i in range(k)] + ["ERROR"], label="failure at %d" % k)
        yield Case(go(cs(lambda i: "if (%d == %d) { .emit(%d) }" % (i, k, i), n, "; ") + "; .emit(fin)"), [k, (F("fin"),)], label="ifs")


def c06_nest(n):
    for taken in (True, False):
        body = ".emit(in)"
        want = [F("in")]
        for i in range(n):
            if taken:
                body = "if (X%d = %d) { %s; .emit(t, %d) } else { .emit(e, %d) }" % (i, i, body, i, i)
                want = want + [(F("t"), i)]
            else:
                body = "if (1 == 2) { .emit(t, %d) } else { %s; .emit(e, %d) }" % (i, body, i)
                want = want + [(F("e"), i)]
        yield Case(go(body + "; .emit(fin)"), want + [F("fin")], label="nested if")
    body, want = ".emit(in)", [F("in")]
    for i in range(n):
        body = "for (X%d = %d) { %s; .emit(X%d) }" % (i, i, body, i)
        want = want + [i]
    yield Case(go(body + "; .emit(fin)"), want + [F("fin")], label="nested for")
    body, want = ".emit(in)", [F("in")]
    for i in range(n):
        body = "while (not w(%d)) { +w(%d); %s; .emit(%d) }" % (i, i, body, i)
        want = want + [i]
    yield Case(go(body + "; .emit(fin)"), want + [F("fin")], label="nested while")


# ---------------------------------------------------------------- C07

def c07_recursion(n):
    yield Case("!go.\n+!down(0, []).\n+!down(N, [N|T]) : N > 0 <- !down(N - 1, T).\n+!go <- !down(%d, L); .emit(L)." % n, [(list(range(n, 0, -1)),)], label="result built up")
    yield Case("!go.\n+!sum(0, 0).\n+!sum(N, S) : N > 0 <- !sum(N - 1, R); S = R + N; .emit(N, S).\n+!go <- !sum(%d, S); .emit(S)." % n,
               [(i, i * (i + 1) // 2) for i in range(1, n + 1)] + [n * (n + 1) // 2], label="result computed")
    yield Case("!go.\n+!rev([], A, A).\n+!rev([H|T], A, R) <- !rev(T, [H|A], R).\n+!go <- !rev([%s], [], R); .emit(R)." % cs(str, n), [(list(range(n))[::-1],)], label="accumulator")
    yield Case("!go(0).\n+!go(%d) <- .emit(fin).\n+!go(N) <- !!go(N + 1).\n" % n, [F("fin")], label="successive goals")


def c07_args(n):
    n += 1
    xs = cs(lambda i: "X%d" % i, n)
    ys = cs(lambda i: "Y%d" % i, n)
    for k in some(n):
        yield Case("!go.\n+!go <- X%d = 7; !g(%s); .emit(%s).\n+!g(%s) <- .emit(Y%d); Y%d = 8.\n" % (k, xs, xs, ys, k, (k + 1) % n),
                   [7, tuple(7 if i == k else 8 if i == (k + 1) % n else V(i) for i in range(n))] if n > 1 else [7, "ERROR"], label="argument %d" % k)
    yield Case("!go.\n+!go <- !g(%s); .emit(%s).\n+!g(%s) <- %s.\n" % (xs, xs, ys, cs(lambda i: "Y%d = %d" % (i, i), n, "; ")), [tuple(range(n))], label="all arguments")


def c07_instances(n):
    waits = "+!i(K) <- X = K; .wait(\"+go\"); Y = X; .emit(K, X, Y).\n"
    yield Case("".join("!i(%d).\n" % i for i in range(n)) + "!drive.\n" + waits + "+!drive <- +go.\n", [(i, i, i) for i in range(n)], bag=True, label="waiting instances")
    n += 1
    yield Case(go(cs(lambda i: "!i(%d, R%d)" % (i, i), n, "; ") + ("; " if n else "") + ".emit(%s)" % cs(lambda i: "R%d" % i, n)) + "+!i(K, R) <- X = K; R = f(X, Z).\n",
               [tuple(F("f", N(i), V(i)) for i in range(n))], label="calls in a row")


# ---------------------------------------------------------------- C08

def c08_waiters(n):
    text = "".join("!w(%d).\n" % i for i in range(n)) + "!d.\n+!w(K) <- .wait(\"+e(1)\"); .emit(K); .wait(\"+e(2)\"); .emit(K, K).\n"
    yield Case(text + "+!d <- .emit(s); +e(0); .emit(t).\n", [F("s"), F("t")], label="other event")
    yield Case(text + "+!d <- +e(0); +e(1); +e(3).\n", [(i,) for i in range(n)], bag=True, label="event")
    yield Case(text + "+!d <- +e(1); !!dd.\n+!dd <- +e(2).\n", [(i,) for i in range(n)] + [(i, i) for i in range(n)], bag=True, label="two events")


def c08_again(n):
    yield Case("!w(0).\n!d(0).\n+!w(K) <- .wait(\"+e(_)\"); .emit(K); !w(K + 1).\n+!d(N) : N < %d <- .emit(d, N); !!tell(N).\n+!d(N).\n+!tell(N) <- +e(N); !!pause(N).\n+!pause(N) <- !!d(N + 1).\n" % n,
               [x for i in range(n) for x in [(F("d"), i), (i,)]], bag=True, label="waiting again and again")


# ---------------------------------------------------------------- C09

def c09_agents(n):
    n += 1
    text = "c(0).\n!go.\n+!go : c(N) & N < 3 <- .emit(N); -+c(N + 1); !go.\n+!go <- .my_name(Me); .emit(Me).\n"
    names = ["a%d" % i for i in range(n)]
    yield Case([(a, text) for a in names], dict((a, [0, 1, 2, (F(a),)]) for a in names), beliefs=dict((a, [F("c", N(3))]) for a in names), label="same program")
    yield Case([(a, text.replace("3", str(i % 5))) for i, a in enumerate(names)], dict((a, list(range(i % 5)) + [(F(a),)]) for i, a in enumerate(names)), label="different programs")


def c09_intentions(n):
    text = "".join("!g(%d).\n" % i for i in range(n)) + "+!g(X) <- .emit(X, 1); !s(X); .emit(X, 3).\n+!s(X) <- .emit(X, 2); +b(X).\n"
    yield Case(text, [(i, j) for i in range(n) for j in (1, 2, 3)], beliefs=[F("b", N(i)) for i in range(n)], label="goals")
    text = go((cs(lambda i: "!!g(%d)" % i, n, "; ") or "true") + "; .emit(all)") + "+!g(X) <- .emit(X, 1); .emit(X, 2).\n"
    yield Case(text, [F("all")] + [(i, j) for i in range(n) for j in (1, 2)], label="separate goals")


# ---------------------------------------------------------------- C10

RECEIVER = "+m(X)[source(S)] <- .emit(X, S).\n+!g(X)[source(S)] <- .emit(g, X, S).\n-m(X)[source(S)] <- .emit(del, X).\n"


def c10_receivers(n):
    n += 1
    names = ["r%d" % i for i in range(n)]
    snd = F("snd")
    for k in some(n):
        chosen = [x for i, x in enumerate(names) if i != k]
        send = go(".send([%s], tell, m(1)); .send(%s, achieve, g(2)); .send(\"%s\", untell, m(1))" % (", ".join(chosen), names[k], names[k - 1]))
        want = dict((x, [(1, snd)]) for x in chosen)
        want[names[k]] = [(F("g"), 2, snd)]
        if names[k - 1] in chosen:
            want[names[k - 1]] = [(1, snd), (F("del"), 1)]
        yield Case([("snd", send)] + [(x, RECEIVER) for x in names], want, label="all but number %d" % k)
    send = go(".broadcast(tell, m(1)); .broadcast(achieve, g(2)); .broadcast(untell, m(1)); .emit(fin)") + RECEIVER
    for k in some(n):
        agents = [(x, RECEIVER) for x in names]
        agents.insert(k, ("snd", send))
        want = dict((x, [(1, snd), (F("g"), 2, snd), (F("del"), 1)]) for x in names)
        want["snd"] = [F("fin")]
        yield Case(agents, want, bag=True, label="broadcast")


def c10_messages(n):
    snd = F("snd")
    send = go(cs(lambda i: ".send(rcv, tell, m(%d)); .send(rcv, achieve, g(%d))" % (i, i), n, "; ") or "true")
    want = [(i, snd) for i in range(n)] + [(F("g"), i, snd) for i in range(n)]
    yield Case([("snd", send), ("rcv", RECEIVER)], {"rcv": want}, bag=True, beliefs={"rcv": [F("m", N(i), annots=(F("source", snd),)) for i in range(n)]}, label="messages")
    loop = "c(0).\n!go.\n+!go : c(N) & N < %d <- -+c(N + 1); .send(rcv, tell, m(N)); .send(rcv, untell, m(N)); !go.\n+!go.\n" % n
    yield Case([("snd", loop), ("rcv", RECEIVER)], {"rcv": [(i, snd) for i in range(n)] + [(F("del"), i) for i in range(n)]}, bag=True, beliefs={"rcv": []}, label="told and taken back")
    ping = "+!ping(N)[source(S)] : N > 0 <- .emit(N); .send(S, achieve, ping(N - 1)).\n+!ping(0) <- .emit(fin).\n"
    yield Case([("aa", "!go.\n+!go <- .send(bb, achieve, ping(%d)).\n" % n + ping), ("bb", ping)],
               {"bb": [(i,) if i else (F("fin"),) for i in range(n, -1, -2)], "aa": [(i,) if i else (F("fin"),) for i in range(n - 1, -1, -2)]}, label="ping")


# ---------------------------------------------------------------- C11

def c11_depth(n):
    n += 1
    plans = "".join("+!g(%d) <- .emit(in, %d); !g(%d); .emit(out, %d).\n" % (i, i, i + 1, i) for i in range(n)) + "+!g(%d) <- .wait(\"+never\"); .emit(never).\n" % n
    rcv = "!top.\n+!top <- !g(0); .emit(top).\n+!later <- .emit(later).\n" + plans
    ins = [(F("in"), i) for i in range(n)]
    for k in some(n + 1):
        snd = "!d(%d).\n+!d(0) <- .send(rcv, unachieve, g(%d)); .send(rcv, achieve, later).\n+!d(N) : N > 0 <- !!d(N - 1).\n" % (8 * n + 20, k)
        yield Case([("rcv", rcv), ("snd", snd)], {"rcv": ins + [(F("out"), i) for i in range(k - 1, -1, -1)] + [F("top"), F("later")]}, bag=True, label="withdrawn at depth %d" % k)


def c11_many(n):
    n += 1
    rcv = "".join("!g(%d).\n" % i for i in range(n)) + "+!g(X) <- .wait(\"+go\"); .emit(X).\n+!free <- +go.\n"
    for k in some(n):
        for pat, left in (("g(%d)" % k, [i for i in range(n) if i != k]), ("g(_)", []), ("g(z)", range(n)), ("h(%d)" % k, range(n))):
            snd = "!d(%d).\n+!d(0) <- .send(rcv, unachieve, %s); .send(rcv, achieve, free).\n+!d(N) : N > 0 <- !!d(N - 1).\n" % (3 * n + 10, pat)
            yield Case([("rcv", rcv), ("snd", snd)], {"rcv": [(i,) for i in left]}, bag=True, label="withdrawn %s" % pat)


# ---------------------------------------------------------------- C12

def c12_plans(n):
    n += 1
    own = "".join("@l%d +!g(X) : X == %d <- .emit(g, %d).\n" % (i, i, i) for i in range(n)) + "@o +!other <- .emit(other).\n"
    for k in some(n):
        ask = "!d(%d).\n!ask.\n+!ask <- .send(src, askHow, \"+!g(_)\").\n+!d(0) <- !g(%d); !g(%d); !g(%d); .emit(never).\n+!d(N) : N > 0 <- !!d(N - 1).\n" % (20, 0, k, n)
        yield Case([("asker", ask), ("src", own)], {"asker": [(F("g"), 0), (F("g"), k), "ERROR"]}, label="asked")
        tell = go(cs(lambda i: ".send(rcv, tellHow, \"@l%d +!g(X) : X == %d <- .emit(g, %d).\")" % (i, i, i), n, "; ") + "; .send(rcv, untellHow, \"@l%d\"); .send(rcv, achieve, try)" % k)
        rcv = "+!try <- !g(%d); !g(%d); .emit(never).\n" % ((k + 1) % n, k)
        want = [(F("g"), (k + 1) % n), "ERROR"] if n > 1 else ["ERROR"]
        yield Case([("src", tell), ("rcv", rcv)], {"rcv": want}, label="told and withdrawn %d" % k)


# ---------------------------------------------------------------- C15

def c15_chains(n):
    n += 1
    import math
    val = {"+": lambda xs: sum(xs), "-": lambda xs: xs[0] - sum(xs[1:]), "*": lambda xs: math.prod(xs), "/": None}
    for op in "+-*/":
        xs = [float(i % 3 + 1) for i in range(n)]
        if op == "+":
            v = sum(xs)
        else:
            v = xs[0]
            for x in xs[1:]:
                v = v - x if op == "-" else v * x if op == "*" else v / x
        if v and not 1e-300 < abs(v) < 1e300:
            continue
        e = (" %s " % op).join("%d" % x for x in xs)
        ev = (" %s " % op).join("X%d" % i for i in range(n))
        eqs = "; ".join("X%d = %d" % (i, x) for i, x in enumerate(xs))
        yield Case(go("X = %s; .emit(X); !s(%s)" % (e, e)) + "+!s(X) <- Y = X; .emit(Y).\n", [v, v], label="constants " + op)
        yield Case(go("%s; X = %s; .emit(X)" % (eqs, ev)), [v], label="variables " + op)
    for op, both in (("&", (False, True)), ("|", (False, True))):
        for k in some(n):
            for special in both:
                xs = [special if i == k else not special for i in range(n)]
                v = all(xs) if op == "&" else any(xs)
                q = (" %s " % op).join("true" if x else "false" for x in xs)
                qv = (" %s " % op).join("%d == Z" % (1 if x else 2) for x in xs)
                yield Case(go("Z = 1; if (%s) { .emit(1) } else { .emit(0) }; if (%s) { .emit(1) } else { .emit(0) }" % (q, qv)), [int(v), int(v)], label="logic " + op)
    xs = list(range(n + 1))
    for k in [None] + some(n):
        ys = xs[:]
        if k is not None:
            ys[k] = n + 5
        v = int(all(a < b for a, b in zip(ys, ys[1:])))
        yield Case(go("if (%s) { .emit(1) } else { .emit(0) }" % " < ".join(map(str, ys)) + "; " + "; ".join("X%d = %d" % p for p in enumerate(ys)) +
                      "; if (%s) { .emit(1) } else { .emit(0) }" % " < ".join("X%d" % i for i in range(n + 1))), [v, v], label="comparisons")
    if n <= 60:
        e, v = "3", 3.0
        for i in range(n):
            e = "-%s" % e if i % 2 else "-(%s)" % e
            v = -v
        yield Case(go("X = %s; .emit(X); Y = 3; Z = %s; .emit(Z)" % (e, e.replace("3", "Y"))), [v, v], label="signs")


# ---------------------------------------------------------------- C18

def c18_lists(n):
    xs = list(range(n))
    mixed = [(i * 7919) % 101 for i in range(n)]

    def lst(v):
        return "[%s]" % ", ".join(map(str, v))
    yield Case(go(".length(%s, M); .emit(M)" % lst(xs)), [n], label="length")
    yield Case(go(".sort(%s, M); .emit(M)" % lst(mixed)), [(sorted(mixed),)], label="sort")
    if n:
        yield Case(go(".max(%s, M); .emit(M); .min(%s, K); .emit(K)" % (lst(mixed), lst(mixed))), [max(mixed), min(mixed)], label="max, min")
    yield Case(go("for (.member(X, %s)) { .emit(X) }" % lst(mixed)), [(i,) for i in mixed], label="member")
    yield Case(go("for (.range(%d, X)) { .emit(X) }" % n), [(i,) for i in range(n)], label="range")
    rules = "".join("r(%d) :- true.\n" % i for i in mixed)
    yield Case(rules + go(".findall(X, r(X), A); .emit(A); .count(r(_), M); .emit(M)"), [(mixed,), n], label="findall, count")
    for k in some(n):
        yield Case(go(".nth(%d, %s, X); .emit(X); if (.member(%d, %s)) { .emit(1) }; .concat(%s, %s, A); .emit(A)" % (k, lst(mixed), mixed[k], lst(mixed), lst(xs[:k]), lst(xs[k:]))),
                   [mixed[k], 1, (xs,)], label="nth, member, concat")
    for k in some(n):
        yield Case(go("if (.nth(%d, %s, %d)) { .emit(1) } else { .emit(0) }" % (k, lst(xs), n)), [0], label="nth is another")
    text = "".join(chr(97 + i % 26) for i in range(n))
    yield Case(go(".length(\"%s\", M); .emit(M); .concat(\"%s\", \"!\", Y); .emit(Y)" % (text, text)), [n, text + "!"], label="strings")
    for k in some(n):
        at = [i for i in range(n) if text.startswith(text[k:], i)]
        yield Case(go("for (.substring(\"%s\", \"%s\", K)) { .emit(K) }" % (text[k:], text)), [(i,) for i in at], label="substring")


# ---------------------------------------------------------------- C20

def c20_terms(n):
    a = "f(%s)" % cs(str, n) if n else "f"
    for k in some(n):
        b = "f(%s)" % cs(lambda i: str(i) if i != k else str(i + 1), n)
        yield Case("p(%s).\np(%s).\np(%s).\n" % (a, b, a) + go(".count(p(_), M); .emit(M); if (%s < %s) { .emit(1) } else { .emit(0) }; if (%s < %s) { .emit(1) } else { .emit(0) }; .sort([%s, %s, %s], S); .length(S, K); S = [A|_]; if (A == %s) { .emit(yes) }; if (%s == %s) { .emit(never) }" % (
            a, b, b, a, b, a, b, a, a, b)), [2, 1, 0, F("yes")], label="structures differing at %d" % k)
        la, lb = a[1:].replace("(", "[").replace(")", "]"), b[1:].replace("(", "[").replace(")", "]")
        yield Case("p(%s).\np(%s).\np(%s).\n" % (la, lb, la) + go(".count(p(_), M); .emit(M); if (%s < %s) { .emit(1) } else { .emit(0) }; if (%s \\== %s) { .emit(1) }; if (p(%s) & T == %s) { .emit(2) }" % (
            la, lb, la, lb, cons(k + 1, str), "[%s]" % ", ".join(str(i) for i in range(k + 1, n)))),
            [2, 1, 1, 2], label="lists differing at %d" % k)
    ann = ["a%d" % i for i in range(n)]
    forms = ["p(1)%s" % ("[%s]" % ", ".join(x) if x else "") for x in (ann, ann[::-1], ann[n // 3:] + ann[:n // 3])]
    yield Case(".\n".join(forms) + ".\n" + go(".count(p(_), M); .emit(M)"), [1], label="annotations in any order")


# ---------------------------------------------------------------- C21

def c21_position(n):
    n += 1
    for k in some(n):
        for bad in (".boom", ".fail", "X = 1 + Z", "!nothing"):
            body = cs(lambda i: ".emit(%d)" % i if i != k else bad, n, "; ")
            yield Case("!go.\n!other.\n+!go <- %s.\n+!other <- .emit(o, 1); .emit(o, 2).\n" % body, [(i,) for i in range(k)] + ["ERROR", (F("o"), 1), (F("o"), 2)], label="statement %d fails" % k)
        plans = "".join("+!g(%d) <- .emit(in, %d); %s; .emit(out, %d).\n" % (i, i, "!g(%d)" % (i + 1) if i != k else ".boom", i) for i in range(n)) + "+!g(%d).\n" % n
        yield Case("!g(0).\n!other.\n" + plans + "+!other <- .emit(o).\n", [(F("in"), i) for i in range(k + 1)] + ["ERROR", F("o")], label="depth %d fails" % k)


def c21_many(n):
    text = "".join("!g(%d).\n" % i for i in range(n)) + "+!g(X) : X mod 2 == 0 <- .emit(X); .boom; .emit(never).\n+!g(X) <- .emit(X); .emit(ok, X).\n"
    want = []
    for i in range(n):
        want += [(i,), "ERROR"] if i % 2 == 0 else [(i,), (F("ok"), i)]
    yield Case(text, want, label="every other fails")


FAMILIES = {
    "C01": {"width": (c01_width, 60), "depth": (c01_depth, 100), "chain": (c01_chain, 60), "list": (c01_list, 60)},
    "C02": {"ground": (c02_ground, 40), "bindings": (c02_bindings, 40)},
    "C03": {"facts": (c03_facts, 300), "chain": (c03_chain, 60), "conn": (c03_conn, 40), "not": (c03_not, 20), "bound": (c03_bound, 1100)},
    "C04": {"many": (c04_many, 300), "counter": (c04_counter, 1100), "shapes": (c04_shapes, 24)},
    "C05": {"plans": (c05_plans, 100), "answers": (c05_answers, 1100)},
    "C06": {"loops": (c06_loops, 1100), "body": (c06_body, 1100), "nest": (c06_nest, 20)},
    "C07": {"recursion": (c07_recursion, 100), "args": (c07_args, 100), "instances": (c07_instances, 100)},
    "C08": {"waiters": (c08_waiters, 300), "again": (c08_again, 100)},
    "C09": {"agents": (c09_agents, 60), "intentions": (c09_intentions, 1100)},
    "C10": {"receivers": (c10_receivers, 40), "messages": (c10_messages, 1100)},
    "C11": {"depth": (c11_depth, 24), "many": (c11_many, 33)},
    "C12": {"plans": (c12_plans, 33)},
    "C15": {"chains": (c15_chains, 60)},
    "C18": {"lists": (c18_lists, 1100)},
    "C20": {"terms": (c20_terms, 64)},
    "C21": {"position": (c21_position, 64), "many": (c21_many, 129)},
}


def suite(prop):
    families = FAMILIES[prop]

    def gen(tier):
        for name, (f, most) in families.items():
            for n in sizes(tier, most):
                yield [name, n]

    def run(case, stats):
        name, n = case
        for c in families[name][0](n):
            c.label = "%s %d, %s" % (name, n, c.label)
            message = run_case(c, stats)
            if message:
                return message
    return gen, run
