"""C14: printing a program or a term and reading it back gives the same thing."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale
import c13
import syntax
import grammar
import c12

PROPERTY = "C14"
RULE = ("expressions: every arithmetic expression tree up to a depth in every position; queries: every boolean query tree up to a depth; programs: every "
        "combination of heads, contexts and bodies of a grammar and every nesting of control structures; strings and terms: every string up to a length over "
        "difficult characters and every small ground term over difficult constants; a state is a distinct text, a transition a print-and-read")
DESIGN = ("programs are printed by syntax.py, parsed and printed by the implementation, and the output is read by the independent parser of grammar.py: "
          "it must be the original program up to constant folding, grouping by kind and empty else branches; the implementation must read its own output as the "
          "same program again. Terms are compared with their type after reading them back.")
ASSUMPTIONS = ["finite numbers"]

X, Y, Z = V("X"), V("Y"), V("Z")


# ---- normal form of programs

def fold(t):
    """Constant folding with the model's evaluation."""
    k = t[0]
    if k == "f":
        return ("f", t[1], tuple(map(fold, t[2])), tuple(map(fold, t[3])))
    if k == "l":
        return ("l", tuple(map(fold, t[1])))
    if k == "c":
        return ("c", fold(t[1]), fold(t[2]))
    if k == "u":
        t = ("u", t[1], fold(t[2]))
    elif k == "o":
        t = ("o", t[1], fold(t[2]), fold(t[3]))
    if k in "uo" and all(x[0] in "nb" for x in t[2:]):
        try:
            return ref.evaluate(t, {})
        except (ref.RefError, ref.Limit, AssertionError):
            return t
    return t


def fold_statement(st):
    if st is None:
        return None
    if st[0] in ("if", "while", "for"):
        blocks = tuple(tuple(map(fold_statement, b)) if b else () for b in st[2:])
        return (st[0], fold(st[1])) + (blocks[:1] if blocks[1:] == ((),) else blocks)
    return (st[0], fold(st[1]))


def normal(text):
    """The program a text denotes."""
    out = {"belief": [], "rule": [], "goal": [], "plan": []}
    for item in grammar.flatten(grammar.parse(text)):
        if item[0] == "plan":
            label, trigger, head, ctx, body = item[1:]
            item = ("plan", label and fold(label), trigger, fold(head), ctx and fold(ctx), tuple(map(fold_statement, body or ())))
        else:
            item = (item[0],) + tuple(map(fold, item[1:]))
        out[item[0]].append(item)
    return out


def read(text):
    log = agentspeak.Log(agentspeak.get_logger("mc"), 3)
    src = impl.source("x.asl", text)
    ast = agentspeak.parser.parse(src.name, agentspeak.lexer.TokenStream(src, log), log)
    log.throw()
    return ast


def judge(text, stats):
    stats.state(text)
    stats.step()
    try:
        want = normal(text)
    except grammar.Unknown:
        return None
    try:
        ast = read(text)
    except impl.ERRORS as e:
        ok, why = grammar.verdict(text)
        if ok:
            return "%r is not read: %r" % (text, e)
        stats.count("not_a_program")
        return None
    printed = str(ast)
    try:
        got = normal(printed)
    except grammar.Reject as e:
        return "%r is printed as\n%s\nwhich is no program: %s" % (text, printed, e)
    if got != want:
        return "%r is printed as\n%s\nwhich differs: %r, expected %r" % (text, printed, diff(got, want), diff(want, got))
    try:
        again = str(read(printed))
    except impl.ERRORS as e:
        return "%r is printed as\n%s\nwhich can not be read: %r" % (text, printed, e)
    if normal(again) != want:
        return "%r is printed as\n%s\nand then as\n%s" % (text, printed, again)
    # Single plans and terms are printed on their own when they are exchanged.
    for plan, w in zip(ast.plans, want["plan"]):
        one = normal(str(plan) + ".")["plan"]
        if one != [w]:
            return "plan %r is printed as\n%s" % (w, plan)
    stats.validated += 1
    return None


def diff(a, b):
    return [x for k in a for x in a[k] if x not in b[k]]


# ---- expressions

OPS = ("+", "-", "*", "/", "div", "mod", "**")


def exprs(depth, leaves, ops=OPS, unary=("-", "+")):
    if depth == 0:
        for l in leaves:
            yield l
        return
    smaller = list(exprs(depth - 1, leaves, ops, unary))
    for l in leaves:
        yield l
    for u in unary:
        for a in smaller:
            yield ("u", u, a)
    for op in ops:
        for a, b in itertools.product(smaller, repeat=2):
            yield ("o", op, a, b)


# Every position an expression can have.
PLACES = {
    "arg": lambda e: "+!g(X) <- .a(%s)." % e(1), "cmp": lambda e: "+!g(X) : %s == %s <- b." % (e(5), e(5)), "list": lambda e: "+!g(X) <- .a([%s, 1], [%s|[%s]])." % (e(2), e(2), e(2)),
    "annot": lambda e: "+!g(X) <- +p[%s, f(%s)]." % (e(1), e(1)), "uni": lambda e: "r(X) :- Y = %s & %s < 2 * X." % (e(5), e(5)), "deep": lambda e: "+!g(X) <- if (p(%s)) {!h(%s)} else {?k(f(%s))}." % (e(1), e(1), e(1)),
    "tail": lambda e: "+!g(X) <- .a([%s|X], [1|[%s|X]], [X|%s|[]], [f([%s|[X|Y]])|%s])." % (e(2), e(2), e(2), e(2), e(2)),
    "chain": lambda e: "+!g(X) : 0 < %s <= X." % e(5),
}


def gen_exprs(tier):
    leaves = (X, N(1), N(-2), N(2.5))
    for e in exprs(2, leaves[:3]):
        yield ["arg", e, 0]
    for p in PLACES:
        for e in exprs(1, leaves):
            yield [p, e, 0]
            yield [p, e, 1]
    for e in exprs(2, leaves[:2], ("-", "*", "div", "**"), ("-",)):
        for p in ("cmp", "list", "chain"):
            yield [p, e, 0]
    for e in exprs(2, (X, N(-2)), OPS, ("-",)):
        yield ["annot", e, 1]
    if tier == "thorough":
        for p in PLACES:
            for e in exprs(2, leaves):
                yield [p, e, 0]
                yield [p, e, 1]
        for e in exprs(3, (X, N(-1)), ("-", "/", "**"), ("-",)):
            yield ["arg", e, 0]


def run_exprs(case, stats):
    place, e, style = ref.tup(case)
    return judge(PLACES[place](lambda need: syntax.term(e, need) if style == 0 else ref.text(e)), stats)


# ---- queries

def atoms(tier):
    return [("lit", F("p", X)), ("true",), ("cmp", "<", X, ("o", "-", Y, N(1))), ("uni", X, F("f", Y)), ("lit", Z), ("act", ".a", (X, S("b"))), ("false",), ("cmp", "==", N(1), N(1)), ("lit", F("p", annots=(F("q", X),)))]


def queries(depth, leaves):
    for l in leaves:
        yield l
    if depth == 0:
        return
    smaller = list(queries(depth - 1, leaves))
    for a in smaller:
        yield ("not", a)
    for a, b in itertools.product(smaller, repeat=2):
        yield ("and", a, b)
        yield ("or", a, b)


QPLACES = {"ctx": "+!g(X) : %s <- b.", "rule": "r(X) :- %s.", "if": "+!g(X) <- if (%s) {a}; b.", "for": "+!g(X) <- for (%s) {a} b.", "while": "+!g(X) <- while (%s) {}; b.", "stmt": "+!g(X) <- %s; b.", "arg": "+!g(X) <- .count(%s, Y)."}


def gen_queries(tier):
    leaves = atoms(tier)
    for p in QPLACES:
        for q in queries(1, leaves):
            yield [p, q, 0]
            yield [p, q, 1]
    for q in queries(2, leaves[:4]):
        yield ["ctx", q, 0]
    for p in QPLACES:
        for q in queries(2, leaves[:2] if tier != "thorough" else leaves[:5]):
            yield [p, q, 0]
    if tier == "thorough":
        for q in queries(3, leaves[:1] + leaves[2:3]):
            yield ["rule", q, 0]


def run_queries(case, stats):
    place, q, style = ref.tup(case)
    return judge(QPLACES[place] % (syntax.query(q) if style == 0 else ref.qtext(q)), stats)


# ---- whole programs

SIMPLE = [("+", F("p", X)), ("-", F("p", W)), ("-+", F("n", ("o", "+", X, N(1)))), ("!", F("h", S("a\nb"))), ("!!", F("h")), ("?", F("p", X)), ("q", ("lit", F("p", X))),
          ("q", ("act", ".print", (S('q"'), X))), ("+", X), ("q", ("uni", X, N(-1))), ("q", ("or", ("lit", F("a")), ("lit", F("b")))), ("!", F("h", annots=(F("x"),)))]
C0 = ("lit", F("c", X))


def structures(depth, leaves):
    """Statements with nested control structures."""
    for l in leaves:
        yield l
    if depth == 0:
        return
    smaller = list(structures(depth - 1, leaves))
    bodies = [()] + [(s,) for s in smaller] + [(smaller[-1], leaves[0])]
    for b in bodies:
        yield ("for", C0, b)
        yield ("while", C0, b)
        yield ("if", C0, b)
        for e in bodies[:4] + bodies[-3:]:
            yield ("if", C0, b, e)


def gen_programs(tier):
    for h, c in itertools.product(c12.HEADS, c12.CTXS):
        yield ["plan", h, c, "emit"]
    for h, b in itertools.product(c12.HEADS, c12.BODIES):
        yield ["plan", h, "c", b]
    for c, b in itertools.product(c12.CTXS, c12.BODIES):
        yield ["plan", "lab", c, b]
    for s in SIMPLE:
        for t in SIMPLE:
            yield ["body", [s, t]]
    for s in structures(2, SIMPLE[:2] if tier != "thorough" else SIMPLE[:6]):
        yield ["body", [s]]
        yield ["body", [s, SIMPLE[0]]]
        yield ["body", [SIMPLE[1], s, ("if", C0, ())]]
    for items in itertools.product(range(len(ITEMS)), repeat=3 if tier != "thorough" else 4):
        yield ["items", items]


ITEMS = ["p(1, -2).", "q.", "r(X) :- p(X) & not q.", "!g(1).", "!h.", "+!g(X) <- a.", "@l +!h : true.", "{begin d(1)} p(3). +!g(1). {end}", 'p("a", [b, [c]])[s(1)].']


def run_programs(case, stats):
    kind = case[0]
    case = ref.tup(case)
    if kind == "plan":
        plan = c12.HEADS[case[1]] + (c12.CTXS[case[2]], c12.BODIES[case[3]])
        return judge(syntax.plan(plan), stats) or judge(ref.plan_text(plan), stats)
    if kind == "body":
        plan = (None, "+!", F("g", X), None, case[1])
        return judge(syntax.plan(plan), stats) or judge(ref.plan_text(plan), stats)
    return judge("\n".join(ITEMS[i] for i in case[1]), stats)


# ---- strings and terms

CHARS = ['"', "\\", "\n", "\t", "\r", "\0", "\x07", "\x1b", "\x7f", "\x85", "\xa0", "\u00e9", "\u2028", "\u20ac", "\U0001f600", "'", "n", "x", "u", "N", "{", "}", "0", "7", "4", "1", "/", "*", "#", " ", "a", "%", "."]
NUMBERS = [0.0, 1.0, -1.0, 10.0, -0.5, 0.1, 1e15, 1e16, -1e21, 1e22, 1e23, 1e-5, -1e-7, 5e-324, 1.7976931348623157e308, 123456789.125, 2.0 ** 53, 2.0 ** 53 - 1, -(2.0 ** 63), 1 / 3.0, 1e100, 100.0]


def gen_strings(tier):
    for n in range(3):
        for s in itertools.product(CHARS, repeat=n):
            yield ["".join(s)]
    for s in itertools.product(CHARS if tier == "thorough" else CHARS[:6] + CHARS[16:20] + CHARS[22:25], repeat=3):
        yield ["".join(s)]
    few = CHARS[:3] + CHARS[16:19] + CHARS[22:24]
    for s in itertools.product(few if tier == "thorough" else few[:4], repeat=5 if tier == "thorough" else 4):
        yield ["".join(s)]


def run_strings(case, stats):
    s = case[0]
    return read_back(s, stats) or text_back(s, stats)


def text_back(s, stats):
    """A string literal in a program survives printing the program."""
    text = "+!g <- .a(%s)." % ref.quote(s)
    if "\0" in s or "\r" in s or "\n" in text[1:-1]:
        text = "+!g <- .a(%s)." % agentspeak.asl_repr(s)
    msg = judge(text, stats)
    if msg:
        return msg
    got = grammar.parse(str(read(text)))[0][5][0][1][2][0]
    if got != ("s", s):
        return "the string %r becomes %r" % (s, got)
    return None


def read_back(term, stats):
    """Prints a ground term and reads it in a belief, in a list and as a message would be read."""
    want = impl.to_ref(term)
    texts = set([agentspeak.asl_repr(term)])
    if not isinstance(term, (str, bool, int, float, tuple)):
        texts.add(str(term))
    for text in texts:
        stats.state(text)
        stats.step()
        env = agentspeak.runtime.Environment()
        try:
            agent = env.build_agent(impl.source("x", "p(%s, [%s])." % (text, text)), agentspeak.stdlib.actions)
        except impl.ERRORS as e:
            return "%r is printed as %s, which can not be read: %r" % (term, text, e)
        beliefs = [b for bs in agent.beliefs.values() for b in bs]
        got = impl.to_ref(beliefs[0].args[0])
        if got != want or type_of(beliefs[0].args[0]) != type_of(term) or impl.to_ref(beliefs[0].args[1]) != ("l", (want,)):
            return "%r is printed as %s, which is read as %r" % (want, text, got)
        if not agentspeak.terms_equal(beliefs[0].args[0], term) if hasattr(agentspeak, "terms_equal") else beliefs[0].args[0] != term:
            return "%r is printed as %s, which is read as something different" % (want, text)
        try:
            mine = grammar.parse("p(%s)." % text)[0][1][2][0]
        except grammar.Unknown:
            continue
        except grammar.Reject as e:
            return "%r is printed as %s, which is no term: %s" % (want, text, e)
        if ref.resolve(mine, {}) != want:
            return "%r is printed as %s, which means %r" % (want, text, mine)
    stats.validated += 1
    return None


def type_of(t):
    if isinstance(t, bool):
        return "bool"
    if isinstance(t, (int, float)):
        return "number"
    return type(t).__name__


def gen_terms(tier):
    consts = [N(x) for x in NUMBERS] + [S(x) for x in ("", "a", "-1", "true", '"', "\\", "]", "a, b", "é")] + [B(True), B(False), F("a"), F("trueish"), F("~a"), F("a.b"), F("nots"), L()]
    for c in consts:
        yield [c]
        for w in range(7):
            yield [wrap(w, c, N(1))]
    for a, b in itertools.product(consts, repeat=2):
        yield [F("f", a, b)]
        yield [L(a, b)]
        yield [F("p", annots=(a, b))]
    few = consts if tier == "thorough" else consts[::4]
    for a, b in itertools.product(few, repeat=2):
        for w, v in itertools.product(range(7), repeat=2):
            yield [wrap(w, wrap(v, a, b), b)]


def wrap(w, a, b):
    return [F("f", a), L(a), F("f", F("g", b), a, annots=(b,)), L(L(b), a), F("a", annots=(a,)), F("a", b, annots=(F("source", a), F("z"))), L(F("f", a, annots=(L(b),)), L())][w]


def run_terms(case, stats):
    return read_back(impl.from_ref(ref.tup(case[0]), {}), stats)


# ---- sizes

FLAT = ("sum", "csum", "and", "or", "chain", "seq", "args", "beliefs", "string", "comment", "tails")


def gen_scale(tier):
    for k in c13.NESTED:
        for n in scale.sizes(tier, 129 if k in FLAT else 24):
            yield ["text", k, n]
    for prop, families in scale.FAMILIES.items():
        for name, (f, most) in families.items():
            for n in (3, 17, 40) if tier != "thorough" else (2, 5, 9, 17, 25, 33, 64):
                if n <= most:
                    yield ["family", prop + name, n]
    for n in scale.sizes(tier, 300):
        yield ["terms", "", n]


def run_scale(case, stats):
    kind, k, n = case
    if kind == "text":
        text = c13.NESTED[k](n)
        try:
            log = agentspeak.Log(agentspeak.get_logger("mc"), 3)
            agentspeak.parser.parse("x", agentspeak.lexer.TokenStream(impl.source("x", text), log), log)
            log.throw()
        except impl.ERRORS:
            return None
        return judge(text, stats)
    if kind == "family":
        texts = []
        for c in scale.FAMILIES[k[:3]][k[3:]][0](n):
            texts += [t for _, t in c.texts]
        for t in sorted(set(texts), key=texts.index)[::1 + len(texts) // 20]:
            msg = judge(t, stats)
            if msg:
                return msg
        return None
    deep = N(1)
    for i in range(min(n, 60)):
        deep = [F("f", deep), L(deep), F("g", N(i), deep, annots=(F("a"),))][i % 3]
    for t in (L(*[N(i) for i in range(n)]), F("f", *[S("s%d" % i) for i in range(n)]), F("f", annots=[F("a%d" % i) for i in range(n)]), S("ab\"" * n), S("\\" * n), S("\n" * n), N(2.0 ** n), N(2.0 ** -n), N(1 + 2.0 ** -n), N(10.0 ** n), N(-10.0 ** n - 1),
              N(10.0 ** -n), N(n / 7.0), N(n + 0.5), N(-n), F("f" + "a" * n), deep, S(chr(32 + n)), S(chr(0x2000 + n)), S(chr(0x1f000 + n)), S("x" + chr(n) + "1")):
        msg = read_back(impl.from_ref(t, {}), stats)
        if msg:
            return msg
    return None


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.stdlib


SUITES = {"exprs": (gen_exprs, run_exprs), "queries": (gen_queries, run_queries), "programs": (gen_programs, run_programs),
          "strings": (gen_strings, run_strings), "terms": (gen_terms, run_terms), "scale": (gen_scale, run_scale)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
