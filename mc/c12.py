"""C12: plans exchanged between agents behave as they would at their origin."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
from ref import N, S, B, V, W, F, L, C
import ref
import scale
import syntax
import c10

PROPERTY = "C12"
RULE = ("transfer: every plan of a grammar (heads and labels x contexts x bodies) under every way of transferring it (told, asked for, relayed over "
        "two agents, or written in the program), followed by a fixed set of events; histories: every sequence of plan messages up to a length; "
        "texts: every single-token edit of plan texts; a state is a distinct prefix of the observations of a case, a transition a step of an agent")
DESIGN = ("plan exchange is part of the model (a text stands for a plan, appended to the receiver's plans); plans are printed with a minimal "
          "and a fully parenthesised printer of the check's own. Runs continue after errors, which are part of the trace. For edited texts "
          "acceptance is compared with loading the same text as a program.")
ASSUMPTIONS = ["a plan message carries exactly one plan", "untelling names a label as text starting with @"]

X, Y, Z, T, H = V("X"), V("Y"), V("Z"), V("T"), V("H")
emit, lit, act = c10.emit, c10.lit, c10.act
AG, R, SS = F("ag"), F("r"), F("s")


def G(*a, **kw):
    return F("g", *a, **kw)


def o(a, op, b):
    return ("o", op, a, b)


HEADS = {
    "var": (None, "+!", G(X)), "lab": ("l1", "+!", G(X)), "labt": ("l(1)[a, b(2)]", "+!", G(X)), "one": (None, "+!", G(N(1))),
    "neg": (None, "+!", G(N(-1))), "str": (None, "+!", G(S('a"\\b'))), "pair": (None, "+!", G(F("f", X, X))), "list": (None, "+!", G(L(X, Y))),
    "cons": (None, "+!", G(C(X, T))), "wild": (None, "+!", G(W)), "ann": (None, "+!", G(X, annots=(F("k", Y),))), "none": (None, "+!", F("g")),
    "bel": (None, "+", F("b", X)), "rem": ("l2", "-", F("b", X)), "test": (None, "+?", G(X)), "src": (None, "+", F("b", X, annots=(F("source", Y),))),
    "two": (None, "+!", G(X, Y)), "bool": (None, "+!", G(B(True))), "neg~": (None, "+!", F("~g", X)), "half": (None, "+!", G(N(0.5))),
}
CTXS = {
    "": None, "true": ("true",), "c": lit(F("c", Y)), "cX": lit(F("c", X)), "not": ("not", lit(F("c", X))),
    "and": ("and", lit(F("c", Y)), ("not", lit(F("d", Y)))), "or": ("or", lit(F("c", X)), lit(F("d", Y))),
    "mix": ("and", ("or", lit(F("c", Y)), lit(F("d", Y))), ("not", ("and", lit(F("c", Y)), lit(F("d", X))))),
    "cmp": ("cmp", "==", o(o(N(7), "-", o(N(2), "-", N(1))), "-", N(3)), N(3)), "pow": ("cmp", "==", ("u", "-", o(N(2), "**", o(N(1), "*", N(2)))), N(-4)),
    "neq": ("cmp", "\\==", X, S('a"\\b')), "uni": ("uni", Y, F("f", X, L(N(-1), C(Z, L(N(2)))))), "mem": ("act", ".member", (Y, L(N(1), S("x\n"), F("a")))),
    "own": ("act", ".own", (X,)), "rule": lit(F("rl", Y)), "false": ("false",), "src": lit(F("c", Y, annots=(F("source", Z),))),
    "prod": ("cmp", "<", o(o(N(1), "+", N(2)), "*", N(3)), o(N(1), "+", o(N(2), "*", N(5)))), "ann": lit(F("e", Y, annots=(F("k", Z),))),
}
E2 = (emit(X, Y), )
BODIES = {
    "": (), "emit": E2, "str": (emit(S("q\"\\\n\u00e9"), X),), "esc": (emit(S("\\n"), S("a\\\\"), S("'\t'")),), "neg": (emit(N(-2), o(N(1), "-", N(-2)), N(2.5), N(1e20)),),
    "ops": (emit(o(N(2), "-", o(N(1), "-", N(1))), o(o(N(2), "**", N(3)), "**", N(2)), o(N(2), "**", o(N(3), "**", N(2))), o(o(N(7), "div", N(2)), "mod", N(2)), o(N(7), "/", o(N(2), "*", N(2)))),),
    "if": (("if", lit(F("c", X)), (emit(S("y")),), (emit(S("n")),)), emit(S("z"))), "ifn": (("if", ("not", ("or", lit(F("c", X)), lit(F("d", X)))), (emit(S("y")),)), emit(S("z"))),
    "for": (("for", lit(F("c", Z)), (emit(Z), ("if", lit(F("d", Z)), (emit(S("d")),), ()))), emit(S("z"))), "fore": (("for", lit(F("c", Z)), ()), emit(S("z"))),
    "while": (("+", F("n", N(0))), ("while", ("and", lit(F("n", Z)), ("cmp", "<", Z, N(2))), (emit(Z), ("-+", F("n", o(Z, "+", N(1)))))), ("-", F("n", W))),
    "else": (("if", ("false",), (), (("for", act(".range", N(2), Z)[1], (("if", ("true",), (emit(Z),), None),)), emit(S("e")))),), "nested": (("if", ("true",), (("if", ("false",), (emit(S("i")),)),), (emit(S("n")),)), emit(S("z"))),
    "sub": (("!", F("h", X, Z)), emit(Z)), "late": (("!!", F("h", X, X)), emit(S("z"))), "test": (("?", F("c", Z)), emit(Z)), "bel": (("+", F("m", X)), emit(S("p")), ("-", F("m", Z)), emit(Z)),
    "own": (act(".own", X), emit(S("o"))), "bind": (("q", ("uni", X, F("res", Y))), emit(X)), "fail": (emit(S("f")), act(".fail"), emit(S("no"))), "send": (act(".my_name", Z), act(".send", Z, F("tell"), F("m", N(1))), emit(Z)),
    "atom": (("q", ("or", act(".own", X)[1], ("act", ".emit", (S("w"),)))), emit(S("z"))), "cond": (("q", ("and", ("cmp", ">", o(N(1), "+", N(1)), N(1)), ("not", lit(F("c", N(7)))))), emit(S("z"))),
    "lists": (emit(L(N(1), L(), C(N(1), L(S("]")))), C(F("a"), Y)),), "find": (act(".findall", F("p", Z), F("c", Z), Y), emit(Y)), "bool": (emit(B(True), B(False)),),
}
EVENTS = (("!", G(N(1))), ("!", G(S('a"\\b'))), ("!", G(N(-1))), ("!", G(F("f", N(1), N(1)))), ("!", G(F("f", N(1), N(2)))), ("!", G(L(N(1), N(2)))), ("!", G(L())),
          ("!", G(N(1), annots=(F("k", N(3)),))), ("!", F("g")), ("+", F("b", N(1))), ("-", F("b", N(1))), ("?", G(N(1))), ("!", G(N(1), N(2))), ("!", G(B(True))),
          ("!", F("~g", N(1))), ("!", G(N(0.5))), ("!", G(V("U"))))
FACTS = (F("c", N(1)), F("c", N(3), annots=(F("source", F("me")),)), F("d", N(3)), F("e", N(2), annots=(F("k", N(5)), F("j"))))
RULES = ((F("rl", Y), ("and", lit(F("c", Y)), lit(F("d", Y)))),)


def fire(events):
    """Every event in an intention of its own."""
    plans = [(None, "+!", F("start"), None, tuple(("!!", F("ev", N(i))) for i in range(len(events))))]
    plans += [(None, "+!", F("ev", N(i)), None, (e, emit(S("done"), N(i), V("U")))) for i, e in enumerate(events)]
    return tuple(plans)


OWN = ((None, "+!", F("h", X, Y), None, (emit(S("h"), X), ("q", ("uni", Y, F("hr", X))))),
       (None, "+", F("b", N(1), annots=(F("source", F("ag")),)), None, (emit(S("msg")),)))


def registries(trace):
    def extra(actions, trace):
        @actions.add(".own", 1)
        def _own(agent, term, intention):
            trace.append((agent.name, ("s", "own")))
            yield
    mine = impl.make_actions(trace, extra=extra)
    return {"r": mine}


def model_own(world, agent, args, s):
    if agent.name == "r":
        world.emit((agent.name, ("s", "own")))
        yield s
    else:
        # Not an action of this agent.
        for r in agent.query_term(F(".own", *args), s):
            yield r


def conform(programs, texts, stats, plans, asks):
    def prepare(world):
        world.PLANS = plans
        world.ASKS = asks
    return impl.conform(programs, stats, texts=texts, faults=True, registries=registries, prepare=prepare, cached=True,
                        model_actions={".own": model_own})


# ---- transfer of one plan

def gen_transfer(tier):
    modes = ("tell", "ask", "relay", "program")
    if tier == "thorough":
        for m, h, c, b in itertools.product(modes, HEADS, CTXS, BODIES):
            for style in (0, 1):
                yield [m, h, c, b, style, 0]
        for m, h, c in itertools.product(modes[:3], HEADS, CTXS):
            yield [m, h, c, "emit", 0, 1]
        return
    for m in modes:
        for h, c in itertools.product(HEADS, CTXS):
            yield [m, h, c, "emit", 0, 0]
        for h, b in itertools.product(HEADS, BODIES):
            yield [m, h, "c", b, 0, 0]
        for c, b in itertools.product(CTXS, BODIES):
            yield [m, "var", c, b, 0, 0]
    for m in modes[:2]:
        for b in BODIES:
            yield [m, "ann", "cX", b, 1, 0]
        for c in CTXS:
            yield [m, "lab", c, "ops", 1, 0]
        for h in HEADS:
            yield [m, h, "c", "emit", 0, 1]


def run_transfer(case, stats):
    mode, h, c, b, style, pre = ref.tup(case)
    plan = HEADS[h] + (CTXS[c], BODIES[b])
    printer = syntax.plan if style == 0 else ref.plan_text
    t = printer(plan)
    name = "+!%s(X)" % plan[2][1] if h != "none" else plan[2][1]
    own = OWN + fire(EVENTS)
    if pre:
        own = ((None, "+!", G(N(1)), ("not", lit(F("c", N(2)))), (emit(S("first")),)),) + own
    start = ("!", F("start"))
    base = lambda *ps: (FACTS, RULES, (), own + ps)
    go = lambda *st: (None, "+!", F("go"), None, st)
    ask = lambda who: act(".send", who, F("askHow"), S(name))
    tell = lambda who: act(".send", who, F("tellHow"), S(t))
    if mode == "program":
        progs = [("r", (FACTS, RULES, (F("start"),), own + (plan,)))]
        texts = [("r", syntax.program((FACTS, RULES, (F("start"),), own)) + t)]
    elif mode == "tell":
        progs = [("ag", ((), (), (F("go"),), (go(tell(R), act(".send", R, F("achieve"), F("start"))),))), ("r", base())]
    elif mode == "ask":
        progs = [("ag", ((), (), (), (plan,))), ("r", (FACTS, RULES, (F("go"),), own + (go(ask(AG), start),)))]
        texts = [("ag", t), ("r", syntax.program(progs[1][1]))]
    else:
        progs = [("ag", ((), (), (F("go"),), (go(tell(SS), act(".send", R, F("achieve"), F("go"))),))), ("s", ((), (), (), ())),
                 ("r", base(go(ask(SS), start)))]
    if mode in ("tell", "relay"):
        texts = [(n, syntax.program(p)) for n, p in progs]
    return conform(progs, texts, stats, {t: plan}, {name: plan[2][1]})


# ---- histories of plan messages

def labelled(label, tag, ctx=None, trig="+!", head=G(X)):
    return (label, trig, head, ctx, (emit(S(tag), X),))


TOLD = {
    "a": labelled("l1", "A", ("cmp", "\\==", X, N(3))), "a2": labelled("l1", "A2"), "b": labelled("l2", "B"), "n": labelled(None, "N", ("cmp", "==", X, N(1))),
    "bel": labelled("l1", "L", None, "+", F("b", X)), "l1x": labelled("l1x", "LX"), "h": labelled(None, "HH", None, "+!", F("gg", X)),
}
MALFORMED = {"bad1": "+!g(X) <- .emit(1)", "bad2": "+!g(X) <- .emit(1; .emit(2).", "bad3": "", "bad4": "g(X).", "bad5": "+!g(1 + X) <- .emit(1).",
             "bad6": "+!g(X) <- .emit(1). +!g(X) <- .emit(2).", "bad7": "+!g(X) : 1 <- .emit(1).", "bad8": "+!g(X) <- .emit(1). x", "bad9": '+!g(X) <- "a" + 1.'}
HOPS = {k: ("tell", k) for k in TOLD}
HOPS.update({k: ("text", k) for k in MALFORMED})
HOPS.update({"u1": ("untell", "@l1"), "u2": ("untell", "@l2"), "u1x": ("untell", "@l1x"), "u?": ("untell", "@g"), "ul": ("untell", "l1"), "u@": ("untell", "@"),
             "q": ("ask", "+!g(X)"), "q?": ("ask", "+!unknown(X)"), "qb": ("ask", "+b(X)"), "qgg": ("ask", "+!gg(X)"), "q0": ("ask", "+!"), "qself": ("askself", "+!g(X)"),
             "ev": ("event", None), "both": ("both", "a"), "relay": ("relay", "+!g(X)")})
ASKS = {"+!g(X)": "g", "+!unknown(X)": "unknown", "+b(X)": "b", "+!gg(X)": "gg", "+!": None}
# What agent s offers.
OFFER = (labelled("l1", "S1", ("cmp", "==", X, N(2))), labelled(None, "S2"), labelled(None, "Sb", None, "+", F("b", X)), labelled("l2", "Sg", None, "+!", F("gg", X)))
WIDE = (labelled(None, "S3", None, "+!", G(X, Y)), labelled("l1", "S4", None, "+?", G(X)), labelled(None, "S5", None, "+", G(X)), labelled("l3", "S6", None, "+!", F("g")),
         labelled(None, "S7", None, "+!", F("~g", X)), labelled(None, "S8", ("cmp", "==", Y, N(3)), "+!", G(X, Y)), labelled(None, "S9", None, "-", G(X)))
TRIES = (("!", G(N(1))), ("!", G(N(2))), ("!", G(N(3))), ("+", F("b", N(1))), ("-", F("b", N(1))), ("!", F("gg", N(1))))
WTRIES = (("!", G(N(1), N(2))), ("?", G(N(1))), ("+", G(N(1))), ("-", G(N(1))), ("!", F("g")), ("!", F("~g", N(1))))


def gen_histories(tier):
    ops = list(HOPS)
    for n in (1, 2):
        for h in itertools.product(ops, repeat=n):
            for own in (0, 1, 2):
                yield [own, h]
    few = ("a", "a2", "b", "n", "bel", "bad1", "u1", "u2", "q", "qb", "ev", "both")
    deep = few if tier == "thorough" else few[:1] + few[2:4] + few[6:7] + few[8:9] + few[10:11]
    for h in itertools.product(ops, repeat=3):
        yield [0, h]
    for h in itertools.product(deep, repeat=4):
        yield [1, h]


def run_histories(case, stats):
    own, h = ref.tup(case)
    plans = {syntax.plan(p): p for p in TOLD.values()}
    ag, phases, r = [], [], list(fire(TRIES + (WTRIES if own == 2 else ())))
    if own == 1:
        r = [labelled("l1", "own1", ("cmp", "==", X, N(1))), labelled("l2", "own2", ("cmp", "==", X, N(2)))] + r
    for i, name in enumerate(h + ("ev",)):
        kind, x = HOPS[name]
        if kind == "event":
            phases.append(("r", F("start")))
            continue
        who = {"ask": "r", "askself": "r", "relay": "r"}.get(kind, "ag")
        content = S({"tell": lambda: syntax.plan(TOLD[x]), "both": lambda: syntax.plan(TOLD[x]), "text": lambda: MALFORMED[x]}.get(kind, lambda: x)())
        force = {"untell": "untellHow", "ask": "askHow", "askself": "askHow", "relay": "askHow"}.get(kind, "tellHow")
        to = {"both": L(R, SS), "ask": SS, "relay": L(SS, R)}.get(kind, R)
        (ag if who == "ag" else r).append((None, "+!", F("op", N(i)), None, (act(".send", to, F(force), content), emit(S("sent"), N(i)))))
        phases.append((who, F("op", N(i))))
    progs = [("ag", ((), (), (), tuple(ag))), ("r", ((), (), (), tuple(r))), ("s", ((), (), (), OFFER + (WIDE if own == 2 else ())))]
    texts = [(n, syntax.program(p)) for n, p in progs]

    def prepare(world):
        world.PLANS = plans
        world.ASKS = ASKS
    return impl.conform(progs, stats, texts=texts, faults=True, registries=registries, prepare=prepare, cached=True, phases=phases, model_actions={".own": model_own})


# ---- edited texts

TEXTS = ['@l +!g(X) : c(X) & not d(Y) <- .emit("a", -1); if (c(X)) {.emit(X)} else {!h(X)}; for (c(Y)) {+n(Y);}; -+n(2).',
         '+b(X)[source(Y)] : X = [1|Z] | X > 2 <- while (not n(1)) {+n(1)}; ?c(Y); !!h(X, [Y, 1]).',
         '-b(_) <- .emit(1 - 2 * 3 ** -X).', '+?t(f(X), "s") : true.', '@l(1)[a] +!g <- -n(X).', "+!g(X) <- .emit(X)."]
EXTRA = [".", ",", ";", "(", ")", "[", "]", "{", "}", "|", "&", "+", "-", "!", "?", ":", "<-", "@", "X", "g", "1", '"s"', "not", "true", "if", "else", "*", "=", ":-", '"', "include", "begin", "/*", "//"]


def tokens(text):
    import re
    return re.findall(r'"[^"]*"|<-|-\+|!!|\*\*|:-|\.?[a-z]\w*|[A-Z_]\w*|\d+|\S', text)


def gen_texts(tier):
    for i, t in enumerate(TEXTS):
        toks = tokens(t)
        yield [toks]
        for k in range(len(toks)):
            yield [toks[:k] + toks[k + 1:]]
            yield [toks[:k] + [toks[k]] + toks[k:]]
            if k + 1 < len(toks):
                yield [toks[:k] + [toks[k + 1], toks[k]] + toks[k + 2:]]
            yield [toks[:k]]
            for e in EXTRA if tier == "thorough" or i >= 2 else EXTRA[::3]:
                yield [toks[:k] + [e] + toks[k + 1:]]
        for k in range(len(toks) + 1):
            for e in EXTRA if tier == "thorough" or i >= 2 else EXTRA[1::3]:
                yield [toks[:k] + [e] + toks[k:]]
        if tier == "thorough" and i >= 2:
            for k, l in itertools.combinations(range(len(toks)), 2):
                yield [toks[:k] + toks[k + 1:l] + toks[l + 1:]]
                for e, f in itertools.product(EXTRA[::2], EXTRA[::3]):
                    yield [toks[:k] + [e] + toks[k + 1:l] + [f] + toks[l + 1:]]


def count(plans):
    return sorted((repr(k), len(v)) for k, v in plans.items() if v)


def run_texts(case, stats):
    text = " ".join(case[0])
    stats.state(text)
    stats.step()
    env = agentspeak.runtime.Environment()
    actions = impl.make_actions([])
    # As a program.
    loaded = None
    try:
        agent = agentspeak.runtime.Environment().build_agent(impl.source("text", text), actions)
        plans = [p for ps in agent.plans.values() for p in ps]
        if len(plans) == 1 and not agent.intentions and not any(agent.beliefs.values()) and not any(agent.rules.values()):
            loaded = count(agent.plans)
            label = plans[0].annotation and plans[0].annotation.functor
    except impl.ERRORS:
        pass
    # As a message; the receiver already has a plan for everything.
    r = env.build_agent(impl.source("r", '@keep +!g(X) <- .emit("own"). @keep +!h(X) <- .emit(X).'), actions, name="r")
    before = count(r.plans)
    ag = env.build_agent(impl.source("ag", "!go. +!go <- .send(r, tellHow, %s)." % ref.quote(text)), actions, name="ag")
    error = None
    try:
        env.run()
    except impl.ERRORS as e:
        error = e
    after = count(r.plans)
    if loaded is None:
        if error is None:
            return "%r is not a plan, but accepted when told" % text
        if after != before:
            return "%r is rejected but changes the plans from %s to %s" % (text, before, after)
        return None
    if error is not None:
        return "%r can be loaded but not be told: %r" % (text, error)
    stats.count("accepted")
    want = dict(before)
    for k, n in loaded:
        want[k] = want.get(k, 0) + n
    if dict(after) != want:
        return "%r told: plans %s, expected %s" % (text, after, want)
    # It can be asked for and removed by its label.
    if label:
        env.build_agent(impl.source("un", '!go. +!go <- .send(r, untellHow, "@%s").' % label), actions, name="un")
        env.run()
        if count(r.plans) != before:
            return "%r untold: plans %s, expected %s" % (text, count(r.plans), before)
    stats.validated += 1
    return None


def setup():
    global impl, agentspeak
    c10.setup()
    import impl
    import agentspeak
    import agentspeak.runtime


SUITES = {"transfer": (gen_transfer, run_transfer), "histories": (gen_histories, run_histories), "texts": (gen_texts, run_texts), "scale": scale.suite(PROPERTY)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
