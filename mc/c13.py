"""C13: loading any text yields an agent or diagnostics, never a crash or partial agent."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
import ref
import grammar

PROPERTY = "C13"
RULE = ("tokens: every sequence of tokens up to a length in every syntactic context; edits: every single (thorough: also every pair of) token "
        "deletion, duplication, swap, replacement and insertion in complete programs; chars: every character sequence up to a length; several: every sequence of a few items that are fine, draw a warning or an error, and many of one before or after another; lengths: every construct that is a sequence in every length, with each token in or instead of each separator; nesting: "
        "every construct nested and chained to every depth of a range. Every text is loaded into an environment that already holds an agent of "
        "the same name; a state is a distinct text, a transition a load")
DESIGN = ("grammar.py is a second, independent definition of the language (character scanner, grammar, static rules); acceptance must agree with it, "
          "the loaded agent must hold exactly the items of the text, the only exceptions allowed are the two error classes, and a failed load must "
          "leave the environment, the agents in it and the next free name unchanged.")
ASSUMPTIONS = ["not judged, only executed: division, comparison and power of constants, =.., include of existing files, initial goals and beliefs that run code"]

CONTEXTS = {
    "prog": ("", ""), "after": ("p. +!g. ", " q."), "belief": ("p ", "."), "arg": ("p(", ")."), "arg2": ("p(a, ", "b)."), "annot": ("p[", "]."), "list": ("p([", "])."),
    "ctx": ("+!g(X) : ", " <- a."), "body": ("+!g(X) <- ", "."), "cond": ("+!g(X) <- if (", ") {a}."), "block": ("+!g(X) <- if (a) {", "}."),
    "rule": ("r(X) :- ", "."), "head": ("+", " <- a."), "label": ("@", " +!g(X)."), "dir": ("{", "}"), "begin": ("{begin x} ", " {end} p."), "incl": ("{include(", ")} p."),
    "goal": ("+!g(X) <- !", "; a."), "init": ("!", ". +!a. +!p(X)."), "after}": ("+!g(X) <- while (a) {b} ", "; c."), "else": ("+!g(X) <- if (a) {b} else ", "."), "tail": ("p([a|", "])."),
}
TOKENS = ("a ( ) [ ] { } , ; . | & + - -+ ! !! ? * ** / div not < == \\== = =.. :- : <- @ X _ 1 2.5 \"s\" true false if else while for begin end include p( ~b .c").split()
FEW = "a ( ) [ ] { } , ; . | & + - ! not < = : <- X 1 \"s\" true if else p(".split()
LEAST = "a ( ) [ ] , ; . | & - ! not < X 1 \"s\" true p(".split()

MANY = [t for i, t in enumerate(TOKENS) if t in LEAST or i % 2]

PROGRAMS = [
    'p(1, "s")[a, b(X)|Y] .', 'p(1, "s")[a, b(c)]. q([1, [2|[3]]]).', 'r(X, Y) :- p(X) & not (q(Y) | X < Y + 1 * 2) & X = f(Y, _).',
    '!go. +!go <- .print(1). ', '@l[a] +!g(X)[s] : p(X) & X > 2 | true <- +b(X); -b(_); -+c(X - 1); ?d(Y); !h; !!k(Y).',
    '+!g <- if (p(X)) {a; b;} else {} while (not c) {+c} for (d(Y)) {if (e) {f}}; .print(-2 ** X).',
    '{begin ns(x)} p. {begin y} q. {end} {end} +p : true.', '-p(X)[source(self)] <- X == 1 == 1. +?t : a.', 'p. // c\nq. /* d\n e */ r. # f\n+!g.',
]


def tokens(text):
    out = []
    pos = {}
    for t in grammar.scan(text):
        out.append(t.text)
    return out


def gen_tokens(tier):
    thorough = tier == "thorough"
    for c in CONTEXTS:
        for n, alphabet in ((0, TOKENS), (1, TOKENS), (2, TOKENS), (3, MANY if thorough and c not in ("prog", "body", "ctx", "arg") else TOKENS if thorough else FEW), (4, FEW if thorough else LEAST[:0])):
            if n == 4 and thorough and c not in ("prog", "body"):
                alphabet = LEAST[:14]
            for seq in itertools.product(alphabet, repeat=n):
                yield [c, " ".join(seq)]
    if not thorough:
        for c in ("prog", "arg", "ctx", "body"):
            for seq in itertools.product(LEAST[::2] if c == "arg" else LEAST[1::2], repeat=4):
                yield [c, " ".join(seq)]


def run_tokens(case, stats):
    c, seq = case
    pre, post = CONTEXTS[c]
    return judge(pre + seq + post, stats)


def edits(toks, alphabet):
    for k in range(len(toks)):
        yield toks[:k] + toks[k + 1:]
        yield toks[:k] + [toks[k]] + toks[k:]
        yield toks[:k]
        for e in alphabet:
            yield toks[:k] + [e] + toks[k + 1:]
            yield toks[:k] + [e] + toks[k:]
        for l in range(k + 1, len(toks)):
            yield toks[:k] + [toks[l]] + toks[k + 1:l] + [toks[k]] + toks[l + 1:]


def gen_edits(tier):
    for i, p in enumerate(PROGRAMS):
        if i in (0, 8):
            yield [p]
        if i == 0:
            continue
        toks = tokens(p)
        for e in edits(toks, TOKENS):
            yield [" ".join(e)]
        if tier == "thorough":
            for k, l in itertools.combinations(range(len(toks)), 2):
                for e, f in itertools.product(LEAST[::3], repeat=2):
                    yield [" ".join(toks[:k] + [e] + toks[k + 1:l] + [f] + toks[l + 1:])]
                yield [" ".join(toks[:k] + toks[k + 1:l] + toks[l + 1:])]
                for e in LEAST[::2]:
                    yield [" ".join(toks[:k] + toks[k + 1:l] + [e] + toks[l + 1:])]


def run_edits(case, stats):
    return judge(case[0], stats)


CHARS = 'a A 1 . _ ~ " \\ / * # e + - > < = ! | & ( ) [ , : ; @ { }'.split() + [" ", "\n", "\u00e9", "'", "\t", "\0", "\r", "\u2028"]
CHAR_CONTEXTS = {"": ("", ""), "term": ("p(", ")."), "str": ('p("', '").'), "mid": ("p", "q."), "com": ("p. /*", "*/ q."), "tail": ("p. //", "\nq.")}


def gen_chars(tier):
    for c in CHAR_CONTEXTS:
        for n in (1, 2, 3):
            for s in itertools.product(CHARS if n < 3 or tier == "thorough" else CHARS[:14], repeat=n):
                yield [c, "".join(s)]
    if tier == "thorough":
        for c in CHAR_CONTEXTS:
            for s in itertools.product(CHARS[:16], repeat=4):
                yield [c, "".join(s)]


def run_chars(case, stats):
    pre, post = CHAR_CONTEXTS[case[0]]
    return judge(pre + case[1] + post, stats)


NESTED = {
    "paren": lambda n: "p(" + "(" * n + "1" + ")" * n + ").", "struct": lambda n: "p(" + "f(" * n + "1" + ")" * n + ").", "list": lambda n: "p(" + "[" * n + "]" * n + ").",
    "cons": lambda n: "p(" + "[1|" * n + "[]" + "]" * n + ").", "tails": lambda n: "p([" + "1|" * n + "[]]).", "annot": lambda n: "p" + "[a" * n + "]" * n + ".",
    "neg": lambda n: "p(" + "- " * n + "1).", "not": lambda n: "+!g : " + "not " * n + "a.", "sum": lambda n: "+!g(X) <- .print(X" + " + X" * n + ").", "csum": lambda n: "p(1" + " + 1" * n + ").",
    "and": lambda n: "+!g : a" + " & a" * n + ".", "or": lambda n: "r :- a" + " | a" * n + ".", "pow": lambda n: "+!g(X) <- .print(X" + " ** X" * n + ").", "chain": lambda n: "+!g(X) : X" + " < X" * n + ".",
    "if": lambda n: "+!g <- " + "if (a) {" * n + "b" + "}" * n + ".", "else": lambda n: "+!g <- " + "if (a) {b} else {" * n + "b" + "}" * n + ".", "for": lambda n: "+!g <- " + "for (a) {" * n + "b" + "}" * n + ".",
    "begin": lambda n: "{begin x} " * n + "p. " + "{end} " * n, "andparen": lambda n: "r :- " + "(a & " * n + "b" + ")" * n + ".", "seq": lambda n: "+!g <- a" + "; a" * n + ".", "args": lambda n: "p(1" + ", 1" * n + ").",
    "beliefs": lambda n: "p. " * n, "open": lambda n: "p(" + "(" * n, "close": lambda n: "p" + ")" * n + ".", "braces": lambda n: "{" * n, "string": lambda n: 'p("' + "\\\\" * n + '").', "comment": lambda n: "/*" * n + " */ p.",
}


# ---- several items that each draw a warning, an error or nothing

ITEMS = ["b%d(%d).", "r%d(X) :- b(X) & %d < X.", "!g.", "+!g%d(X) <- .print(X, %d).", "+!h(X%d) : .no_such(%d) <- .no_such_either.",      # fine, or a warning
         "b(X%d, %d).", ".b%d(%d).", "{begin ns(a%d)} b(%d). {end}", "@l%d[1 - %d] +!k.", "-!g%d(%d).", "b(%d, %d) :- true.",
         "c%d(1 + a, %d).", "+!k%d(Y) <- X = \"s\" - %d.", "+!k%d : %d <- +a.", "$ b%d(%d).", "{end} b%d(%d).", "+!k%d(X - 1, %d).", "r%d(X) :- not %d.", "+!k%d <- +%d.",   # an error
         "b%d(%d", "+!k%d <- ; %d.", "{include(\"nothing%d%d\")}"]
WARN = ITEMS[4:11]


def gen_several(tier):
    n = range(len(ITEMS))
    for k in (1, 2, 3):
        for x in itertools.product(n, repeat=k):
            yield [list(x)]
    for w in itertools.product(range(4, 11), repeat=3):
        for e in n:
            if tier == "thorough" or len(set(w)) == 1 or (sum(w) + e) % 3 == 0:
                yield [list(w) + [e]]
                yield [[e] + list(w)]
    for k in range(4, 9):
        for w in range(len(ITEMS)):
            for e in n:
                yield [[w] * k + [e]]
                yield [[e] + [w] * k]
    if tier == "thorough":
        for x in itertools.product(n, repeat=4):
            yield [list(x)]


def run_several(case, stats):
    return judge("\n".join(ITEMS[k].replace("%d", "%d" % i) for i, k in enumerate(case[0])), stats)


def gen_nesting(tier):
    for c in NESTED:
        for n in (range(0, 1300) if tier == "thorough" else itertools.chain(range(0, 40, 3), range(40, 520, 17), (700, 1000, 3000, 20000))):
            yield [c, n]


def run_nesting(case, stats):
    c, n = case
    return judge(NESTED[c](n), stats, deep=n > 40)


LENGTHS = {
    "args": ("p(", ", ", ")."), "annots": ("p[", ", ", "]."), "list": ("p([", ", ", "])."), "conj": ("r :- ", " & ", "."), "disj": ("+!g : ", " | ", "."), "body": ("+!g <- ", "; ", "."), "block": ("+!g <- if (a) {", "; ", "}."),
    "sum": ("+!g : X = ", " + ", "."), "items": ("", ". ", "."), "cond": ("+!g <- while (", " & ", ") {b}."), "label": ("@l[", ", ", "] +!g."), "pow": ("+!g : 1 < ", " ** ", "."), "lists": ("p([", ", ", "])[a]."), "begin": ("{begin b(", ", ", ")} p. {end}"),
}


def gen_lengths(tier):
    """Sequences of every length with a wrong separator at every place."""
    for c in LENGTHS:
        for n in range(8 if tier == "thorough" else 6):
            yield [c, n, 0, None, False]
            for at in range(n + 1):
                for t in TOKENS:
                    for instead in (False, True):
                        yield [c, n, at, t, instead]


def run_lengths(case, stats):
    c, n, at, token, instead = case
    pre, sep, post = LENGTHS[c]
    seps = [""] + [sep] * (n - 1) + [""]
    if token is not None and at < len(seps):
        seps[at] = " " + token + " " if instead else seps[at] + " " + token + " "
    elems = [chr(97 + i) for i in range(n)]
    return judge(pre + "".join(s + e for s, e in zip(seps, elems + [""])) + post, stats)


def snapshot(env):
    return [(name, repr(sorted(map(impl.to_ref, (b for bs in a.beliefs.values() for b in bs)))), sum(map(len, a.plans.values())),
             sum(map(len, a.rules.values())), len(a.intentions)) for name, a in env.agents.items()]


BASE = 'k(1). k("s")[a]. r(X) :- k(X). +!g(X) <- +k(X). +k(2) <- .print(1).'


def judge(text, stats, deep=False):
    if len(text) < 3000:
        stats.state(text)
    stats.step()
    env = agentspeak.runtime.Environment()
    impl.build(env, "src", BASE, actions)
    before = snapshot(env)
    error = None
    try:
        agent = env.build_agent(impl.source("src.asl", text), actions)
    except impl.ERRORS as e:
        error = e
    if deep:
        try:
            want, why = grammar.verdict(text)
        except RecursionError:
            want, why = None, None
    else:
        want, why = grammar.verdict(text)
    if error is not None:
        if want is True and not deep:
            return "%r is a program, but rejected: %r" % (text, error)
        after = snapshot(env)
        if after != before:
            return "the failed load of %r changed the environment from %s to %s" % (text, before, after)
        again = env.build_agent(impl.source("src.asl", "p."), actions)
        if again.name != "src1" or list(env.agents) != ["src", "src1"]:
            return "after the failed load of %r the next agent is called %s, agents %s" % (text, again.name, list(env.agents))
        stats.count("rejected")
        stats.validated += want is False
        return None
    if want is False:
        return "%r is not a program (%s), but accepted" % (text, why)
    if list(env.agents) != ["src", "src1"] or env.agents["src1"] is not agent:
        return "%r: agents %s" % (text, list(env.agents))
    if snapshot(env)[:1] != before:
        return "loading %r changed another agent" % (text,)
    stats.count("accepted")
    if want is True and not deep:
        stats.validated += 1
        items = list(grammar.flatten(grammar.parse(text)))
        count = {}
        for i in items:
            count[i[0]] = count.get(i[0], 0) + 1
        have = (sum(map(len, agent.rules.values())), sum(map(len, agent.plans.values())), len(agent.intentions))
        if have != (count.get("rule", 0), count.get("plan", 0), count.get("goal", 0)):
            return "%r: rules, plans, goals are %s" % (text, have)
        beliefs = set(ref.text(ref.resolve(i[1], {})) for i in items if i[0] == "belief")
        if len(run_beliefs(agent)) != len(beliefs):
            return "%r: beliefs %s, expected %s" % (text, run_beliefs(agent), beliefs)
    return None


def run_beliefs(agent):
    return [impl.to_ref(b) for bs in agent.beliefs.values() for b in bs]


def setup():
    global impl, agentspeak, actions
    import impl
    import agentspeak
    import agentspeak.runtime
    actions = agentspeak.ext_stdlib.actions


SUITES = {"tokens": (gen_tokens, run_tokens), "edits": (gen_edits, run_edits), "chars": (gen_chars, run_chars), "nesting": (gen_nesting, run_nesting), "several": (gen_several, run_several), "lengths": (gen_lengths, run_lengths)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
