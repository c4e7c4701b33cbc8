"""C23: the interactive console stays usable whatever is entered."""
import harness
if __name__ == "__main__":
    harness.reexec()
import io
import itertools
import scale
import re
import sys
import time
from ref import N, S, B, V, W, F, L, C
import ref

PROPERTY = "C23"
RULE = ("statements: every sequence of up to three (thorough four) console lines over an alphabet of statements that bind, test, loop, call, fail, raise, start goals or are wrong; waits: the same over "
        "statements that suspend, wake and fail later; layout: every sequence of up to five (thorough six) pieces of statements, separators, line ends, comments and errors; garbage: every "
        "sequence of up to three lexemes as a line; deep: nested statements of every shape and depth; a state is a distinct (session, observations so far), a transition an entered line")
DESIGN = ("the real console is fed the lines; actions, beliefs, whether an error was reported, the printed values of variables and whether the prompt asks for more are compared, line by line, with a "
          "model in which each complete statement runs once as an intention sharing the variables of the session, and an error drops the rest of its line and every binding of the failed statement")
ASSUMPTIONS = ["a line with an illegal character is dropped as a whole", "the environment has a virtual clock", "comments end with their line", "a failed statement keeps the belief changes made before it failed, as any failed plan",
               "statements that suspend while others run do not bind variables in loops; printed values are judged for ground values only"]

X, Y, Z = V("X"), V("Y"), V("Z")


def act(name, *args):
    return ("q", ("act", name, tuple(args)))


def emit(*a):
    return act(".emit", *a)


def lit(t):
    return ("lit", t)


MEMBER = ("act", ".member", (X, L(N(1), N(2))))
MEMBERZ = ("act", ".member", (Z, L(N(1), N(2))))

PROGRAM = (
    (F("p", N(1)), F("p", N(2)), F("w", N(1)), F("w", N(2))),
    (),
    (),
    ((None, "+!", F("g", Y), None, (("q", ("uni", Y, N(3))),)),
     (None, "+!", F("h", Y), None, (emit(F("h"), Y),)),
     (None, "+!", F("deep", Y), None, (("q", ("uni", Y, N(8))), ("!", F("missing")))),
     (None, "+!", F("boomy", Y), None, (("q", ("uni", Y, N(4))), act(".boom"))),
     (None, "+!", F("halfway", Y), None, (emit(F("half"), Y), act(".wait", S("+go")), emit(F("way"), Y))),
     (None, "+go", F("go"), None, (emit(F("gone")),)),
     (None, "+?", F("t", Y), None, (("q", ("uni", Y, N(6))),)),
     ))

# name -> list of statements of the console line (each a body), BAD for a syntax error
BAD = "bad"
ENTRIES = {
    "x1": [(("q", ("uni", X, N(1))),)],
    "x2": [(("q", ("uni", X, N(2))),)],
    "xy": [(("q", ("uni", X, Y)),)],
    "xfy": [(("q", ("uni", X, F("f", Y))),)],
    "y3": [(("q", ("uni", Y, N(3))),)],
    "show": [(emit(X, Y),)],
    "px": [(("q", lit(F("p", X))),)],
    "testp": [(("?", F("p", X)),)],
    "tx": [(("?", F("t", X)),)],
    "addx": [(("+", F("q", X)), emit(N(0)))],
    "delp": [(("-", F("p", X)),)],
    "rep": [(("-+", F("p", Y)),)],
    "gx": [(("!", F("g", X)), emit(X))],
    "hx": [(("!!", F("h", X)), emit(N(1)))],
    "missing": [(("+", F("r", N(1))), ("!", F("missing")), ("+", F("r", N(2))))],
    "later": [(("!!", F("missing")), ("!!", F("h", Y)), emit(N(2)))],
    "xboom": [(("q", ("and", ("uni", X, N(5)), ("act", ".boom", ()))),)],
    "yfail": [(("q", ("uni", Y, N(6))), act(".fail"), emit(N(3)))],
    "forx": [(("for", MEMBER, (emit(X, Y),)),)],
    "forboom": [(("for", MEMBER, (("q", ("uni", Y, X)), act(".boom"))),)],
    "while": [(("while", lit(F("w", Z)), (("-", F("w", Z)), emit(Z))), emit(X, Z))],
    "whilefail": [(("while", lit(F("w", Z)), (("q", ("uni", Y, Z)), ("q", ("false",)))),)],
    "ifx": [(("if", lit(F("p", X)), (emit(X),), (emit(F("no")),)),)],
    "deepx": [(("!", F("deep", X)),)],
    "boomy": [(emit(Y), ("!", F("boomy", Y)), emit(Y))],
    "two": [(("q", ("uni", X, N(7))),), (emit(X, Y),)],
    "failtwo": [(("q", ("cmp", "<", X, N(5))),), (emit(F("second"), X),)],
    "gofail": [(("+", F("go")), ("q", ("false",)))],
    "bad": BAD,
    "badtwo": [(("q", ("uni", Z, N(9))),), BAD],
}
WAITS = {
    "x1": ENTRIES["x1"], "x2": ENTRIES["x2"], "show": ENTRIES["show"], "bad": BAD, "xboom": ENTRIES["xboom"], "later": ENTRIES["later"],
    "waitshow": [(act(".wait", S("+go")), emit(F("woken"), X, Y))],
    "waitboom": [(act(".wait", S("+go")), emit(F("soon"), X), act(".boom"))],
    "bindboom": [(("q", ("uni", Z, N(5))), act(".wait", S("+go")), emit(F("bad"), Z), act(".boom"))],
    "waitmissing": [(act(".wait", S("+go")), ("!", F("missing")))],
    "bindwait": [(("q", ("uni", Y, N(5))), act(".wait", S("+go")), emit(Y))],
    "halfway": [(("!", F("halfway", X)), emit(F("done"), X))],
    "halflater": [(("!!", F("halfway", X)), emit(F("started")))],
    "waitmore": [(act(".wait", S("+go")), emit(F("one"))), (act(".wait", S("+go")), emit(F("two")))],
    "go": [(("+", F("go")), emit(F("went")))],
    "gotwo": [(("+", F("go")), emit(F("went"), X)), (("-", F("go")), emit(F("back")))],
    "gofail": ENTRIES["gofail"],
    "waitms": [(act(".wait", N(1)), emit(F("slept"), X))],
    "unwait": [(act(".wait", S("+never")), emit(F("never")))],
}
BADTEXT = ["X = = 1.", ".emit(1, .", "}", "else { .emit(1) }.", "X = 1 X = 2.", ".emit(no) ) .emit(no).", "+!.", "if (true) .emit(1).", ".emit(1) $ .", "; .emit(1).", "p(1) + 1.", ".no_such_action(1).",
           "-p(X) : true.", "'", "\"abc", ". .emit(1).", "X.Y = 1.", "not 1.", "1."]


def statement_text(body):
    return "; ".join(ref.stext(st, "").strip().rstrip(";") for st in body) + "."


def body_text(body):
    return re.sub(r"\s*\n\s*", " ", statement_text(body))


class Prompt(object):
    """Feeds lines to the console and records the boundaries between them."""

    def __init__(self, lines, observe, end):
        self.lines = lines
        self.observe = observe
        self.end = end
        self.i = 0

    def __call__(self, text, *args):
        if self.i:
            self.observe(self.i - 1, text)
        self.i += 1
        if self.i > len(self.lines):
            raise self.end
        return self.lines[self.i - 1]


class Exit(Exception):
    pass


def console(lines, trace, program, end=KeyboardInterrupt, beliefs=True):
    """
    Runs the console on the lines.  Appends ("line", error reported, values printed, more wanted, beliefs) after each.
    Returns None or a message.
    """
    env = VirtualEnvironment()
    actions = impl.make_actions(trace)
    agent = env.build_agent(impl.source("con", program), actions, name="con")
    out = io.StringIO()
    err = io.StringIO()
    mark = [0]
    with impl.Capture() as cap:
        def observe(i, text):
            errors = cap.errors()
            values = {}
            for m in re.finditer(r"^([A-Z]\w*) = (.*)$", out.getvalue(), re.M):
                values[m.group(1)] = m.group(2)
            item = ("line", len(errors) > mark[0], values, ">>>" not in text,
                    sorted((impl.to_ref(b) for bs in agent.beliefs.values() for b in bs), key=repr) if beliefs else None,
                    [getattr(loc, "lineno", None) for _, loc in errors[mark[0]:]], bool(err.getvalue()))
            trace.append(item)
            mark[0] = len(errors)
            out.seek(0)
            out.truncate()
            err.seek(0)
            err.truncate()
        prompt = Prompt(lines, observe, end() if isinstance(end, type) else end)
        saved = agentspeak.util.prompt, sys.stdout, sys.stderr, time.sleep
        agentspeak.util.prompt, sys.stdout, sys.stderr, time.sleep = prompt, out, err, env.sleep
        try:
            agentspeak.runtime.repl(agent, env, actions)
            return "the console ended by itself after %d lines" % prompt.i
        except SystemExit as e:
            if prompt.i <= len(lines) or e.code not in (0, None):
                return "the console exited with %r at line %d" % (e.code, prompt.i)
        except (Exception, KeyboardInterrupt) as e:
            return "the console ended with %s: %s at line %d" % (type(e).__name__, str(e)[:200], prompt.i)
        finally:
            agentspeak.util.prompt, sys.stdout, sys.stderr, time.sleep = saved
    return None


class Cell(object):
    pass


class ConsoleFrame(ref.Frame):
    """A frame of the console: all share their variables."""
    __slots__ = ("cell",)

    @property
    def s(self):
        return self.cell.s

    @s.setter
    def s(self, value):
        if hasattr(self, "cell"):
            self.cell.s = value


class ConsoleWorld(ref.World):
    """Model of a session: lines are lists of statements, BAD ends a line; None is a line that is still incomplete."""

    def __init__(self, chooser, expected, lines):
        ref.World.__init__(self, chooser, None)
        self.items = expected
        self.lines = lines
        self.WAITS = {"+go": ("+", F("go")), "+never": ("+", F("never"))}

    def emit(self, item):
        i = len(self.trace)
        if i >= len(self.items) or not self.same(self.items[i], item):
            raise ref.Mismatch()
        self.trace.append(item)
        if len(self.trace) > 400:
            raise ref.Limit()

    def same(self, seen, want):
        if want[0] != "line" or seen[0] != "line":
            return seen == want
        _, error, values, more, beliefs = want
        if seen[1] != error or seen[3] != more or seen[4] != beliefs:
            return False
        if values is None:
            return True
        for v, t in values.items():
            if ref.is_ground(t):
                if seen[2].get(v) != ref.text(t):
                    return False
            elif t[0] == "v" and seen[2].get(v, "").lstrip("-").isdigit():
                return False
        return True

    def drive(self):
        agent = self.agent = self.add("con", PROGRAM)
        self.cell = Cell()
        self.cell.s = {}
        # The variables bound by each intention.
        self.bound = []
        self.names = []
        for line in self.lines:
            error = False
            values = None
            for st in (line or ()):
                if st == BAD:
                    error = True
                    break
                for v in sorted(names(st)):
                    if v not in self.names:
                        self.names.append(v)
                if self.statement(agent, st):
                    error = True
                    break
                values = {v: ref.resolve(V(v), self.cell.s) for v in self.names}
            self.emit(("line", error, None if error else values, line is None,
                       sorted(agent.beliefs, key=repr)))

    def statement(self, agent, body):
        f = ConsoleFrame()
        f.cell = self.cell
        f.gen = agent.run_body(f, body)
        saved = self.cell.s
        stack = [f]
        agent.queue.append(stack)
        failed = False
        while True:
            if agent.runnable() is None:
                deadlines = agent.deadlines()
                if not deadlines:
                    break
                self.now = max(self.now, min(deadlines) + 1e-6)
                continue
            try:
                self.tick()
                ready = agent.ready
                before = set(self.cell.s)
                agent.step(ready)
            except ref.RefError:
                failed = True
                if ready is stack:
                    self.cell.s = {v: t for v, t in saved.items() if v in self.cell.s}
                else:
                    # Only values are taken back; which variable stands for another one is not specified.
                    mine = [v for k, v in self.bound if k is ready]
                    if any(not ref.is_ground(ref.resolve(self.cell.s[v], self.cell.s)) for v in mine if v in self.cell.s):
                        raise ref.Limit()
                    self.cell.s = {v: t for v, t in self.cell.s.items() if v not in mine}
            self.bound += [(ready, v) for v in self.cell.s if v not in before]
        return failed


def names(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "v":
            acc.add(x[1])
        else:
            for y in x:
                names(y, acc)
    return acc


_text = []


def judge(lines, model, stats, end=KeyboardInterrupt):
    """lines: texts, model: what they mean."""
    if not _text:
        _text.append(ref.program_text(PROGRAM))
    trace = []
    msg = console(lines, trace, _text[0], end)
    stats.step(len(lines))
    shown = "\n".join(lines)
    if msg:
        return "%s\n%s" % (msg, shown)
    items = [i if i[0] == "line" else impl.canonical(i) for i in trace]
    stats.validated += 1
    stats.state((tuple(lines), len(items)))
    try:
        ok, explored, why = ref.outcomes_match(lambda ch, ex: ConsoleWorld(ch, ex, model), items, lambda w, e: "model error %r" % e if e else None)
    except (ref.Limit, ref.Cyclic):
        stats.count("outside_model")
        return None
    if not ok:
        return "session\n%s\nobserved\n%s\nis not explained by the model (longest prefix %s): %s" % (
            shown, "\n".join(map(repr, items)), why[0], "; ".join(map(str, why[1])))
    return None


# ---- statements

def gen_lines(keys, tier, deep):
    keys = sorted(keys)
    for n in (1, 2, 3):
        for i, seq in enumerate(itertools.product(keys, repeat=n)):
            if n == 3 and tier == "quick" and i % 3:
                continue
            yield list(seq)
    if tier == "thorough":
        for seq in itertools.product(deep, repeat=4):
            yield list(seq)


def gen_statements(tier):
    for i in gen_lines(ENTRIES, tier, ["x1", "xy", "xfy", "show", "px", "gx", "later", "xboom", "yfail", "forboom", "while", "deepx", "two", "bad"]):
        yield i


def gen_waits(tier):
    for i in gen_lines(WAITS, tier, ["x1", "show", "xboom", "later", "waitshow", "waitboom", "bindwait", "halfway", "halflater", "waitmore", "gotwo", "gofail"]):
        # Whether another one that runs on sees the bindings of a failed statement is not specified.
        if i.count("bindboom") < 2:
            yield i
    # Several suspended statements.
    few = ("waitboom", "waitshow", "halfway", "bindwait", "bindboom", "unwait")
    for seq in itertools.product(few, repeat=3):
        if seq.count("bindboom") > 1:
            continue
        for last in ("go", "gotwo", "gofail") if tier == "thorough" else ("go", "gotwo"):
            yield list(seq) + [last]
            if tier == "thorough":
                yield ["x1"] + list(seq) + ["show", last]


def session(entries, table):
    lines = []
    model = []
    for k, name in enumerate(entries):
        e = table[name]
        if e == BAD:
            e = [BAD]
        texts = []
        for st in e:
            texts.append(BADTEXT[(k * 7 + len(entries[0])) % len(BADTEXT)] if st == BAD else body_text(st))
        if BAD in e and len(e) > 1:
            texts[-1] = "X = = 1."
        lines.append("  ".join(texts))
        model.append(list(e))
    lines.append(".emit(X, Y, Z).")
    model.append([(emit(X, Y, Z),)])
    return lines, model


def run_statements(case, stats):
    lines, model = session(case, ENTRIES)
    return judge(lines, model, stats)


def run_waits(case, stats):
    lines, model = session(case, WAITS)
    # Values are shared with suspended statements.
    return judge(lines, model, stats, EOFError)


def gen_bad(tier):
    for b in range(len(BADTEXT)):
        for a in (None, "x1", "hx", "open"):
            for c in ("", " ", " .emit(5).", " X = 3."):
                yield [b, a, c]


def run_bad(case, stats):
    b, a, c = case
    lines = []
    model = []
    if a == "open":
        lines.append("X = 4;")
        model.append(None)
    elif a:
        lines.append(body_text(ENTRIES[a][0]))
        model.append(ENTRIES[a])
    lines.append(BADTEXT[b] + c)
    model.append([BAD])
    lines += [".emit(X, Y).", "X = 2.", ".emit(X, Y)."]
    model += [[(emit(X, Y),)], ENTRIES["x2"], [(emit(X, Y),)]]
    return judge(lines, model, stats)


# ---- layout

CHUNKS = {
    "o": ".emit(7,", "c": "X)", "e": ".emit(8, X)", "b": "X = 1", "k": "X = 2", "s": ";", "d": ".", "i": "if (true) {", "f": "for (.member(Z, [1, 2])) {", "r": "}",
    "l": "else {", "n": "\n", "z": "$", "v": "// .emit(9).", "x": ")", "m": "/* ; */",
}
STMT = {"e": emit(N(8), X), "b": ("q", ("uni", X, N(1))), "k": ("q", ("uni", X, N(2)))}


class Parse(object):
    """Incremental recogniser of the console's language over pieces."""

    def __init__(self):
        self.stack = [["top", [], None]]      # kind, statements, if statement waiting for else
        self.state = "formula"                # formula, after, afterblock, open

    def feed(self, c):
        """Returns None, "error" or the complete statement."""
        top = self.stack[-1]
        if self.state == "open":
            if c != "c":
                return "error"
            top[1].append(emit(N(7), X))
            self.state = "after"
            return None
        if self.state == "afterblock" and c == "l" and top[2] is not None:
            self.stack.append(["else", [], None])
            self.state = "block"
            return None
        if c in ("s", "d", "r"):
            if self.state in ("after", "afterblock"):
                if c == "s":
                    self.state = "formula" if top[0] == "top" else "formula or end"
                    return None
                if c == "d":
                    return tuple(top[1]) if top[0] == "top" else "error"
            if c == "r" and top[0] != "top" and self.state in ("after", "afterblock", "block", "formula or end"):
                kind, body, _ = self.stack.pop()
                parent = self.stack[-1]
                if kind == "if":
                    parent[1].append(["if", ("true",), tuple(body)])
                    parent[2] = parent[1][-1]
                elif kind == "for":
                    parent[1].append(("for", MEMBERZ, tuple(body)))
                    parent[2] = None
                else:
                    parent[2].append(tuple(body))
                    parent[2] = None
                self.state = "afterblock"
                return None
            return "error"
        if self.state == "after":
            return "error"
        if c in STMT:
            top[1].append(STMT[c])
            self.state = "after"
        elif c == "o":
            self.state = "open"
        elif c in ("i", "f"):
            self.stack.append(["if" if c == "i" else "for", [], None])
            self.state = "block"
        else:
            return "error"
        return None


def freeze(st):
    """if statements are lists while they wait for else."""
    if isinstance(st, (list, tuple)):
        return tuple(freeze(x) for x in st)
    return st


class LayoutWorld(ConsoleWorld):

    def drive(self):
        lines = self.lines
        more = [isinstance(m, tuple) and m[1] for m in lines]
        self.lines = [m[0] if isinstance(m, tuple) else m for m in lines]
        self.more = iter(more)
        ConsoleWorld.drive(self)

    def same(self, seen, want):
        if want[0] == "line":
            # A failed statement ends its line, and whatever would follow on it.
            more = next(self.more)
            want = want[:3] + (more and not want[1],) + want[4:]
        return ConsoleWorld.same(self, seen, want)


def gen_layout(tier):
    seen = set()
    if tier == "quick":
        plan = [("oebksdifrlnzvxmc", 3), ("ebkdsn", 5), ("edrifln", 5), ("eocdnxs", 5), ("ednvmzb", 5)]
    else:
        plan = [("oebksdifrlnzvxmc", 4), ("ebkdsn", 7), ("edrifln", 6), ("eocdnxs", 6), ("ednvmzb", 6), ("iledrs", 7)]
    for alphabet, depth in plan:
        for n in range(1, depth + 1):
            for seq in itertools.product(alphabet, repeat=n):
                s = "".join(seq)
                if len(set(s)) < n and n < 3 or s in seen:
                    continue
                if n > 3:
                    seen.add(s)
                yield [s]


def run_layout(case, stats):
    text, = case
    model = layout(text)
    if model is None:
        stats.count("outside_model")
        return None
    lines = [" ".join(CHUNKS[c] for c in line) for line in text.split("n")] + ["$", ".emit(99, X)."]
    model = model + [([BAD], False), ([(emit(N(99), X),)], False)]
    if not _text:
        _text.append(ref.program_text(PROGRAM))
    trace = []
    msg = console(lines, trace, _text[0])
    stats.step(len(lines))
    stats.validated += 1
    shown = "\n".join(lines)
    if msg:
        return "%s\n%s" % (msg, shown)
    items = [i if i[0] == "line" else impl.canonical(i) for i in trace]
    stats.state((text, len(items)))
    k = 0
    for i in items:
        if i[0] == "line":
            k += 1
            if [n for n in i[5] if n is not None and n > k] or BAD in model[k - 1][0] and i[5] and k not in i[5]:
                return "session\n%s\nerror of line %d reported for %r" % (shown, k, i[5])
    try:
        ok, explored, why = ref.outcomes_match(lambda ch, ex: LayoutWorld(ch, ex, model), items, lambda w, e: "model error %r" % e if e else None)
    except (ref.Limit, ref.Cyclic):
        stats.count("outside_model")
        return None
    if not ok:
        return "session\n%s\nobserved\n%s\nis not explained by the model (longest prefix %s): %s" % (
            shown, "\n".join(map(repr, items)), why[0], "; ".join(map(str, why[1])))
    return None


def layout(text):
    """
    (statements, whether the last one is incomplete) for each line of pieces, or None if outside of the reference.
    A statement that fails (only k after b or b after k can) drops the rest of its line.
    """
    value = [None]
    model = []
    parse = None
    for line in text.split("n"):
        if "z" in line.split("v")[0]:
            model.append(([BAD], False))
            parse = None
            continue
        ops = []
        for c in line.split("v")[0]:
            if c == "m":
                continue
            if parse is None:
                parse = Parse()
            if parse.state == "open" and c in "oebkif":
                return None
            r = parse.feed(c)
            if r == "error":
                ops.append(BAD)
                parse = None
                break
            if r is not None:
                r = freeze(r)
                ops.append(r)
                parse = None
                new = effect(r, value[0])
                if new == "fail":
                    break
                value[0] = new
        model.append((ops, parse is not None))
    return model


def effect(body, value):
    """Value of X after the body, or "fail"."""
    for st in body:
        if st[0] == "if":
            value = effect(st[2], value)
        elif st[0] == "for":
            inner = value
            for _ in (1, 2):
                inner = effect(st[2], value)
                if inner == "fail":
                    return "fail"
        elif st[1][0] == "uni":
            n = st[1][2][1]
            if value is not None and value != n:
                return "fail"
            value = n
        if value == "fail":
            return "fail"
    return value


# ---- garbage

LEXEMES = ["p", "X", "_", "1", "\"s\"", ".emit", "(", ")", "[", "]", "{", "}", ",", ";", ".", ":", "|", "&", "not", "~", "+", "-", "*", "/", "=", "==", "<-", "!", "!!", "?", "-+", "@", "for", "if", "else", "while",
           "true", "=..", ":-", "include", "$", "\\", "'", "/*", "//", "\t", "\u00e9", "\x00"]


def gen_garbage(tier):
    for n in (1, 2, 3):
        for i, seq in enumerate(itertools.product(range(len(LEXEMES)), repeat=n)):
            if n == 3 and i % (23 if tier == "quick" else 2):
                continue
            yield list(seq)


def run_garbage(case, stats):
    line = " ".join(LEXEMES[i] for i in case)
    trace = []
    lines = [line, "$", "Q = 5.", ".emit(Q).", line + " .", "$", ".emit(Q)."]
    msg = console(lines, trace, "a(1).", beliefs=False)
    stats.step(len(lines))
    stats.validated += 1
    stats.state(tuple(case))
    shown = "\n".join(lines)
    if msg:
        return "%s\n%s" % (msg, shown)
    got = []
    at = 0
    for t in trace:
        if t[0] == "line":
            at += 1
        elif at in (3, 6):
            got.append((at, t))
    want = [(k, ("con", N(5))) for k in (3, 6)]
    if got != want:
        return "session\n%s\nexpected %r, observed %r" % (shown, want, trace)
    for k in (2, 3, 6):
        if [t for t in trace if t[0] == "line"][k][1]:
            return "session\n%s\nerror reported for line %d: %r" % (shown, k + 1, trace)
    return None


# ---- deep

SHAPES = [("(", "1", ")"), ("f(", "1", ")"), ("[", "", "]"), ("-", "1", ""), ("1 + (", "1", ")"), ("[1|", "[]", "]"), ("p[", "a", "]")]
GOALS = [("not ", "p(1)"), ("p(1) & (", "p(1)"), ("(", "p(1)"), ("false | (", "p(1)")]
BLOCKS = ["if (true) {", "for (.member(_, [1])) {"]


def gen_deep(tier):
    for d in (1, 10, 50, 100, 200, 400, 1000, 3000) + ((6000, 20000) if tier == "thorough" else ()):
        for s in range(len(SHAPES)):
            for spread in (False, True):
                yield ["term", s, d, spread]
        for s in range(len(GOALS)):
            yield ["goal", s, d, False]
        for s in range(len(BLOCKS)):
            for spread in (False, True):
                if not spread or d <= 400:
                    yield ["block", s, d, spread]


def run_deep(case, stats):
    kind, s, d, spread = case
    glue = "\n" if spread else " "
    if kind == "term":
        a, m, z = SHAPES[s]
        text = "X = " + a * d + glue + m + glue + z * d + "."
    elif kind == "goal":
        a, m = GOALS[s]
        text = a * d + m + ")" * (d * a[-1:].count("(")) + "."
    else:
        text = (BLOCKS[s] + glue) * d + ".emit(deep)" + (glue + "}") * d + "."
    lines = text.split("\n") + ["$", "Y = 1.", ".emit(Y)."]
    trace = []
    msg = console(lines, trace, "p(1).", beliefs=False)
    stats.step(len(lines))
    stats.validated += 1
    stats.state(tuple(case))
    if msg:
        return "%s\ndepth %d of %r" % (msg, d, text[:60])
    seen = [t for t in trace if t[0] == "line"]
    if trace[-2:-1] != [("con", N(1))] or seen[-1][1] or seen[-2][1]:
        return "depth %d of %r: the lines after it: %r" % (d, text[:60], trace[-6:])
    if d <= 10:
        failed = any(t[1] for t in seen[:-3])
        if failed != (kind == "goal" and s == 0 and d % 2 == 1) and not (kind == "term" and s == 6):
            return "depth %d of %r: %r" % (d, text[:60], trace)
        if kind == "block" and [t for t in trace if t[0] == "con"][:-1] != [("con", F("deep"))]:
            return "depth %d of %r: executed %r" % (d, text[:60], [t for t in trace if t[0] == "con"])
    return None


# ---- sizes

def gen_scale(tier):
    for n in scale.sizes(tier, 129):
        for kind in ("lines", "one", "spread", "open"):
            for bad in [None] + (scale.some(n) if kind in ("lines", "one") else []):
                yield [n, kind, bad]


def run_scale(case, stats):
    n, kind, bad = case
    want = []
    if kind == "lines":
        lines = []
        for i in range(n):
            lines.append("X%d = %d; .emit(X%d)." % (i, i, i) if i != bad else ("X%d = %d; .fail; .emit(bad)." % (i, i), "X%d = = %d. .emit(bad)." % (i, i))[n % 2])
            if i != bad:
                want.append((N(i),))
        lines.append(".emit(%s)." % ", ".join(["e"] + ["X%d" % i for i in range(n)]))
        want.append((F("e"),) + tuple(N(i) if i != bad else V(i) for i in range(n)))
    elif kind == "one":
        lines = [" ".join("X%d = %d; .emit(X%d)." % (i, i, i) if i != bad else "X%d = %d; .fail; .emit(bad)." % (i, i) for i in range(n)), ".emit(%s)." % ", ".join(["e"] + ["X%d" % i for i in range(n)])]
        done = n if bad is None else bad
        want = [(N(i),) for i in range(done)] + [(F("e"),) + tuple(N(i) if i < done else V(i) for i in range(n))]
    elif kind == "spread":
        lines = [".emit(s" ] + [", %d" % i for i in range(n)] + [").", ".emit(e)."]
        want = [(F("s"),) + tuple(N(i) for i in range(n)), (F("e"),)]
    else:
        lines = [".emit(s);"] + [["", "// c", "  ", ".emit(%d);" % i][i % 4] for i in range(n)] + [".emit(t).", ".emit(e)."]
        want = [(F("s"),)] + [(N(i),) for i in range(n) if i % 4 == 3] + [(F("t"),), (F("e"),)]
    trace = []
    msg = console(lines, trace, "p(1).", beliefs=False)
    stats.step(len(lines))
    stats.state(lines)
    shown = "\n".join(lines)
    if msg:
        return "%s\n%s" % (msg, shown)
    got = [ref.canon(i[1:]) for i in trace if i[0] != "line"]
    if got != [ref.canon(w) for w in want]:
        return "session\n%s\nobserved %s\nexpected %s" % (shown, got, want)
    errors = [i for i, item in enumerate(x for x in trace if x[0] == "line") if item[1]]
    if errors != ([] if bad is None else [bad if kind == "lines" else 0]):
        return "session\n%s\nerrors reported for the lines %s" % (shown, errors)
    prompts = [x[3] for x in trace if x[0] == "line"]
    more = n + 1 if kind in ("spread", "open") else 0
    if prompts != [i < more for i in range(len(lines))]:
        return "session\n%s\nprompts for more: %s" % (shown, prompts)
    stats.validated += 1
    return None


SUITES = {"statements": (gen_statements, run_statements), "waits": (gen_waits, run_waits), "bad": (gen_bad, run_bad), "layout": (gen_layout, run_layout),
          "garbage": (gen_garbage, run_garbage), "deep": (gen_deep, run_deep), "scale": (gen_scale, run_scale)}


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.util
    global VirtualEnvironment

    class VirtualEnvironment(agentspeak.runtime.Environment):
        """With a clock of its own."""
        now = 1000.0
        slept = 0

        def time(self):
            return self.now

        def sleep(self, seconds):
            self.slept += 1
            if self.slept > 1000:
                raise AssertionError("sleeps again and again")
            self.now += max(seconds, 0) + 1e-6


if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
