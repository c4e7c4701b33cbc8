"""C16: comments and layout never change a program; locations are exact."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
import scale
import re
import grammar
from grammar import Tok

PROPERTY = "C16"
RULE = ("tokens: every sequence of up to three tokens of a large token alphabet joined by every separator of a list (spaces, line breaks, all kinds of comments with "
        "awkward contents); values: every string literal of up to three pieces (escapes of all kinds, complete or not, characters of all kinds) and every numeral of up to six characters, read in five places; glued: every sequence of up to three token texts without separators; layout: every program of a corpus with every separator at every gap "
        "(thorough: pair of gaps), with all gaps, and with all unnecessary space removed; errors: every single-token edit of the corpus with one token and some comments "
        "per line; shown: every message level, primary location and up to two further locations (same line, another line or file, or unknown) in a few lines with tabs; a state is a distinct text, a transition a recognised token")
DESIGN = ("tokens and positions are known by construction for separated sequences, and given by an independent character scanner with the longest-match rule for "
          "glued ones; lexemes, kinds (by what the parser makes of them), lines and columns must agree and the reported source line must contain the lexeme at the "
          "reported columns. A program in another layout must be read as the same program and run with the same trace. The first error reported for a "
          "wrong program must stand on the line of the first token after which no valid program continues (independent parser). Displayed messages must be FILE:LINE:COLUMN, level and text, the source line, and ^ and ~ exactly below "
          "the located characters.")
ASSUMPTIONS = ["lines end with \\n; other line separators are blanks", "a text that ends within a block comment is not judged"]


class Collect(object):
    """A logger that only keeps what is reported."""

    def __init__(self):
        self.records = []

    def error(self, msg, *args, **kw):
        self.records.append((msg % args if args else msg, kw.get("extra", {}).get("loc")))
        self.extra = kw.get("extra", {})
        if len(self.records) == 1:
            self.first = self.extra

    exception = error

    def warning(self, *args, **kw):
        pass

    info = warning


def tokenize(text, firstline=1):
    """Tokens and errors of the implementation."""
    logger = Collect()
    log = agentspeak.Log(logger)
    toks = []
    for t in agentspeak.lexer.tokenize(impl.source("x.asl", text), log, firstline):
        toks.append(t)
    return toks, logger.records


def kind(tok):
    t = tok.token
    if t.functor:
        return "functor"
    if t.numeric:
        return "number"
    if t.variable:
        return "variable"
    if t.string:
        return "string"
    if t.boolean is not None:
        return "true" if t.boolean else "false"
    return tok.lexeme


def compare(text, want, errors, stats, firstline=1):
    """The implementation recognises the wanted tokens where they are."""
    stats.state(text)
    toks, records = tokenize(text, firstline)
    stats.step(len(toks))
    got = [(kind(t), t.lexeme, t.loc.lineno - firstline + 1, t.loc.startcol, t.loc.endcol) for t in toks]
    if got != [tuple(w) for w in want]:
        return "%r has the tokens %r, expected %r" % (text, got, [tuple(w) for w in want])
    lines = text.split("\n")
    for t in toks:
        line = lines[t.loc.lineno - firstline]
        if line[t.loc.startcol:t.loc.endcol] != t.lexeme:
            return "%r: token %r is not at columns %d to %d of line %d" % (text, t.lexeme, t.loc.startcol, t.loc.endcol, t.loc.lineno)
        if t.loc.line.rstrip("\n") != line or t.loc.filename != "x.asl":
            return "%r: token %r is reported with the line %r of %r" % (text, t.lexeme, t.loc.line, t.loc.filename)
    at = [(loc.lineno - firstline + 1, loc.startcol) for _, loc in records]
    if at != errors:
        return "%r: errors at %r, expected at %r" % (text, at, errors)
    stats.validated += 1
    return None


# ---- separated tokens

TEXTS = [("functor", x) for x in ("a", "ab_C1", "~a.b", "~a", ".a", "a.b", "~a.b.c", "true1", "iffy", "nota", "div2", "includes", "end_", "trueB", "e5")] \
    + [("number", x) for x in ("0", "12", "1.5", ".5", "1e5", "1.25E-3", "2e+1", "007", "1")] \
    + [("variable", x) for x in ("X", "_", "__", "Ab_1", "_Foo", "E", "___X_")] \
    + [("string", x) for x in ('""', '"a b"', '"\\""', '"// x"', '"/* x"', '"*/"', '"#"', "\"'\"", '"\\\\"', '"\t"', '"\u00e9\u20ac"', '"true"', '"\\n"')] \
    + [(x, x) for x in sorted(grammar.KEYWORDS)] + [(x, x) for x in grammar.PUNCTUATION]
SEPARATORS = [" ", "\n", "\t", "  ", "\r\n", "\n\n \n", "/**/", "/* x */", " // c\n", " # c\n", "/*\n*/", "/***/", "/* // */", "// /* c\n", "# /* \" c\n", "/* \" */", "/*/ x */",
              "/* * / */", "/* /* */", "/* a\n b \n c */", " //\n", " #\n", "// */\n", "/* x */ /* y */", "/* x *//* y */", " // \u00e9\u2028 p.\n", "\f", "\u00a0", "/*\n\n*/\t", "#//#\n", "/* # */", "\x0b\u3000", " /* p. q(1). \n \"unclosed */ "]
FEW_TEXTS = ("a", "~a.b", "1", "1.5", "X", '"/* x"', '"// x"', '"#"', "true", "-", "*", "/", ".", "<-", "!", "|")


def place(parts):
    """Text and tokens of [(kind or None, text)]."""
    text = ""
    want = []
    for k, x in parts:
        if k is not None:
            line = text.count("\n") + 1
            col = len(text) - (text.rfind("\n") + 1)
            want.append(Tok(k, x, line, col, col + len(x)))
        text += x
    return text, want


def gen_tokens(tier):
    for sep in range(len(SEPARATORS)):
        for i in range(len(TEXTS)):
            for j in range(len(TEXTS)) if tier == "thorough" or sep < 14 else range(i % 3, len(TEXTS), 3):
                yield [[sep], [i, j], False]
    few = [i for i, t in enumerate(TEXTS) if t[1] in FEW_TEXTS]
    for s, t in itertools.product(range(len(SEPARATORS)), repeat=2):
        for seq in itertools.product(few if tier == "thorough" else few[s % 3::3], few[::2], few[t % 4::4] if tier != "thorough" else few):
            yield [[s, t], list(seq), True]


def run_tokens(case, stats):
    seps, seq, wrapped = case
    parts = []
    if wrapped:
        parts.append((None, SEPARATORS[seps[-1]]))
    for n, i in enumerate(seq):
        if n:
            parts.append((None, SEPARATORS[seps[n - 1]]))
        parts.append(TEXTS[i])
    if wrapped:
        parts.append((None, SEPARATORS[seps[0]]))
    # Division directly before a comment or a comment after / is another token.
    for (k, x), (l, y) in zip(parts, parts[1:]):
        if (x + y[:1]).endswith(("//", "/*")) and not (k is None and x.endswith(("\n", "*/"))):
            return None
    text, want = place(parts)
    return compare(text, want, [], stats, 1 + len(seq))


# ---- glued tokens

GLUE = ["a", "~a", ".a", "true", "if", "not", "mod", "X", "_", "1", "1.5", ".5", "e5", "E", '"', '"s"', "\\", ".", "..", ",", "-", "+", "!", "?", "*", "/", "<", "=", ">", ":", "|", "&", "(", ")", "[", "{", "@", ";", " ", "\n", "#", "\\\"", "'",
        "\u00e9", "~", "$", "end", "B1", "0", "\t"]


def gen_glued(tier):
    for n in (1, 2, 3):
        for seq in itertools.product(range(len(GLUE)), repeat=n):
            yield [list(seq)]
    if tier == "thorough":
        for seq in itertools.product(range(len(GLUE)), repeat=4):
            yield [list(seq)]


def run_glued(case, stats):
    text = "".join(GLUE[i] for i in case[0])
    errors = []
    want = grammar.scan(text, errors)
    return compare(text, want, errors, stats)


# ---- layout of programs

CORPUS = [
    'p(1, "s")[a, b(c)].\nq([1, [2 | [3]]]).\n~neg.',
    'r(X, Y) :- p(X) & not (q(Y) | X < Y + 1 * 2) & X = f(Y, _).\np(1). p(2). q(3).\n!go.\n+!go <- for (r(X, Y)) {.emit(X)}; .emit(- 2 ** 2, 7 mod 2, 7 div 2, 1.5 / .5).',
    '!go(3)[s].\n@l[a]\n+!go(X)[s] : X > 2 | true <- +b(X); -b(_); -+c(X - 1); ?c(Y); .emit(X, Y); !h; !!k(Y).\n+!h <- .emit("h // # /* */").\n+!k(Y) <- .emit(Y).\n+b(X) <- .emit("added", X).',
    '!go.\n+!go <- if (not p(X)) {.emit(1); +p(1)} else {.emit(2)} while (p(X) & not q) {+q; .emit(X)} for (.range(2, Y)) {if (Y == 1) {.emit(true)}}; .emit(false).',
    '{begin ns(x)}\np.\n{begin y}\nq.\n{end}\n{end}\n!go.\n+!go : p & q <- .emit(1); -p; ?~r.\n-p <- .emit("gone").\n~r.',
    '!go. +!go : X = 1 & 1 < 2 <= 2 \\== 3 <- .emit(X, f(X)[a], [X | [2]], - - 1, 1 - -1, 2 - + 1).',
]


def tokens(text):
    return grammar.scan(text)


def needed(a, b):
    """Do two token texts need a separator?"""
    try:
        return [t.text for t in grammar.scan(a.text + b.text)] != [a.text, b.text]
    except grammar.Reject:
        return True


def gen_layout(tier):
    for i, p in enumerate(CORPUS):
        n = len(tokens(p))
        yield [i, "tight", 0, 0]
        for s in range(len(SEPARATORS)):
            yield [i, "all", s, 0]
            yield [i, "alternate", s, (s + 7) % len(SEPARATORS)]
            for k in range(n + 1):
                yield [i, "gap", k, s]
        for k in range(n + 1):
            for s in (6, 8, 10, 1, 3):
                yield [i, "tightgap", k, s]
        if tier == "thorough":
            for k, l in itertools.combinations(range(n + 1), 2):
                for s, t in itertools.product((1, 6, 8, 10, 17), repeat=2):
                    yield [i, "gaps", k * 1000 + l, s * 1000 + t]


def layout(i, how, a, b):
    toks = tokens(CORPUS[i])
    n = len(toks)
    gaps = [""] + [" "] * (n - 1) + [""]
    if how in ("tight", "tightgap"):
        for k in range(1, n):
            if not needed(toks[k - 1], toks[k]):
                gaps[k] = ""
    if how == "tightgap":
        gaps[a] = SEPARATORS[b]
    if how == "all":
        gaps = [SEPARATORS[a]] * (n + 1)
    if how == "alternate":
        gaps = [SEPARATORS[a if k % 2 else b] for k in range(n + 1)]
    if how == "gap":
        gaps[a] = SEPARATORS[b]
    if how == "gaps":
        gaps[a // 1000] = SEPARATORS[b // 1000]
        gaps[a % 1000] = SEPARATORS[b % 1000]
    text = gaps[0]
    for k, t in enumerate(toks):
        if text.endswith("/") and t.text[0] in "*/" and not text.endswith("*/"):
            text += " "
        text += t.text
        if t.text == "/" and gaps[k + 1][:1] in ("/", "*"):
            text += " "
        text += gaps[k + 1]
    return text


_WANT = {}


def outcome(text, stats):
    logger = Collect()
    log = agentspeak.Log(logger)
    src = impl.source("x.asl", text)
    try:
        ast = agentspeak.parser.parse(src.name, agentspeak.lexer.TokenStream(src, log), log)
        log.throw()
    except impl.ERRORS:
        return "errors: %r" % (logger.records,)
    run = impl.Run([("a", text)])
    stats.step(run.drive_faults())
    return str(ast), [impl.canonical(t) for t in run.trace], run.beliefs()


def run_layout(case, stats):
    i = case[0]
    if i not in _WANT:
        _WANT[i] = outcome(CORPUS[i], stats)
        if isinstance(_WANT[i], str):
            return "%s\nis not read: %s" % (CORPUS[i], _WANT[i])
    text = layout(*case)
    stats.state(text)
    got = outcome(text, stats)
    if got != _WANT[i]:
        return "%s\ngives %r\nbut in the layout\n%r\nit gives %r" % (CORPUS[i], _WANT[i], text, got)
    stats.validated += 1
    return None


# ---- sizes

def gen_scale(tier):
    for n in scale.sizes(tier, 1000):
        for k in range(10):
            yield [n, k]


def run_scale(case, stats):
    n, k = case
    parts = [
        [(None, " " * n), ("functor", "p"), ("(", "("), ("number", "1" * (n + 1)), (")", ")"), (None, "\n" * n), (".", ".")],
        [("functor", "a" * (n + 1)), (None, " "), ("variable", "X" * (n + 1)), (None, "\n"), ("string", '"%s"' % ("s" * n))],
        [(None, "/*%s*/" % ("x" * n)), ("functor", "a"), (None, "//%s\n" % ("y" * n)), (".", ".")],
        [(None, "/*%s*/" % ("\n" * n)), ("functor", "a"), (None, " "), ("variable", "B")],
        [x for i in range(n) for x in (("functor", "p%d" % i), (".", "."), (None, " "))],
        [x for i in range(n) for x in (("functor", "p%d" % i), (".", "."), (None, "\n"))],
        [x for i in range(n) for x in (("(", "("), ("-", "-"), (None, "\t"))],
        [(None, "\t" * n), ("string", '"%s"' % ("\\\\" * n)), (None, " # %s\n" % ("c" * n)), ("number", "1.%s" % ("5" * (n + 1)))],
        [x for i in range(min(n, 200)) for x in ((None, "/* %s */ // c\n" % ("\n" * (i % 3))), ("functor", "b"))],
        [(None, "/* c */" * n), ("true", "true"), (None, " " * n + "\n" + "/* d\n */" * n), ("false", "false")],
    ][k]
    text, want = place(parts)
    return compare(text, want, [], stats) or compare(text + "\n" + " " * n + "$", want, [(text.count("\n") + 2, n)], stats)


# ---- errors

INSERT = "a X 1 \"s\" ( ) [ ] { } , ; . & | + - ! not < = : :- <- @ true if else $ end".split()
BETWEEN = ["\n", "\n\n", " // c\n", "\n/* a\n b */", "\n/* a */"]


def gen_errors(tier):
    for i, p in enumerate(CORPUS):
        n = len(tokens(p))
        for k in range(n):
            yield [i, "del", k, 0]
            for e in range(len(INSERT)) if tier == "thorough" else range(k % 2, len(INSERT), 2):
                yield [i, "sub", k, e]
                yield [i, "ins", k, e]
        if tier == "thorough":
            for k in range(n):
                for l in range(n):
                    yield [i, "swap", k, l]


def run_errors(case, stats):
    i, how, k, e = case
    toks = [t.text for t in tokens(CORPUS[i])]
    if how == "del":
        del toks[k]
    elif how == "sub":
        toks[k] = INSERT[e]
    elif how == "ins":
        toks.insert(k, INSERT[e])
    else:
        toks[k], toks[e] = toks[e], toks[k]
    text = ""
    for n, t in enumerate(toks):
        text += t + BETWEEN[(n + k) % len(BETWEEN)]
    stats.state(text)
    try:
        errors = []
        scanned = grammar.scan(text, errors)
        line = errors[0][0] if errors else None
        if line is None:
            grammar.Parser(scanned).program()
            return None
    except grammar.Reject as r:
        line = r.line
        if any(t.line == line and t.text == "end" for t in scanned):
            # A stray end may be found out after the directive.
            stats.count("stray_end")
            return None
        if line is None:
            # The end of the file is missing something: after the last token.
            line = scanned[-1].line
    except grammar.Unknown:
        return None
    logger = Collect()
    log = agentspeak.Log(logger, 3)
    src = impl.source("x.asl", text)
    try:
        agentspeak.parser.parse(src.name, agentspeak.lexer.TokenStream(src, log), log)
        log.throw()
        return "%s\nis accepted, expected an error in line %d" % (text, line)
    except impl.ERRORS:
        pass
    stats.step()
    message, loc = logger.records[0]
    if loc is None:
        if "end of file" in message:
            stats.count("end_of_file")
            return None
        return "%s\nerror without location: %s" % (text, message)
    if loc.lineno != line:
        return "%s\nerror reported in line %d (%s), expected in line %d" % (text, loc.lineno, message, line)
    if loc.filename != "x.asl":
        return "%s\nerror reported for file %r" % (text, loc.filename)
    shown = render(message, logger.first)
    want = excerpt(text, loc, message)
    if shown[:len(want)] != want or "^" not in shown[-1][:loc.startcol + 1].expandtabs(1)[loc.startcol:]:
        return "%s\nerror is displayed as\n%s\nexpected\n%s" % (text, "\n".join(shown), "\n".join(want))
    stats.validated += 1
    return None


ANSI = re.compile("\x1b\\[[0-9;]*m")


def render(message, extra):
    """The lines of an error message as they are displayed."""
    import logging
    record = logging.makeLogRecord({"levelno": logging.ERROR, "levelname": "ERROR", "msg": message, "args": ()})
    record.__dict__.update(extra)
    return ANSI.sub("", agentspeak.LogFormatter().format(record)).split("\n")


def excerpt(text, loc, message):
    return ["%s:%d:%d: error: %s" % (loc.filename, loc.lineno, loc.startcol + 1, message), text.split("\n")[loc.lineno - 1].rstrip()]


# ---- displayed messages

LINES = ["p(a, X) :- q.\n", "\tp(1);\tq", "x", "  +!g <- \t!h.\r\n", "ab\u00e9d efg\n"]
LEVELS = [("error", 40), ("warning", 30), ("info", 20)]


def spans(n, tier):
    cols = list(range(n)) if tier == "thorough" or n < 4 else [0, 1, n // 2, n - 1]
    return [(a, b) for a in cols for b in cols + [n] if b >= a]


def gen_shown(tier):
    for i, line in enumerate(LINES):
        all_ = spans(len(line.rstrip()), tier)
        for k, main in enumerate(all_):
            yield [i, k % len(LEVELS), main, []]
            for j, x in enumerate(all_):
                for same in (0, 1, 2, 4):
                    if same == 0 or j % 3 == 0:
                        yield [i, (j + k) % len(LEVELS), main, [[same, x]]]
                for y in all_[j % 5::5]:
                    yield [i, (j + k) % len(LEVELS), main, [[j % 2 and 3, x], [0, y]]]


def run_shown(case, stats):
    import io
    import logging
    i, level, main, extra = case
    line = LINES[i]
    stats.state(case)
    logger = logging.Logger("x")
    stream = io.StringIO()
    handler = agentspeak.LogHandler(stream)
    handler.setFormatter(agentspeak.LogFormatter())
    logger.addHandler(handler)
    disabled = logging.root.manager.disable
    logging.disable(logging.NOTSET)

    def at(span, how=0):
        if how == 3:
            return None
        return agentspeak.SourceLocation("d/x.asl" if how != 1 else "y.asl", {2: 8, 4: 6}.get(how, 7), span[0], span[1], line)
    try:
        log = agentspeak.Log(logger)
        getattr(log, LEVELS[level][0])("this is %s: %d%%", "it", 5, loc=at(main), extra_locs=[at(x, how) for how, x in extra])
    finally:
        logging.disable(disabled)
    got = ANSI.sub("", stream.getvalue())
    shown = line.rstrip()
    marks = ["\t" if c == "\t" else " " for c in shown]
    for how, x in extra:
        if how == 0:
            marks[x[0]:max(x[1], x[0] + 1)] = "~" * (max(x[1], x[0] + 1) - x[0])
    marks[main[0]:max(main[1], main[0] + 1)] = "^" * (max(main[1], main[0] + 1) - main[0])
    want = "d/x.asl:7:%d: %s: this is it: 5%%\n%s\n%s\n" % (main[0] + 1, LEVELS[level][0], shown, "".join(marks).rstrip())
    stats.step()
    stats.validated += 1
    if got != want:
        return "displayed as\n%s\nexpected\n%s" % (got, want)
    return None


# ---- what literals stand for

PIECES = ["a", "\\n", "\\t", "\\r", "\\a", "\\b", "\\f", "\\v", "\\'", "\\\"", "\\\\", "\\0", "\\12", "\\101", "\\1019", "\\x41", "\\xE9", "\\x4", "\\u00e4", "\\u20AC", "\\u00", "\\U0001F600",
          "\\N{DIGIT ONE}", "\\N{no such}", "\\q", "\\8", "\u00e9", "N{X}", "0", "x41", "\\x", "u00e4", "/*", "//", "#", "'", " ", "\t", "\U0001f600", "e\u0301", "n"]
FEWER = ["a", "\\n", "\\\\", "\\\"", "\\1", "\\x4", "1", "n", "x41", "\\", "\u00e9"]
SIMPLE = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "'": "'", '"': '"', "\\": "\\"}


def characters(text):
    """The characters a string literal stands for; escapes that are not complete stand for themselves."""
    import unicodedata
    out = ""
    i = 0
    while i < len(text):
        ch = text[i]
        rest = text[i + 1:]
        i += 1
        if ch != "\\" or not rest:
            out += ch
            continue
        digits = ""
        while len(digits) < 3 and rest[len(digits):len(digits) + 1] in tuple("01234567"):
            digits += rest[len(digits)]
        n = {"x": 2, "u": 4, "U": 8}.get(rest[0], 0)
        if rest[0] in SIMPLE:
            out += SIMPLE[rest[0]]
            i += 1
        elif digits:
            out += chr(int(digits, 8))
            i += len(digits)
        elif n and len(rest) > n and all(c in "0123456789abcdefABCDEF" for c in rest[1:n + 1]):
            out += chr(int(rest[1:n + 1], 16))
            i += n + 1
        elif rest.startswith("N{") and "}" in rest:
            try:
                out += unicodedata.lookup(rest[2:rest.index("}")])
                i += rest.index("}") + 1
            except KeyError:
                out += ch
        else:
            out += ch
    return out


def numerals():
    for n in range(1, 7):
        for cs in itertools.product("07.eE+-" if n < 6 else "7.e-", repeat=n):
            t = "".join(cs)
            if re.match(r"(\d*\.\d+|\d+)([eE][+-]?\d+)?\Z", t) and float(t) < 1e300:
                yield t


def gen_values(tier):
    for n in (0, 1, 2):
        for ps in itertools.product(PIECES, repeat=n):
            yield '"%s"' % "".join(ps)
    for ps in itertools.product(PIECES if tier == "thorough" else FEWER, repeat=3):
        yield '"%s"' % "".join(ps)
    for ps in itertools.product(FEWER, repeat=4):
        if tier == "thorough":
            yield '"%s"' % "".join(ps)
    for t in numerals():
        yield t
        yield "-" + t


def run_values(case, stats):
    if case[0] == '"':
        # The literal ends where the first quote without a backslash stands.
        if not re.match(r'"([^"\\]|\\.)*"\Z', case):
            return None
        want = ("s", characters(case[1:-1]))
    else:
        want = ("n", float(case))
    text = "b(%s).\n!go(%s, %s).\n+!go(X, %s) <- .emit(X); .emit(%s); for (b(Y)) { .emit(Y) }; Z = [%s]; .emit(Z); if (X == %s) { .emit(1) }.\n" % ((case,) * 7)
    stats.state(case)
    run = impl.Run([("ag", text)])
    stats.step(run.drive_faults())
    got = [t[1] for t in run.trace]
    if got != [want, want, want, ("l", (want,)), ("n", 1.0)]:
        return "%s\nobserved %r, expected %r" % (text, got, want)
    stats.validated += 1
    return None


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.stdlib


SUITES = {"values": (gen_values, run_values), "tokens": (gen_tokens, run_tokens), "glued": (gen_glued, run_glued), "layout": (gen_layout, run_layout), "errors": (gen_errors, run_errors), "shown": (gen_shown, run_shown), "scale": (gen_scale, run_scale)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
