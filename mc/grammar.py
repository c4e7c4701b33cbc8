"""
The surface language, written down a second time: a character scanner, a parser
to the model's terms and the static rules of programs.  Nothing here uses the
implementation.

    scan(text)      list of Tok; raises Reject for illegal characters
    parse(text)     list of items:
                    ("belief", term) ("rule", head, query) ("goal", term)
                    ("plan", label, trigger, head, context, body)
                    ("include", name, line) ("begin", term, items)
    check(items)    raises Reject for programs that are outside of the language
                    and Unknown where loading runs code that is not judged here

Queries are terms whose operators are also "&", "|", "=", "not" and comparisons.
Statements: (op, term) with op in + - ! !! ? -+ or "" and ("if"/"while"/"for", ...).
"""
import collections


class Reject(Exception):
    def __init__(self, message, line=None):
        Exception.__init__(self, message)
        self.line = line


class Unknown(Exception):
    pass


Tok = collections.namedtuple("Tok", "kind text line start end")

KEYWORDS = frozenset("true false not div mod if else while for include begin end".split())
PUNCTUATION = sorted("( ) [ ] { } <- <= < :- : |&| ||| | !! ! ? -+ - + ** * / & >= > \\== == =.. = . , ; @".split(), key=len, reverse=True)
LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
DIGIT = "0123456789"
WORD = LOWER + UPPER + DIGIT + "_"


def word_end(s, i):
    while i < len(s) and s[i] in WORD:
        i += 1
    return i


def scan_functor(s, i):
    """End of the functor starting at i or None."""
    j = i + 1 if s[i:i + 1] == "~" else i
    k = word_end(s, j)
    if s[j:k] in KEYWORDS:
        return None
    end = None
    while True:
        k = j + 1 if s[j:j + 1] == "." else j
        if k >= len(s) or s[k] not in LOWER:
            return end
        j = end = word_end(s, k)


def scan_number(s, i):
    j = i
    while j < len(s) and s[j] in DIGIT:
        j += 1
    if s[j:j + 1] == "." and s[j + 1:j + 2] and s[j + 1] in DIGIT:
        j += 1
        while j < len(s) and s[j] in DIGIT:
            j += 1
    if j == i:
        return None
    if s[j:j + 1] in ("e", "E") and s[j:j + 1]:
        k = j + 1
        if s[k:k + 1] in ("+", "-") and s[k:k + 1]:
            k += 1
        if s[k:k + 1] and s[k] in DIGIT:
            while k < len(s) and s[k] in DIGIT:
                k += 1
            j = k
    return j


def scan_variable(s, i):
    j = i
    while s[j:j + 1] == "_":
        j += 1
    if j < len(s) and s[j] in UPPER:
        return word_end(s, j)
    return j if j > i else None


def scan_string(s, i):
    j = i + 1
    while j < len(s):
        if s[j] == '"':
            return j + 1
        if s[j] == "\\":
            if j + 1 >= len(s) or s[j + 1] == "\n":
                return None
            j += 2
        else:
            j += 1
    return None


def lines(text):
    """Lines including their ends, as io.StringIO and files give them."""
    out, cur = [], ""
    i = 0
    while i < len(text):
        cur += text[i]
        if text[i] == "\n":
            out.append(cur)
            cur = ""
        i += 1
    if cur:
        out.append(cur)
    return out


def scan(text, errors=None):
    """Tokens of a text; illegal characters raise Reject or are collected."""
    out = []
    comment = False
    for n, s in enumerate(lines(text)):
        i = 0
        while i < len(s):
            if comment:
                j = s.find("*/", i)
                if j < 0:
                    break
                comment = False
                i = j + 2
                continue
            c = s[i]
            if s.startswith("/*", i):
                comment = True
                i += 2
                continue
            if c.isspace():
                i += 1
                continue
            if c == "#" or s.startswith("//", i):
                break
            end = None
            if c in LOWER + ".~":
                end = scan_functor(s, i)
                kind = "functor"
            if end is None and c in DIGIT + ".":
                end = scan_number(s, i)
                kind = "number"
            if end is None and c in UPPER + "_":
                end = scan_variable(s, i)
                kind = "variable"
            if end is None and c == '"':
                end = scan_string(s, i)
                kind = "string"
            if end is None and c in LOWER:
                end = word_end(s, i)
                assert s[i:end] in KEYWORDS
                kind = s[i:end]
            if end is None:
                for p in PUNCTUATION:
                    if s.startswith(p, i):
                        end = i + len(p)
                        kind = p
                        break
            if end is None:
                if errors is None:
                    raise Reject("illegal character %r" % c, n + 1)
                errors.append((n + 1, i))
                i += 1
                continue
            out.append(Tok(kind, s[i:end], n + 1, i, end))
            i = end
    return out


SIMPLE = {"\\": "\\", "'": "'", '"': '"', "a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}


def unquote(s):
    """The string a string token denotes."""
    s = s[1:-1]
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\" or i + 1 >= len(s):
            out.append(c)
            i += 1
            continue
        d = s[i + 1]
        if d in SIMPLE:
            out.append(SIMPLE[d])
            i += 2
            continue
        if d in "01234567":
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in "01234567":
                j += 1
            out.append(chr(int(s[i + 1:j], 8)))
            i = j
            continue
        for letter, n in (("x", 2), ("u", 4), ("U", 8)):
            digits = s[i + 2:i + 2 + n]
            if d == letter and len(digits) == n and all(x in "0123456789abcdefABCDEF" for x in digits) and int(digits, 16) < 0x110000:
                out.append(chr(int(digits, 16)))
                i += 2 + n
                break
        else:
            if d == "N":
                raise Unknown("named characters")
            # Not an escape.
            out.append(c)
            i += 1
    return "".join(out)


class Parser(object):
    def __init__(self, toks):
        self.toks = toks
        self.pos = 0

    def peek(self):
        return self.toks[self.pos].kind if self.pos < len(self.toks) else None

    def line(self):
        return self.toks[min(self.pos, len(self.toks) - 1)].line if self.toks else None

    def fail(self, what):
        if self.pos < len(self.toks):
            raise Reject("expected %s, got %r" % (what, self.toks[self.pos].text), self.line())
        raise Reject("expected %s at the end" % what, None)

    def take(self, *kinds):
        if self.peek() not in kinds:
            self.fail(" or ".join(kinds))
        self.pos += 1
        return self.toks[self.pos - 1].text

    def maybe(self, kind):
        if self.peek() == kind:
            self.pos += 1
            return True
        return False

    # terms, one method per level: operators, operand parser

    def left(self, ops, operand):
        t = operand()
        while self.peek() in ops:
            op = self.take(*ops)
            t = ("o", op, t, operand())
        return t

    def disjunction(self):
        return self.left(("|",), self.conjunction)

    def conjunction(self):
        return self.left(("&",), self.negation)

    def negation(self):
        if self.maybe("not"):
            return ("u", "not", self.negation())
        return self.comparison()

    COMPARE = ("<", "<=", ">", ">=", "==", "\\==", "=", "=..")

    def comparison(self):
        a = self.sum()
        r = None
        while self.peek() in self.COMPARE:
            op = self.take(*self.COMPARE)
            b = self.sum()
            c = ("o", op, a, b)
            r = c if r is None else ("o", "&", r, c)
            a = b
        return a if r is None else r

    def sum(self):
        return self.left(("+", "-"), self.product)

    def product(self):
        return self.left(("*", "/", "div", "mod"), self.factor)

    def factor(self):
        if self.peek() in ("+", "-"):
            op = self.take("+", "-")
            return ("u", op, self.factor())
        t = self.atom()
        while self.maybe("**"):
            t = ("o", "**", t, self.factor())
        return t

    def items(self, close, element):
        out = [element()]
        while self.maybe(","):
            out.append(element())
        self.take(close)
        return tuple(out)

    def literal(self):
        f = self.take("functor")
        args = annots = ()
        if self.maybe("("):
            args = self.items(")", self.disjunction)
        if self.maybe("["):
            annots = self.items("]", self.disjunction)
        return ("f", f, args, annots)

    def atom(self):
        k = self.peek()
        if k == "variable":
            name = self.take(k)
            return ("w",) if name == "_" else ("v", name)
        if k == "functor":
            return self.literal()
        if k == "number":
            return ("n", float(self.take(k)))
        if k == "string":
            return ("s", unquote(self.take(k)))
        if k in ("true", "false"):
            return ("b", self.take(k) == "true")
        if self.maybe("("):
            t = self.disjunction()
            self.take(")")
            return t
        if self.maybe("["):
            return self.list()
        self.fail("term")

    def list(self):
        out = []
        while True:
            if self.maybe("]"):
                return ("l", tuple(out))
            out.append(self.conjunction())
            if self.maybe(","):
                continue
            if self.peek() == "|" and len(out) == 1:
                while self.maybe("|"):
                    out.append(self.conjunction())
                self.take("]")
                t = out.pop()
                while out:
                    t = ("c", out.pop(), t)
                return t
            self.take("]")
            return ("l", tuple(out))

    # statements

    def statement(self):
        k = self.peek()
        if k in ("if", "while", "for"):
            self.pos += 1
            self.take("(")
            cond = self.disjunction()
            self.take(")")
            body = self.block()
            if k == "if":
                return (k, cond, body, self.block() if self.maybe("else") else None)
            return (k, cond, body)
        op = self.take(k) if k in ("+", "-", "!", "!!", "?", "-+") else ""
        return (op, self.disjunction())

    def block(self):
        self.take("{")
        out = []
        while not self.maybe("}"):
            st = self.statement()
            out.append(st)
            if self.peek() == "}":
                continue
            if st[0] in ("if", "while", "for"):
                self.maybe(";")
            else:
                self.take(";")
        return tuple(out)

    def body(self):
        out = []
        while True:
            st = self.statement()
            out.append(st)
            if self.maybe("."):
                return tuple(out)
            if st[0] in ("if", "while", "for"):
                self.maybe(";")
            else:
                self.take(";")

    # programs

    def plan(self):
        label = None
        if self.maybe("@"):
            label = self.literal()
        trigger = self.take("+", "-")
        if self.peek() in ("!", "?"):
            trigger += self.take("!", "?")
        head = self.literal()
        ctx = body = None
        if self.maybe(":"):
            ctx = self.disjunction()
        if self.maybe("<-"):
            body = self.body()
        else:
            self.take(".")
        return ("plan", label, trigger, head, ctx, body)

    def item(self, nested):
        k = self.peek()
        if k == "functor":
            head = self.literal()
            if self.maybe(":-"):
                q = self.disjunction()
                self.take(".")
                return ("rule", head, q)
            self.take(".")
            return ("belief", head)
        if k == "!":
            self.pos += 1
            t = self.literal()
            self.take(".")
            return ("goal", t)
        if k in ("@", "+", "-"):
            return self.plan()
        self.take("{")
        if self.peek() == "include":
            line = self.line()
            self.pos += 1
            self.take("(")
            name = unquote(self.take("string"))
            self.take(")")
            self.take("}")
            return ("include", name, line)
        if self.maybe("begin"):
            t = self.literal()
            self.take("}")
            items = []
            while not (self.peek() == "{" and self.pos + 1 < len(self.toks) and self.toks[self.pos + 1].kind == "end"):
                if self.peek() is None:
                    self.fail("{end}")
                items.append(self.item(True))
            self.take("{")
            self.take("end")
            self.take("}")
            return ("begin", t, tuple(items))
        self.fail("directive")

    def program(self):
        out = []
        while self.peek() is not None:
            out.append(self.item(False))
        return out


def parse(text):
    return Parser(scan(text)).program()


# ---------------------------------------------------------------- static rules

NUMERIC = ("+", "-", "*", "/", "div", "mod", "**")
COMPARISONS = ("<", "<=", ">", ">=", "==", "\\==")


def constant(t):
    """Is this an expression of constants (which has a value at load time)?"""
    if t[0] in ("n", "s", "b"):
        return True
    if t[0] == "o":
        return constant(t[2]) and constant(t[3])
    if t[0] == "u":
        return constant(t[2])
    return False


def constant_type(t):
    if t[0] in ("o", "u"):
        return "n" if t[1] in NUMERIC else "b"
    return t[0]


def numeric(t):
    """Static rules of a numeric context."""
    if t[0] in ("v", "w", "n"):
        return
    if t[0] == "o" and t[1] in NUMERIC:
        numeric(t[2])
        numeric(t[3])
        if constant(t) and t[1] in ("/", "div", "mod", "**"):
            raise Unknown("constant division")
    elif t[0] == "u" and t[1] in ("+", "-"):
        numeric(t[2])
    else:
        raise Reject("not numeric: %r" % (t,))


def boolean(t, query):
    """Static rules of a boolean context; queries may contain literals and =."""
    if t[0] in ("v", "w", "b"):
        return
    if t[0] == "o" and t[1] in ("&", "|"):
        boolean(t[2], query)
        boolean(t[3], query)
    elif t[0] == "u" and t[1] == "not":
        boolean(t[2], query)
    elif t[0] == "o" and t[1] in COMPARISONS:
        term(t[2])
        term(t[3])
        if constant(t) and (t[1] not in ("==", "\\==") or constant_type(t[2]) != constant_type(t[3])):
            raise Unknown("constant comparison")
    elif query and t[0] == "o" and t[1] == "=":
        term(t[2])
        term(t[3])
    elif query and t[0] == "f":
        term(t)
    elif t[0] == "o" and t[1] == "=..":
        raise Unknown("=..")
    else:
        raise Reject("not boolean: %r" % (t,))


def term(t):
    k = t[0]
    if k == "o":
        if t[1] in NUMERIC:
            numeric(t)
        else:
            boolean(t, False)
    elif k == "u":
        if t[1] == "not":
            boolean(t, False)
        else:
            numeric(t)
    elif k == "f":
        for x in t[2] + t[3]:
            term(x)
    elif k == "l":
        for x in t[1]:
            term(x)
    elif k == "c":
        term(t[1])
        term(t[2])


def parts(t):
    yield t
    k = t[0]
    for x in (t[2] + t[3] if k == "f" else t[1] if k == "l" else t[1:] if k == "c" else t[2:] if k in "ou" else ()):
        for y in parts(x):
            yield y


def has_expression(t):
    """Does t contain an expression whose value is not known at load time?"""
    if t[0] in "ou" and t[0] != "":
        return not constant(t)
    if t[0] == "f":
        return any(map(has_expression, t[2] + t[3]))
    if t[0] == "l":
        return any(map(has_expression, t[1]))
    if t[0] == "c":
        return has_expression(t[1]) or has_expression(t[2])
    return False


def has_variable(t):
    return any(x[0] in ("v", "w") for x in parts(t))


def stmt(st):
    if st[0] in ("if", "while", "for"):
        boolean(st[1], True)
        for b in st[2:]:
            for x in b or ():
                stmt(x)
    elif st[0] == "":
        boolean(st[1], True)
    else:
        if st[1][0] not in ("f", "v", "w"):
            raise Reject("not a literal")
        term(st[1])


def flatten(items):
    for item in items:
        if item[0] == "begin":
            for x in flatten(item[2]):
                yield x
        else:
            yield item


def check(items, rules_only=False):
    """Static rules, and what happens to initial beliefs and goals."""
    items = list(flatten(items))
    unknown = None
    for item in items:
        try:
            check_item(item)
        except Unknown as e:
            unknown = e
    for item in items:
        if item[0] == "include":
            raise Unknown("include")
    if unknown:
        raise unknown
    plans = [i for i in items if i[0] == "plan"]

    def key(t):
        return t[1], len(t[2])
    for item in items:
        if item[0] == "belief":
            if has_variable(item[1]):
                raise Reject("belief with variables")
    for item in items:
        if item[0] == "belief":
            if any(p[2] == "+" and key(p[3]) == key(item[1]) for p in plans):
                raise Unknown("belief event")
        elif item[0] == "goal":
            candidates = [p for p in plans if p[2] == "+!" and key(p[3]) == key(item[1])]
            if not candidates:
                if any(x[0] in "ou" for x in parts(item[1])):
                    raise Unknown("goal with expression")
                raise Reject("no plan for the goal")
            p = candidates[0]
            args = p[3][2]
            if p[4] not in (None, ("b", True)) or p[3][3] or any(a[0] not in "vw" for a in args) or \
                    len(set(args) - {("w",)}) != len([a for a in args if a != ("w",)]) or has_expression(item[1]):
                raise Unknown("goal")


def check_item(item):
    kind = item[0]
    if kind == "belief":
        term(item[1])
        if has_expression(item[1]):
            raise Reject("belief with expression")
    elif kind == "rule":
        term(item[1])
        if has_expression(item[1]):
            raise Reject("rule head with expression")
        boolean(item[2], True)
    elif kind == "goal":
        term(item[1])
    elif kind == "plan":
        label, trigger, head, ctx, body = item[1:]
        if label is not None:
            term(label)
        term(head)
        if has_expression(head):
            raise Reject("plan head with expression")
        if ctx is not None:
            boolean(ctx, True)
        for st in body or ():
            stmt(st)


def verdict(text):
    """True (accepted), False (rejected) or None (not judged), and the reason."""
    try:
        check(parse(text))
        return True, None
    except Reject as e:
        return False, e
    except Unknown as e:
        return None, e
