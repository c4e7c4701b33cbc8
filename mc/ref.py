"""
Executable model of the agent language, written from the language's semantics
and independently of the implementation: terms are immutable tuples,
substitutions are immutable dicts, queries are generators of substitutions, and
agents are stacks of frames.  All places where the language leaves a choice
open (order of beliefs, pairing of annotations, schedule) go through a chooser,
so that the set of allowed outcomes can be enumerated.

Terms:
  ("n", float) ("s", str) ("b", bool) ("v", key) ("w",)
  ("f", functor, args, annots) ("l", items) ("c", head, tail)
  ("o", op, left, right) ("u", op, operand)
"""


class RefError(Exception):
    """The program does something that must be reported as an error."""


class Cyclic(Exception):
    """Only solution is an infinite term (outside of all properties)."""


class Limit(Exception):
    """The model exceeded its bound (the case is not used)."""


# ---------------------------------------------------------------- terms

def N(x):
    return ("n", float(x))


def S(x):
    return ("s", x)


def B(x):
    return ("b", x)


def V(x):
    return ("v", x)


W = ("w",)


def F(functor, *args, annots=()):
    return ("f", functor, tuple(args), tuple(annots))


def L(*items):
    return ("l", tuple(items))


def C(head, tail):
    return ("c", head, tail)


def tup(x):
    """JSON lists back to tuples."""
    if isinstance(x, (list, tuple)):
        return tuple(tup(y) for y in x)
    return x


def walk(t, s):
    while t[0] == "v" and t in s:
        t = s[t]
    return t


def num(x):
    return ("n", float(x))


def is_num(t):
    return t[0] == "n"


def arith(op, a, b):
    if not (is_num(a) and is_num(b)):
        raise RefError("arithmetic on non-numbers")
    x, y = a[1], b[1]
    try:
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            r = x / y
        elif op == "div":
            r = x // y
        elif op == "mod":
            r = x % y
        elif op == "**":
            r = x ** y
        else:
            raise AssertionError(op)
    except ArithmeticError:
        raise RefError("arithmetic error")
    if isinstance(r, complex):
        raise RefError("arithmetic error")
    return ("n", r)


COMPARE = ("<", "<=", ">", ">=", "==", "\\==")


def order_key(t):
    """Type tag under which terms are comparable by <."""
    if t[0] in ("n", "s", "b"):
        return t[0]
    if t[0] == "f":
        return "f"
    return "l"


def less(a, b):
    """Strict order on ground terms; RefError where it is not defined."""
    if a[0] in "ns" and a[0] == b[0]:
        return a[1] < b[1]
    if a[0] == "b" and b[0] == "b":
        raise Limit()  # order of booleans is not specified
    if a[0] == "b" or b[0] == "b":
        raise Limit()
    if a[0] == "l" and b[0] == "l":
        for x, y in zip(a[1], b[1]):
            if x != y:
                return less(x, y)
        return len(a[1]) < len(b[1])
    if a[0] == "f" and b[0] == "f":
        if not a[2] and not b[2] and not a[3] and not b[3]:
            return a[1] < b[1]
        if a[1] == b[1] and len(a[2]) == len(b[2]):
            if a[3] or b[3]:
                raise Limit()
            return less(("l", a[2]), ("l", b[2]))
    raise RefError("not comparable")


def compare(op, a, b):
    if op == "==":
        return ("b", a == b)
    if op == "\\==":
        return ("b", a != b)
    if op == "<":
        return ("b", less(a, b))
    if op == ">":
        return ("b", less(b, a))
    if op == "<=":
        return ("b", a == b or less(a, b))
    if op == ">=":
        return ("b", a == b or less(b, a))
    raise AssertionError(op)


def evaluate(t, s):
    """Top-level evaluation: variables and expressions."""
    t = walk(t, s)
    if t[0] == "o":
        op = t[1]
        a = evaluate(t[2], s)
        b = evaluate(t[3], s)
        if op in COMPARE:
            return compare(op, ground(a, s), ground(b, s))
        if op in ("&", "|"):
            if a[0] != "b" or b[0] != "b":
                raise RefError("logic on non-booleans")
            return ("b", (a[1] and b[1]) if op == "&" else (a[1] or b[1]))
        return arith(op, a, b)
    if t[0] == "u":
        a = evaluate(t[2], s)
        if t[1] == "not":
            if a[0] != "b":
                raise RefError("logic on non-booleans")
            return ("b", not a[1])
        if not is_num(a):
            raise RefError("arithmetic on non-numbers")
        return ("n", -a[1] if t[1] == "-" else +a[1])
    return t


def norm_annots(annots):
    return tuple(sorted(set(annots), key=repr))


def mkcons(h, t):
    if t[0] == "l":
        return ("l", (h,) + t[1])
    return ("c", h, t)


def resolve(t, s):
    """Deep application of s; lists normalised; expressions evaluated."""
    t = evaluate(t, s)
    k = t[0]
    if k == "f":
        if not t[2] and not t[3]:
            return t
        return ("f", t[1], tuple(resolve(a, s) for a in t[2]), norm_annots(resolve(a, s) for a in t[3]))
    if k == "l":
        return ("l", tuple(resolve(a, s) for a in t[1]))
    if k == "c":
        return mkcons(resolve(t[1], s), resolve(t[2], s))
    return t


def ground(t, s):
    t = resolve(t, s)
    if not is_ground(t):
        raise RefError("term not ground")
    return t


def is_ground(t):
    k = t[0]
    if k in ("v", "w"):
        return False
    if k == "f":
        return all(map(is_ground, t[2])) and all(map(is_ground, t[3]))
    if k == "l":
        return all(map(is_ground, t[1]))
    if k == "c":
        return is_ground(t[1]) and is_ground(t[2])
    return True


def occurs(v, t, s):
    t = walk(t, s)
    k = t[0]
    if k == "v":
        return t == v
    if k == "f":
        return any(occurs(v, a, s) for a in t[2] + t[3])
    if k == "l":
        return any(occurs(v, a, s) for a in t[1])
    if k == "c":
        return occurs(v, t[1], s) or occurs(v, t[2], s)
    if k == "o":
        return occurs(v, t[2], s) or occurs(v, t[3], s)
    if k == "u":
        return occurs(v, t[2], s)
    return False


def bind(v, t, s):
    if occurs(v, t, s):
        raise Cyclic()
    r = dict(s)
    r[v] = t
    return r


def unify(a, b, s):
    """Most general unifier extending s, or None.  Plain unification does not look at annotations."""
    a = evaluate(a, s)
    b = evaluate(b, s)
    if a == b:
        return s
    if a[0] == "w" or b[0] == "w":
        return s
    if a[0] == "v":
        return bind(a, b, s)
    if b[0] == "v":
        return bind(b, a, s)
    if a[0] == "f" and b[0] == "f":
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return None
        for x, y in zip(a[2], b[2]):
            s = unify(x, y, s)
            if s is None:
                return None
        return s
    if a[0] in "lc" and b[0] in "lc":
        if a[0] == "l" and b[0] == "l":
            if len(a[1]) != len(b[1]):
                return None
            for x, y in zip(a[1], b[1]):
                s = unify(x, y, s)
                if s is None:
                    return None
            return s
        if (a[0] == "l" and not a[1]) or (b[0] == "l" and not b[1]):
            return None
        ha, ta = (a[1][0], ("l", a[1][1:])) if a[0] == "l" else (a[1], a[2])
        hb, tb = (b[1][0], ("l", b[1][1:])) if b[0] == "l" else (b[1], b[2])
        s = unify(ha, hb, s)
        return None if s is None else unify(ta, tb, s)
    return None


def match_annotated(left, right, s):
    """All matches of an annotated literal pattern (left) against right."""
    left = evaluate(left, s)
    right = evaluate(right, s)
    if left[0] != "f" or right[0] != "f":
        r = unify(left, right, s)
        if r is not None:
            yield r
        return
    s = unify(left, right, s)
    if s is None:
        return
    for r in match_annots(left[3], right[3], s):
        yield r


def dedupe(annots):
    out = []
    for a in annots:
        if a not in out:
            out.append(a)
    return tuple(out)


def match_annots(left, right, s):
    left = dedupe(left)
    right = dedupe(right)
    if not left:
        yield s
        return
    for i, r in enumerate(right):
        for s2 in match_annotated(left[0], r, s):
            for s3 in match_annots(left[1:], right[:i] + right[i + 1:], s2):
                yield s3


def variables(t, acc=None):
    if acc is None:
        acc = []
    k = t[0]
    if k == "v":
        if t not in acc:
            acc.append(t)
    elif k == "f":
        for a in t[2] + t[3]:
            variables(a, acc)
    elif k == "l":
        for a in t[1]:
            variables(a, acc)
    elif k in ("c", "u"):
        for a in t[1:]:
            if isinstance(a, tuple):
                variables(a, acc)
    elif k == "o":
        variables(t[2], acc)
        variables(t[3], acc)
    return acc


def rename(t, f):
    k = t[0]
    if k == "v":
        return f(t)
    if k == "f":
        return ("f", t[1], tuple(rename(a, f) for a in t[2]), tuple(rename(a, f) for a in t[3]))
    if k == "l":
        return ("l", tuple(rename(a, f) for a in t[1]))
    if k == "c":
        return ("c", rename(t[1], f), rename(t[2], f))
    if k == "o":
        return ("o", t[1], rename(t[2], f), rename(t[3], f))
    if k == "u":
        return ("u", t[1], rename(t[2], f))
    return t


def canon(terms):
    """Renames variables by first occurrence (annotations count last)."""
    names = {}

    def f(v):
        if v not in names:
            names[v] = ("v", len(names))
        return names[v]
    return tuple(rename(t, f) for t in terms)


# ---------------------------------------------------------------- rendering

def fmt_num(x):
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return repr(x)


def quote(s):
    out = []
    for ch in s:
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        else:
            out.append(ch)
    return '"%s"' % "".join(out)


def text(t):
    k = t[0]
    if k == "n":
        return fmt_num(t[1])
    if k == "s":
        return quote(t[1])
    if k == "b":
        return "true" if t[1] else "false"
    if k == "v":
        return str(t[1])
    if k == "w":
        return "_"
    if k == "f":
        r = t[1]
        if t[2]:
            r += "(%s)" % ", ".join(map(text, t[2]))
        if t[3]:
            r += "[%s]" % ", ".join(map(text, t[3]))
        return r
    if k == "l":
        return "[%s]" % ", ".join(map(text, t[1]))
    if k == "c":
        return "[%s|%s]" % (text(t[1]), text(t[2]))
    if k == "o":
        return "(%s %s %s)" % (text(t[2]), t[1], text(t[3]))
    if k == "u":
        return "(%s %s)" % (t[1], text(t[2]))
    raise AssertionError(t)


def qtext(q):
    k = q[0]
    if k in ("true", "false"):
        return k
    if k == "lit":
        return text(q[1])
    if k == "and":
        return "(%s & %s)" % (qtext(q[1]), qtext(q[2]))
    if k == "or":
        return "(%s | %s)" % (qtext(q[1]), qtext(q[2]))
    if k == "not":
        return "(not %s)" % qtext(q[1])
    if k == "cmp":
        return "(%s %s %s)" % (text(q[2]), q[1], text(q[3]))
    if k == "uni":
        return "(%s = %s)" % (text(q[1]), text(q[2]))
    if k == "act":
        return "%s(%s)" % (q[1], ", ".join(map(text, q[2]))) if q[2] else q[1]
    raise AssertionError(q)


def stext(st, ind="  "):
    k = st[0]
    if k in ("+", "-", "-+", "?", "!", "!!"):
        return ind + k + text(st[1])
    if k == "q":
        return ind + qtext(st[1])
    if k == "if":
        r = ind + "if (%s) {%s}" % (qtext(st[1]), block(st[2], ind))
        if len(st) > 3 and st[3] is not None:
            r += " else {%s}" % block(st[3], ind)
        return r
    if k == "for":
        return ind + "for (%s) {%s}" % (qtext(st[1]), block(st[2], ind))
    if k == "while":
        return ind + "while (%s) {%s}" % (qtext(st[1]), block(st[2], ind))
    raise AssertionError(st)


def block(stmts, ind):
    if not stmts:
        return ""
    return "\n" + ";\n".join(stext(x, ind + "  ") for x in stmts) + "\n" + ind


def plan_text(p):
    """Plan: (label, trigger, head, context, body)."""
    label, trigger, head, ctx, body = p
    r = ""
    if label:
        r += "@%s " % label
    r += trigger + text(head)
    if ctx is not None:
        r += " : " + qtext(ctx)
    if body:
        r += " <-\n" + ";\n".join(stext(x) for x in body)
    return r + "."


def program_text(prog):
    """Program: (beliefs, rules, goals, plans)."""
    beliefs, rules, goals, plans = prog
    out = [text(b) + "." for b in beliefs]
    out += ["%s :- %s." % (text(h), qtext(q)) for h, q in rules]
    out += ["!%s." % text(g) for g in goals]
    out += [plan_text(p) for p in plans]
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- choices

class Chooser(object):
    """Depth-first enumeration of all choice sequences by re-execution."""

    def __init__(self):
        self.path = []
        self.pos = 0

    def restart(self):
        self.pos = 0

    def choose(self, n):
        if n <= 1:
            return 0
        if self.pos == len(self.path):
            self.path.append([0, n])
        i, m = self.path[self.pos]
        assert m == n
        self.pos += 1
        return i

    def advance(self):
        del self.path[self.pos:]
        while self.path:
            if self.path[-1][0] + 1 < self.path[-1][1]:
                self.path[-1][0] += 1
                return True
            self.path.pop()
        return False


class Mismatch(Exception):
    """This choice sequence cannot explain the observed trace."""


# ---------------------------------------------------------------- agents

class Frame(object):
    __slots__ = ("gen", "s", "goal", "head", "calling", "plan", "wait", "at")

    def __init__(self):
        self.at = None             # statement being executed
        self.s = {}
        self.goal = None
        self.head = None
        self.calling = None
        self.wait = None


class RefAgent(object):
    def __init__(self, world, name, prog):
        self.world = world
        self.name = name
        beliefs, rules, goals, plans = prog
        self.beliefs = []          # ground terms, insertion order
        self.rules = list(rules)
        self.plans = list(plans)
        self.queue = []            # stacks of frames
        self.current = None
        for b in beliefs:
            self.event("+", "", b, {}, None, delayed=True)
        for g in goals:
            self.event("+", "!", g, {}, None, delayed=True)

    # -- queries

    def fresh(self, t):
        m = {}
        w = self.world

        def f(v):
            if v not in m:
                w.counter += 1
                m[v] = ("v", w.counter)
            return m[v]
        return rename(t, f)

    def permute(self, items):
        items = list(items)
        while items:
            yield items.pop(self.world.chooser.choose(len(items)))

    def query_term(self, t, s):
        t = evaluate(t, s)
        if t[0] == "b":
            if t[1]:
                yield s
            return
        if t[0] != "f":
            raise RefError("query is not a literal")
        # The order of beliefs and of annotations is not specified.
        matching = [b for b in self.beliefs
                    if b[1] == t[1] and len(b[2]) == len(t[2])
                    and any(True for _ in match_annotated(t, b, s))]
        for b in self.permute(matching):
            if b[3] and t[3]:
                sols = list(match_annotated(t, b, s))
                for r in self.permute(sols):
                    yield r
            else:
                for r in match_annotated(t, b, s):
                    yield r
        for head, q in self.rules:
            if head[1] != t[1] or len(head[2]) != len(t[2]):
                continue
            self.world.tick()
            w = self.world
            m = {}

            def f(v):
                if v not in m:
                    w.counter += 1
                    m[v] = ("v", w.counter)
                return m[v]
            head2 = rename(head, f)
            q2 = rename_query(q, f)
            r = unify(t, head2, s)
            if r is not None:
                for r2 in self.query(q2, r):
                    yield r2

    def query(self, q, s):
        self.world.tick()
        k = q[0]
        if k == "true":
            yield s
        elif k == "false":
            return
        elif k == "lit":
            for r in self.query_term(q[1], s):
                yield r
        elif k == "and":
            for r in self.query(q[1], s):
                for r2 in self.query(q[2], r):
                    yield r2
        elif k == "or":
            for r in self.query(q[1], s):
                yield r
            for r in self.query(q[2], s):
                yield r
        elif k == "not":
            for _ in self.query(q[1], s):
                return
            yield s
        elif k == "cmp":
            a = evaluate(q[2], s)
            b = evaluate(q[3], s)
            if compare(q[1], ground(a, s), ground(b, s))[1]:
                yield s
        elif k == "uni":
            for r in match_annotated(q[1], q[2], s):
                yield r
        elif k == "act":
            for r in self.world.action(self, q[1], q[2], s):
                yield r
        else:
            raise AssertionError(q)

    # -- events

    def frozen(self, t, s):
        return self.fresh(resolve(t, s))

    def find_plan(self, trigger, frozen):
        for plan in self.plans:
            label, trig, head, ctx, body = plan
            if trig != trigger or head[1] != frozen[1] or len(head[2]) != len(frozen[2]):
                continue
            sols = list(match_annotated(head, frozen, {}))
            for s in (self.permute(sols) if len(sols) > 1 else sols):
                for s2 in self.query(ctx if ctx is not None else ("true",), s):
                    return plan, s2
        return None

    def event(self, trig, kind, term, s, frame, delayed=False):
        """Returns the new substitution of the caller (frame pushed if needed)."""
        if kind == "":
            if trig == "+":
                g = ground(term, s)
                if g[0] != "f":
                    raise RefError("expected belief")
                if g not in self.beliefs:
                    self.beliefs.append(g)
            else:
                t = evaluate(term, s)
                if t[0] != "f":
                    raise RefError("expected belief")
                options = []
                for b in self.beliefs:
                    for r in match_annotated(t, b, s):
                        options.append((b, r))
                if not options:
                    return s
                b, s = options[self.world.chooser.choose(len(options))]
                self.beliefs.remove(b)
        frozen = self.frozen(term, s)
        if frozen[0] != "f":
            raise RefError("expected literal")
        self.wake(trig + kind, frozen)
        found = self.find_plan(trig + kind, frozen)
        if found is None:
            if kind == "!":
                raise RefError("no applicable plan")
            if kind == "?":
                for r in self.query_term(term, s):
                    return r
                raise RefError("test goal fails")
            return s
        plan, s2 = found
        f = Frame()
        f.s = s2
        f.goal = kind
        f.head = frozen
        f.calling = term
        f.plan = plan
        f.gen = self.run_body(f, plan[4] or ())
        stack = None
        if not delayed and frame is not None:
            for st in self.queue:
                if st and st[-1] is frame:
                    stack = st
        if stack is not None:
            stack.append(f)
        else:
            self.queue.append([f])
        return s

    def wake(self, trigger, frozen):
        for st in self.queue:
            if st and st[-1].wait and st[-1].wait[0]:
                trig, pattern = st[-1].wait[0]
                if trig == trigger and any(True for _ in match_annotated(self.fresh(pattern), frozen, {})):
                    st[-1].wait = None

    def unachieve(self, goal):
        for st in self.queue:
            for i, f in enumerate(st):
                if f.goal == "!" and f.head[1] == goal[1] and len(f.head[2]) == len(goal[2]) and \
                        unify(("l", f.head[2]), ("l", self.fresh(goal)[2]), {}) is not None:
                    del st[i:]
                    break
        self.queue = [st for st in self.queue if st]

    # -- execution: a body is a generator that yields after every statement

    def run_body(self, f, stmts):
        for st in stmts:
            self.world.tick()
            k = st[0]
            f.at = st
            if k in ("+", "-", "?", "!", "!!", "-+"):
                if k == "-+":
                    f.s = self.event("-", "", self.fresh(replace_pattern(st[1])), f.s, f)
                    yield
                    f.s = self.event("+", "", st[1], f.s, f)
                elif k == "!!":
                    f.s = self.event("+", "!", st[1], f.s, None, delayed=True)
                elif k == "!":
                    f.s = self.event("+", "!", st[1], f.s, f)
                elif k == "?":
                    f.s = self.event("+", "?", st[1], f.s, f)
                else:
                    f.s = self.event(k, "", st[1], f.s, f)
                yield
            elif k == "q":
                self.frame = f
                for r in self.query(st[1], f.s):
                    f.s = r
                    break
                else:
                    raise RefError("plan failure")
                yield
            elif k == "if":
                self.frame = f
                for r in self.query(st[1], f.s):
                    f.s = r
                    yield
                    for _ in self.run_body(f, st[2]):
                        yield
                    break
                else:
                    yield
                    if len(st) > 3 and st[3] is not None:
                        for _ in self.run_body(f, st[3]):
                            yield
            elif k == "for":
                saved = f.s
                for r in self.query(st[1], saved):
                    f.s = r
                    yield
                    for _ in self.run_body(f, st[2]):
                        yield
                    self.frame = f
                    f.at = st
                f.s = saved
                yield
            elif k == "while":
                saved = f.s
                while True:
                    self.world.tick()
                    f.at = st
                    for r in self.query(st[1], saved):
                        f.s = r
                        break
                    else:
                        break
                    yield
                    for _ in self.run_body(f, st[2]):
                        yield
                f.s = saved
                yield
            else:
                raise AssertionError(st)

    def runnable(self):
        self.ready = self._runnable()
        return self.ready

    def _runnable(self):
        for st in self.queue:
            w = st[-1].wait
            if w is None or w[1] is not None and self.world.poll(w[1]):
                return st
        return None

    def deadlines(self):
        return [st[-1].wait[1] for st in self.queue if st[-1].wait is not None and st[-1].wait[1] is not None]

    def step(self, st=None):
        """Executes until the next statement boundary; False if there is nothing to do."""
        if st is None:
            st = self.runnable()
        if st is None:
            return False
        f = st[-1]
        f.wait = None
        self.frame = f
        self.stack = st
        try:
            next(f.gen)
        except StopIteration:
            if st and st[-1] is f:
                st.pop()
                if not st:
                    self.queue = [x for x in self.queue if x is not st]
                else:
                    parent = st[-1]
                    frozen = self.frozen(f.head, f.s)
                    r = unify(f.calling, frozen, parent.s)
                    if r is None:
                        raise AssertionError("back unification")
                    parent.s = r
        except RefError:
            self.queue = [x for x in self.queue if x is not st]
            raise
        return True


def replace_pattern(t):
    k = t[0]
    if k in ("o", "u"):
        return W
    if k == "f":
        return ("f", t[1], tuple(map(replace_pattern, t[2])), tuple(map(replace_pattern, t[3])))
    if k == "l":
        return ("l", tuple(map(replace_pattern, t[1])))
    if k == "c":
        return ("c", replace_pattern(t[1]), replace_pattern(t[2]))
    return t


def rename_query(q, f):
    k = q[0]
    if k == "lit":
        return ("lit", rename(q[1], f))
    if k in ("and", "or"):
        return (k, rename_query(q[1], f), rename_query(q[2], f))
    if k == "not":
        return (k, rename_query(q[1], f))
    if k == "cmp":
        return (k, q[1], rename(q[2], f), rename(q[3], f))
    if k == "uni":
        return (k, rename(q[1], f), rename(q[2], f))
    if k == "act":
        return (k, q[1], tuple(rename(a, f) for a in q[2]))
    return q


SEND_KINDS = {"tell": ("+", ""), "untell": ("-", ""), "achieve": ("+", "!")}


class World(object):
    """Agents plus the observed trace; follows `expected` if given."""

    LIMIT = 20000
    where = None       # statement -> what is observed of its location

    def __init__(self, chooser=None, expected=None, actions=None):
        self.chooser = chooser or Chooser()
        self.expected = expected
        self.trace = []
        self.counter = 0
        self.ticks = 0
        self.agents = {}
        self.actions = actions or {}
        self.now = 0.0

    def tick(self):
        self.ticks += 1
        if self.ticks > self.LIMIT:
            raise Limit()

    def add(self, name, prog):
        a = RefAgent(self, name, prog)
        self.agents[name] = a
        return a

    def emit(self, item):
        if self.expected is not None:
            i = len(self.trace)
            if i >= len(self.expected) or self.expected[i] != item:
                raise Mismatch()
        self.trace.append(item)
        if len(self.trace) > 400:
            raise Limit()

    def action(self, agent, name, args, s):
        if name in self.actions:
            for r in self.actions[name](self, agent, args, s):
                yield r
        elif name == ".emit":
            self.emit((agent.name,) + canon([resolve(a, s) for a in args]))
            yield s
        elif name == ".fail":
            return
        elif name == ".boom":
            raise RefError("boom")
        elif name == ".member":
            l = evaluate(args[1], s)
            l = resolve(l, s)
            if l[0] != "l":
                raise RefError("not a list")
            for x in l[1]:
                r = unify(args[0], x, s)
                if r is not None:
                    yield r
        elif name == ".range":
            n = ground(args[0], s)
            if n[0] != "n":
                raise RefError("not a number")
            for i in range(int(n[1])):
                r = unify(args[1], num(i), s)
                if r is not None:
                    yield r
        elif name in (".findall", ".count"):
            if name == ".findall":
                pat, q, res = args
                out = []
                for r in agent.query_term(q, s):
                    out.append(agent.frozen(pat, r))
                r = unify(("l", tuple(out)), res, s)
            else:
                q, res = args
                n = sum(1 for _ in agent.query_term(q, s))
                r = unify(num(n), res, s)
            if r is not None:
                yield r
        elif name == ".my_name":
            r = unify(args[0], F(agent.name), s)
            if r is not None:
                yield r
        elif name == ".wait":
            self.do_wait(agent, args, s)
            yield s
        elif name in (".send", ".broadcast"):
            self.do_send(agent, name, args, s)
            yield s
        elif name == ".abolish":
            pat = agent.frozen(args[0], s)
            agent.beliefs = [b for b in agent.beliefs
                             if not (b[1] == pat[1] and len(b[2]) == len(pat[2])
                                     and any(True for _ in match_annotated(pat, b, {})))]
            yield s
        else:
            raise AssertionError(name)

    JUMP = 0.0      # the clock may advance by this much ...
    jumps = 0       # ... this many times, whenever it is read

    def clock_read(self):
        while self.jumps and self.chooser.choose(2):
            self.jumps -= 1
            self.now += self.JUMP

    def poll(self, until):
        self.clock_read()
        if until == self.now:
            return self.chooser.choose(2) == 1
        return until < self.now

    def run_timed(self):
        """As run_any, sleeping until the next deadline when nothing is runnable."""
        while True:
            ready = [a for a in self.agents.values() if a.runnable() is not None]
            if not ready:
                deadlines = [d for a in self.agents.values() for d in a.deadlines()]
                if not deadlines:
                    return
                self.clock_read()
                if self.now <= min(deadlines):
                    self.now = min(deadlines) + 1e-6
                self.tick()
                continue
            if len(ready) > 1 and self.expected is not None and len(self.trace) < len(self.expected):
                name = self.expected[len(self.trace)][0]
                ready.sort(key=lambda a: a.name != name)
            a = ready[self.chooser.choose(len(ready))]
            a.step(a.ready)
            self.tick()

    WAITS = {}      # text of an event -> (trigger, pattern)

    def do_wait(self, agent, args, s):
        args = [ground(x, s) for x in args]
        event = until = None
        for i, x in enumerate(args):
            if x[0] == "s" and i == 0:
                event = self.WAITS[x[1]]
            elif x[0] == "n" and i == len(args) - 1:
                self.clock_read()
                until = self.now + x[1] / 1000.0
            else:
                raise RefError("bad argument of .wait")
        agent.frame.wait = (event, until)

    def do_send(self, agent, name, args, s):
        if name == ".broadcast":
            ilf, content = args
            receivers = [n for n in self.agents if n != agent.name]
        else:
            to, ilf, content = args
            to = ground(to, s)
            items = to[1] if to[0] == "l" else (to,)
            receivers = []
            for r in items:
                n = r[1]
                if n not in self.agents:
                    raise RefError("no such agent")
                receivers.append(n)
        ilf = ground(ilf, s)
        if ilf[0] != "f" or ilf[2] or ilf[3] or ilf[1] not in SEND_KINDS and ilf[1] not in ("unachieve",) + self.HOW:
            raise RefError("unknown illocutionary force")
        ilf = ilf[1]
        if ilf in self.HOW:
            if name == ".broadcast":
                raise RefError("unknown illocutionary force")
            content = ground(content, s)
            if content[0] != "s":
                raise RefError("expected a text")
            for n in receivers:
                self.how(agent, self.agents[n], ilf, content[1])
            return
        msg = agent.frozen(content, s)
        if msg[0] != "f":
            raise RefError("message is not a literal")
        tagged = ("f", msg[1], msg[2], norm_annots(msg[3] + (F("source", F(agent.name)),)))
        if ilf == "unachieve":
            if name == ".broadcast":
                raise RefError("unknown illocutionary force")
            for n in receivers:
                self.agents[n].wake("-!", tagged)
                self.agents[n].unachieve(tagged)
            return
        trig, kind = SEND_KINDS[ilf]
        for n in receivers:
            self.agents[n].event(trig, kind, tagged, {}, None)

    HOW = ("tellHow", "untellHow", "askHow")
    PLANS = {}      # text of a plan -> plan
    ASKS = {}       # text of a question -> functor

    def how(self, sender, receiver, ilf, content):
        if ilf == "tellHow":
            if content not in self.PLANS:
                raise RefError("malformed plan")
            receiver.plans.append(self.PLANS[content])
        elif ilf == "untellHow":
            receiver.plans = [p for p in receiver.plans
                              if not p[0] or "@" + p[0].split("(")[0].split("[")[0] != content]
        else:
            sender.plans += [p for p in receiver.plans if p[2][1] == self.ASKS.get(content)]

    def run_faults(self):
        """
        Any interleaving, going on after errors.
        """
        while True:
            ready = [a for a in self.agents.values() if a.runnable() is not None]
            if not ready:
                return
            if len(ready) > 1 and self.expected is not None and len(self.trace) < len(self.expected):
                name = self.expected[len(self.trace)][0]
                ready.sort(key=lambda a: a.name != name)
            a = ready[self.chooser.choose(len(ready))]
            try:
                a.step(a.ready)
            except RefError:
                self.emit((a.name, ("s", "ERROR")) + (self.where(a.frame.at) if self.where else ()))
            self.tick()

    def run(self, limit=4000):
        """Round-robin until nothing is runnable."""
        while True:
            more = False
            for a in list(self.agents.values()):
                if a.step():
                    more = True
            if not more:
                return
            self.tick()

    def run_any(self):
        """Any interleaving of the agents; the one observed next is tried first."""
        while True:
            ready = [a for a in self.agents.values() if a.runnable() is not None]
            if not ready:
                return
            if len(ready) > 1 and self.expected is not None and len(self.trace) < len(self.expected):
                name = self.expected[len(self.trace)][0]
                ready.sort(key=lambda a: a.name != name)
            a = ready[self.chooser.choose(len(ready))]
            a.step(a.ready)
            self.tick()


def outcomes_match(build, observed_trace, accept, limit=20000):
    """
    Is there a choice sequence under which the model produces observed_trace
    and a final world accepted by accept(world, error)?  build(chooser,
    expected) returns a World ready to be run by its drive() method.
    Returns (ok, explored, best) where best is the longest explained prefix.
    """
    chooser = Chooser()
    explored = 0
    best = -1
    reasons = []
    while True:
        chooser.restart()
        explored += 1
        if explored > limit:
            raise Limit()
        world = None
        try:
            world = build(chooser, observed_trace)
            error = None
            try:
                world.drive()
            except RefError as e:
                error = e
            if len(world.trace) == len(observed_trace):
                reason = accept(world, error)
                if reason is None:
                    return True, explored, None
                if len(reasons) < 3:
                    reasons.append(reason)
                best = max(best, len(world.trace))
            else:
                best = max(best, len(world.trace))
                if len(reasons) < 3:
                    reasons.append("model stops after %d observations%s" % (
                        len(world.trace), " with error: %s" % error if error else ""))
        except Mismatch:
            if len(reasons) < 3:
                reasons.append("observation not allowed by the model at this point")
        if not chooser.advance():
            return False, explored, (best, reasons)
