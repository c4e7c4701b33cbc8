from plant import plant

HEAD = '''
import logging, signal, sys
logging.disable(logging.CRITICAL)
signal.alarm(60)
import agentspeak
import agentspeak.runtime, agentspeak.stdlib, agentspeak.ext_stdlib


def run(text, more=(), limit=3000, swallow=True):
    """Observations (agent, arguments as text) of a program, all agents round-robin."""
    out = []
    actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)

    @actions.add(".emit")
    def _emit(agent, term, intention):
        out.append((agent.name, ) + tuple(agentspeak.asl_repr(agentspeak.freeze(a, intention.scope, {})) for a in term.args))
        yield
    env = agentspeak.runtime.Environment()
    try:
        agents = [env.build_agent(agentspeak.StringSource(n, t), actions, name=n) for n, t in [("ag", text)] + list(more)]
        for _ in range(limit):
            if not any([a.step() for a in agents]):
                break
        else:
            out.append(("still running",))
    except (agentspeak.AslError, agentspeak.AggregatedError) as err:
        out.append(("error",))
        if not swallow:
            raise
    return out


def expect(got, want):
    print("got", got, "want", want)
    sys.exit(0 if got == want else 1)
'''
A = "agentspeak/__init__.py"
R = "agentspeak/runtime.py"
SL = "agentspeak/stdlib.py"
P = "agentspeak/parser.py"
LX = "agentspeak/lexer.py"

plant("c01-selfbind", "C01", "two variables that are already aliases of each other are unified once more",
      "a variable gets bound to itself, so that looking it up never ends",
      [(A, "        if self is term:\n            return\n\n        if self in scope:", "        if self in scope:")],
      HEAD + '''
expect(run("!g. +!g <- X = Y; X = Y; X = 1; .emit(Y)."), [("ag", "1")])
''')

plant("c01-tail", "C01", "[H|T] against a list of exactly one element, with the list on the left hand side as a tail that is bound later",
      "lists with exactly one element are not matched by [H|T]",
      [(A, "len(right) >= 1", "len(right) > 1")],
      HEAD + '''
expect(run("!g. +!g <- [H|T] = [a]; .emit(H, T)."), [("ag", "a", "[]")])
''')

plant("c02-leak", "C02", "arguments of two annotated literals that match in part only",
      "bindings of a failed match of the arguments stay in place",
      [(A, '''                tuple(self.annots), tuple(right.annots), scope, stack
            ):
                yield
        reroll(scope, stack, choicepoint)
''', '''                tuple(self.annots), tuple(right.annots), scope, stack
            ):
                yield
            reroll(scope, stack, choicepoint)
''')],
      HEAD + '''
expect(run("p(1, a)[s]. q(5). !g. +!g <- for (p(X, b)[Y] | q(X)) { .emit(X) }."), [("ag", "5")])
''')

plant("c03-not", "C03", "a negation whose inner query succeeds, followed by another alternative using the same variable",
      "bindings of a refuted negation stay visible",
      [(R, '''        agentspeak.reroll(intention.scope, intention.stack, choicepoint)

        if not success:
            yield
''', '''        if not success:
            agentspeak.reroll(intention.scope, intention.stack, choicepoint)
            yield
''')],
      HEAD + '''
expect(run("p(1). q(2). !g. +!g <- for (not p(X) | q(X)) { .emit(X) }."), [("ag", "2")])
''')

plant("c03-rule", "C03", "a rule whose head does not unify completely, after binding something, with another rule or alternative following",
      "bindings made by a rule head that does not match stay visible",
      [(R, '''                for _ in rule.query.execute(agent, intention):
                    yield

            agentspeak.reroll(intention.scope, intention.stack, choicepoint)
''', '''                for _ in rule.query.execute(agent, intention):
                    yield

                agentspeak.reroll(intention.scope, intention.stack, choicepoint)
''')],
      HEAD + '''
expect(run("r(1, a) :- true. r(2, b) :- true. !g. +!g <- for (r(X, b)) { .emit(X) }."), [("ag", "2")])
''')

plant("c04-annots", "C04", "removal with an annotation, while a belief with the same arguments and other annotations exists",
      "a removal ignores the annotations it asks for",
      [(R, "if agentspeak.unifies_annotated(term, belief, intention.scope, intention.stack):",
        "if agentspeak.unify(term, belief, intention.scope, intention.stack):")],
      HEAD + '''
expect(run("p(1)[a]. !g. +!g <- -p(1)[b]; for (p(X)) { .emit(X) }."), [("ag", "1")])
''')

plant("c05-context", "C05", "a plan head with a variable annotation that can match several annotations, and a context that only holds for a later one",
      "only the first way to match a plan head is tried",
      [(R, '''            for _ in agentspeak.unify_annotated(
                plan.head, frozen, intention.scope, intention.stack
            ):
                for _ in plan.context.execute(self, intention):
''', '''            if agentspeak.unifies_annotated(
                plan.head, frozen, intention.scope, intention.stack
            ):
                for _ in plan.context.execute(self, intention):
''')],
      HEAD + '''
expect(run("!g. +!g <- !h[a]; !h[b]; !h[a, b]; !h[b, a, c]. +!h[X, Y, Z] <- .emit(3). +!h[X] : X == b <- .emit(X). +!h <- .emit(0)."),
       [("ag", "0"), ("ag", "b"), ("ag", "b"), ("ag", "3")])
''')

plant("c06-while", "C06", "a while loop inside the body of another while loop whose condition binds a variable",
      "leaving the inner loop does not take its choicepoint away, so the outer loop undoes the wrong bindings",
      [(R, "        tail = Instruction(pop_choicepoint)\n", "        tail = Instruction(noop)\n")],
      HEAD + '''
expect(run("p(1). p(2). !g. +!g <- while (p(X)) { -p(X); while (q(Y)) { -q(Y) }; .emit(s) }."), [("ag", "s"), ("ag", "s")])
''')

plant("c07-alias", "C07", "a goal called with a variable and a term that contains the same variable through an earlier binding",
      "variables shared between arguments through a binding are passed as different variables",
      [(A, '''        if self in scope:
            return freeze(deref(self, scope), scope, memo)

        memo[self] = frozen = Var()''', '''        if self in scope:
            return freeze(deref(self, scope), scope, {})

        memo[self] = frozen = Var()''')],
      HEAD + '''
expect(run("!g. +!g <- X = f(Y); !h(X, Y); .emit(X, Y). +!h(f(A), B) <- B = 3; .emit(A)."), [("ag", "3"), ("ag", "f(3)", "3")])
''')

plant("c08-wake", "C08", "two intentions waiting for the same event",
      "an event wakes only the first of several intentions waiting for it",
      [(R, '''            if agentspeak.unifies_annotated(event.head, frozen):
                intention.waiter = None
''', '''            if agentspeak.unifies_annotated(event.head, frozen):
                intention.waiter = None
                break
''')],
      HEAD + '''
got = run("!a. !b. !c. +!a <- .wait(\\"+e\\"); .emit(a). +!b <- .wait(\\"+e\\"); .emit(b). +!c <- +e.")
expect(sorted(got), [("ag", "a"), ("ag", "b")])
''')

plant("c01-trail", "C01", "two unbound variables unified in a branch that fails later, with another branch following that uses both",
      "making two variables aliases is not undone on backtracking",
      [(A, "        scope[self] = term\n        stack.append(self)\n", "        scope[self] = term\n        if not isinstance(term, Var):\n            stack.append(self)\n")],
      HEAD + '''
expect(run("q(2). !g. +!g <- for ((X = Y & q(9)) | q(X)) { Y = 1; .emit(X, Y) }."), [("ag", "2", "1")])
''')

plant("c04-abolish", "C04", "abolishing beliefs by a pattern with a variable that is bound before",
      "a variable in the pattern counts as unbound: too many beliefs are abolished",
      [(SL, "    pattern = agentspeak.freeze(term.args[0], intention.scope, memo)\n    group =", "    pattern = agentspeak.evaluate(term.args[0], intention.scope)\n    group =")],
      HEAD + '''
expect(run("p(1). p(2). !g. +!g <- X = 1; .abolish(p(X)); for (p(Y)) { .emit(Y) }."), [("ag", "2")])
''')

plant("c04-undo", "C04", "removal of a belief, with variables bound earlier in the plan, while at least two beliefs of that name do not match",
      "undoing a match that failed takes back bindings made before the removal",
      [(R, '''        for belief in relevant_beliefs:
            intention.stack.append(choicepoint)
            if agent''', '''        intention.stack.append(choicepoint)
        for belief in relevant_beliefs:
            if agent''')],
      HEAD + '''
expect(run("p(1). p(2). p(3). !g. +!g <- X = 5; -p(9); .emit(X)."), [("ag", "5")])
''')

plant("c05-silent", "C05", "a goal for which plans exist, but none of them is applicable",
      "a goal without applicable plan is ignored instead of being reported, if there are plans for it at all",
      [(R, "        if goal_type == agentspeak.GoalType.achievement:\n            raise AslError(", "        if goal_type == agentspeak.GoalType.achievement and not applicable_plans:\n            raise AslError(")],
      HEAD + '''
expect(run("!g. +!g <- .emit(1); !h(1); .emit(2). +!h(X) : X > 1 <- .emit(X)."), [("ag", "1"), ("error", )])
''')

plant("c07-annots", "C07", "a goal called with a bound variable in an annotation",
      "annotations of a called goal are passed without the values of their variables",
      [(A, '''            (freeze(arg, scope, memo) for arg in self.args),
            (freeze(annot, scope, memo) for annot in self.annots),
''', '''            (freeze(arg, scope, memo) for arg in self.args),
            self.annots,
''')],
      HEAD + '''
expect(run("!g. +!g <- X = a; !h(1)[X]. +!h(Z)[Y] <- .emit(Y)."), [("ag", "a")])
''')

plant("c08-deadline", "C08", "two intentions waiting for different times, where the one that started to wait first has the later deadline",
      "the run loop sleeps until the deadline of the first waiting intention instead of the earliest one",
      [(R, '''        if deadlines:
            return min(deadlines)
''', '''        if deadlines:
            return deadlines[0]
''')],
      HEAD + '''
import time
out = []
actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)


@actions.add_procedure(".emit", (int, ))
def emit(x):
    out.append(x)


env = agentspeak.runtime.Environment()
env.build_agent(agentspeak.StringSource("ag", "!a. !b. +!a <- .wait(400); .emit(1). +!b <- .wait(20); .emit(2)."), actions)
env.run()
expect(out, [2, 1])
''')

plant("c09-popleft", "C09", "a goal that finishes while an older intention of the agent is waiting",
      "finishing an intention removes the oldest intention of the agent, even if that one is still waiting",
      [(R, '''                self.intentions.remove(intention_stack)
            elif intention.calling_term:''', '''                self.intentions.popleft()
            elif intention.calling_term:''')],
      HEAD + '''
expect(run("!a. !b. !c. +!a <- .wait(\\"+go\\"); .emit(a). +!b <- .emit(b). +!c <- .emit(c); +go."), [("ag", "b"), ("ag", "c"), ("ag", "a")])
''')

plant("c10-annots", "C10", "sending a belief that carries annotations of its own",
      "the annotations of a message are replaced by its source instead of being kept",
      [(A, "        return Literal(self.functor, self.args, self.annots | frozenset([annot]))", "        return Literal(self.functor, self.args, frozenset([annot]))")],
      HEAD + '''
expect(run("!g. +!g <- .send(bob, tell, p(1)[x]).", [("bob", "+p(X)[x, source(S)] <- .emit(X, S).")]), [("bob", "1", "ag")])
''')

plant("c11-repeat", "C11", "withdrawing a goal by a pattern that uses a variable twice",
      "withdrawing p(X, X) also stops p(1, 2)",
      [(A, """    scope = {}
    stack = collections.deque()
    return unify(left, right, scope, stack)
""", """    if isinstance(left, tuple) and isinstance(right, tuple):
        return len(left) == len(right) and all(unifies(l, r) for l, r in zip(left, right))
    scope = {}
    stack = collections.deque()
    return unify(left, right, scope, stack)
""")],
      HEAD + '''
expect(run("!g. +!g <- .wait(\\"+go\\"); .send(bob, unachieve, p(X, X)); .send(bob, tell, fin).",
           [("bob", "!p(1, 2). !p(3, 3). !s. +!p(A, B) <- .wait(\\"+fin\\"); .emit(A, B). +!s <- .send(ag, tell, go).")]), [("bob", "1", "2")])
''')

plant("c12-prefix", "C12", "untelling a label that begins with the label of another plan",
      "untelling also removes plans whose label is the beginning of the given one",
      [(R, '''if ("@" + str(plan_instance.annotation.functor)) == label:''', '''if label.startswith("@" + str(plan_instance.annotation.functor)):''')],
      HEAD + '''
expect(run("!g. +!g <- .send(bob, untellHow, \\"@p12\\"); .send(bob, achieve, h).", [("bob", "@p1 +!h <- .emit(1). @p12 +!h <- .emit(2).")]), [("bob", "1")])
''')

plant("c13-tail", "C13", "a list with a tail separated by a bar and further terms after it",
      "text outside the language, a list like [a|b, is accepted: the closing bracket is not required",
      [(P, '''    elif tok.lexeme == "]":
        return next(tokens), term
    else:
        raise log.error("expected ']' or '|' ''', '''    elif tok.lexeme in ("]", ")"):
        return next(tokens), term
    else:
        raise log.error("expected ']' or '|' ''')],
      HEAD + '''
got = [run("p([a|b]). !g. +!g <- .emit(1)."), run("p([a|b)). !g. +!g <- .emit(1).")]
expect(got, [[("ag", "1")], [("error", )]])
''')

plant("c14-else", "C14", "printing an if statement whose then branch is empty while the else branch is not",
      "the else branch is lost when the plan is printed",
      [(P, '''            builder.append(";\\n")
        if self.else_body and self.else_body.formulas:''', '''            builder.append(";\\n")
        if self.if_body.formulas and self.else_body and self.else_body.formulas:''')],
      HEAD + '''
import agentspeak.parser, agentspeak.lexer
log = agentspeak.Log(agentspeak.get_logger("demo"), 3)


def parse(text):
    return agentspeak.parser.parse("x", agentspeak.lexer.TokenStream(agentspeak.StringSource("x", text), log), log)


expect(run(str(parse("!g. +!g <- if (false) { } else { .emit(1) }; .emit(2)."))), [("ag", "1"), ("ag", "2")])
''')

plant("c15-chain", "C15", "a chain of at least three comparisons",
      "only the last two comparisons of a chain count",
      [(P, "            op_and.left = comparisons\n            op_and.operator = BinaryOp.op_and\n", "            op_and.left = comparisons if comparisons.operator != BinaryOp.op_and else comparisons.right\n            op_and.operator = BinaryOp.op_and\n")],
      HEAD + '''
expect(run("!g. +!g <- if (3 < 1 < 2 < 3) { .emit(wrong) } else { .emit(right) }."), [("ag", "right")])
''')

plant("c16-keyword", "C16", "a name that begins with a keyword followed by a digit or an underscore",
      "the longest lexeme is not recognised: for1 is read as the keyword for and a number",
      [(LX, "include|begin|end)($|[^a-zA-Z0-9_]))", "include|begin|end)($|[^a-zA-Z]))")],
      HEAD + '''
expect(run("end_1(1). !g. +!g <- ?end_1(X); .emit(for1, X)."), [("ag", "for1", "1")])
''')

plant("c17-path", "C17", "a file in a directory that includes a file, which includes another one by a relative path",
      "paths in included files are resolved relative to the working directory",
      [(P, "                include = os.path.join(os.path.dirname(filename), include)\n", "                include = os.path.join(os.path.dirname(filename), include) if not included_files - frozenset([canonical_path(filename)]) else include\n")],
      HEAD + '''
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/sub/deep")
    open(d + "/main.asl", "w").write("{ include(\\"sub/one.asl\\") } !g.")
    open(d + "/sub/one.asl", "w").write("{ include(\\"deep/two.asl\\") } ")
    open(d + "/sub/deep/two.asl", "w").write("+!g <- .emit(1).")
    out = []
    actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)
    actions.add_procedure(".emit", (int, ), out.append)
    env = agentspeak.runtime.Environment()
    try:
        with open(d + "/main.asl") as f:
            env.build_agent(f, actions)
        env.run()
    except agentspeak.AggregatedError:
        out.append("error")
finally:
    shutil.rmtree(d)
expect(out, [1])
''')

plant("c18-substring", "C18", "occurrences of a text that overlap",
      "overlapping occurrences of a substring are skipped",
      [(SL, "        pos = haystack.find(needle, pos + 1)", "        pos = haystack.find(needle, pos + max(1, len(needle)))")],
      HEAD + '''
expect(run("!g. +!g <- for (.substring(\\"aa\\", \\"aaaa\\", P)) { .emit(P) }."), [("ag", "0"), ("ag", "1"), ("ag", "2")])
''')

plant("c18-range", "C18", "a range used on backtracking with a result that is known already",
      "after a value of a range that does not fit, earlier bindings of the plan are undone",
      [(SL, '''    for i in range(int(agentspeak.grounded(term.args[0], intention.scope))):
        intention.stack.append(choicepoint)
''', '''    intention.stack.append(choicepoint)
    for i in range(int(agentspeak.grounded(term.args[0], intention.scope))):
''')],
      HEAD + '''
expect(run("!g. +!g <- X = 7; .range(4, 3); .emit(X)."), [("ag", "7")])
''')

plant("c19-share", "C19", "an action with two arguments that contain the same unbound variable",
      "an unbound variable used in two arguments of an action arrives as two different ones",
      [(A, "            arg = freeze(next(args), scope, memo)\n", "            arg = freeze(next(args), scope, {})\n")],
      HEAD + '''
actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)
seen = []
actions.add_predicate(".same", (None, None), lambda a, b: seen.append(a.args[0] is b) or True)
env = agentspeak.runtime.Environment()
env.build_agent(agentspeak.StringSource("ag", "!g. +!g <- .same(f(X), X); .same(f(X), Y)."), actions)
env.run()
expect(seen, [True, False])
''')

plant("c19-parent", "C19", "a registry that extends another one with a variadic action of the same name",
      "an action of the extended registry with the exact number of arguments is preferred to the variadic one of the extending registry",
      [(A, '''            return self.actions[group]
        elif functor in self.variadic_actions:
            return self.variadic_actions[functor]
        elif self.parent:
            return self.parent.lookup(functor, arity)
''', '''            return self.actions[group]
        elif self.parent and group in self.parent.actions:
            return self.parent.actions[group]
        elif functor in self.variadic_actions:
            return self.variadic_actions[functor]
        elif self.parent:
            return self.parent.lookup(functor, arity)
''')],
      HEAD + '''
parent = agentspeak.Actions(agentspeak.ext_stdlib.actions)
out = []


@parent.add(".act", 1)
def act1(agent, term, intention):
    out.append("parent")
    yield


actions = agentspeak.Actions(parent)


@actions.add(".act")
def act(agent, term, intention):
    out.append("child")
    yield
env = agentspeak.runtime.Environment()
env.build_agent(agentspeak.StringSource("ag", "!g. +!g <- .act(1); .act(1, 2)."), actions)
env.run()
expect(out, ["child", "child"])
''')

plant("c20-hash", "C20", "a list built with a head and a list as tail, compared with the same list written in full",
      "equal lists that were built differently have different hashes",
      [(A, '''        try:
            return hash(tuple(self))
        except TypeError:
            return hash((self.head, self.tail))
''', '''        return hash((self.head, self.tail))
''')],
      HEAD + '''
a = agentspeak.LinkedList(1.0, (2.0, ))
expect([a == (1.0, 2.0), hash(a) == hash((1.0, 2.0)), len({a, (1.0, 2.0)})], [True, True, 1])
''')

plant("c20-order", "C20", "comparing structures of different arity, or an atom with a structure of the same name",
      "an atom and a structure of the same name are ordered, in both directions",
      [(A, '''        if (
            not is_literal(other)
            or self.functor != other.functor
            or len(self.args) != len(other.args)
        ):
            return NotImplemented
        return self.args < other.args
''', '''        if not is_literal(other):
            return NotImplemented
        if self.functor != other.functor:
            return self.functor < other.functor
        return len(self.args) < len(other.args) or self.args < other.args
''')],
      HEAD + '''
L = agentspeak.Literal
a, b = L("f", (2.0, )), L("f", (1.0, 5.0))
try:
    both = a < b and b < a
except TypeError:
    both = False
expect(both, False)
''')

plant("c21-loc", "C21", "the error of a statement that starts a goal of its own without a plan for it",
      "the error does not carry the location of the statement",
      [(R, '''functools.partial(call_delayed, agentspeak.Trigger.addition, agentspeak.GoalType.achievement, term),
                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])''',
        '''functools.partial(call_delayed, agentspeak.Trigger.addition, agentspeak.GoalType.achievement, term))''')],
      HEAD + '''
logging.disable(logging.NOTSET)
locs = []


class H(logging.Handler):
    def emit(self, record):
        loc = record.__dict__.get("loc")
        locs.append(loc and loc.lineno)


logging.getLogger().handlers = [H()]
for l in list(logging.root.manager.loggerDict.values()):
    if isinstance(l, logging.Logger):
        l.handlers = []
run("!g.\\n+!g <-\\n!!missing.")
expect([l for l in locs][:1], [3])
''')

plant("c22-keyword", "C22", "an agent built from a source named like a keyword",
      "an agent gets a name that can not be written as an atom",
      [(A, '''    while functor in KEYWORDS:
        functor += "_"
    return functor''', '''    if functor in KEYWORDS[:6]:
        functor += "_"
    return functor''')],
      HEAD + '''
env = agentspeak.runtime.Environment()
names = [env.build_agent(agentspeak.StringSource(s, "a."), agentspeak.ext_stdlib.actions).name for s in ("true", "include.asl", "for.asl")]
expect([n in agentspeak.KEYWORDS for n in names], [False, False, False])
''')

plant("c22-many", "C22", "a third agent with the same name",
      "a third agent of the same name replaces the second one",
      [(R, '''        while name in self.agents:
            name = base_name + str(i)
            i += 1
''', '''        if name in self.agents:
            name = base_name + str(i)
            i += 1
''')],
      HEAD + '''
env = agentspeak.runtime.Environment()
names = [env.build_agent(agentspeak.StringSource("a.asl", "a."), agentspeak.ext_stdlib.actions).name for _ in range(4)]
expect([len(set(names)), len(env.agents)], [4, 4])
''')

REPL = '''
def session(lines):
    import agentspeak.util, io
    out = []
    actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)

    @actions.add(".emit")
    def _emit(agent, term, intention):
        out.append(tuple(agentspeak.asl_repr(agentspeak.freeze(a, intention.scope, {})) for a in term.args))
        yield
    env = agentspeak.runtime.Environment()
    agent = env.build_agent(agentspeak.StringSource("con", "p(1)."), actions)
    todo = list(lines)

    def prompt(text):
        if not todo:
            raise KeyboardInterrupt
        return todo.pop(0)
    agentspeak.util.prompt = prompt
    saved = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        agentspeak.runtime.repl(agent, env, actions)
    except SystemExit:
        pass
    finally:
        sys.stdout, sys.stderr = saved
    return out


'''

plant("c23-log", "C23", "a line with an error, followed by correct lines",
      "after one error the console rejects everything",
      [(R, '''    while True:
        try:
            log = agentspeak.Log(LOGGER, 3)

            try:
                if not tokens:''', '''    log = agentspeak.Log(LOGGER, 3)

    while True:
        try:
            try:
                if not tokens:''')],
      HEAD + REPL + '''
expect(session([".emit(1).", "X = = 2.", ".emit(2)."]), [("1", ), ("2", )])
''')

plant("c23-pending", "C23", "a line with an error, followed by correct lines",
      "what was entered before an error stays and makes everything after it an error",
      [(R, """            print(str(error), file=sys.stderr)
            tokens = []
""", """            print(str(error), file=sys.stderr)
            tokens = tokens[:-1]
""")],
      HEAD + REPL + '''
expect(session([".emit(1).", "X = = 2.", ".emit(2)."]), [("1", ), ("2", )])
''')

# ---- third round

plant("c02-varright", "C02", "a literal equated with an unbound variable on its right, with another alternative afterwards",
      "the variable stays bound to the literal after the alternative has been given up",
      [(A, """            if right.unify(self, scope, stack):
                yield
            reroll(scope, stack, choicepoint)
            return
""", """            if right.unify(self, scope, stack):
                yield
            return
""")],
      HEAD + '''
expect(run("p(7). !g. +!g <- for (q(1) = X | p(X)) { .emit(X) }."), [("ag", "q(1)"), ("ag", "7")])
''')

plant("c07-trail", "C07", "a subgoal that returns a value, in the body of a loop",
      "what a subgoal returned stays bound in the next round of the loop",
      [(R, "if not agentspeak.unify(intention.calling_term, frozen, calling_intention.scope, calling_intention.stack):",
           "if not agentspeak.unify(intention.calling_term, frozen, calling_intention.scope, collections.deque()):")],
      HEAD + '''
expect(run("!g. +!g <- for (.member(X, [1, 2])) { !f(X, Y); .emit(Y) }. +!f(X, p(X))."), [("ag", "p(1)"), ("ag", "p(2)")])
''')

plant("c08-both", "C08", "waiting for an event with a timeout, while nothing else is left to be done",
      "the run loop forgets about timeouts of intentions that wait for an event as well",
      [(R, "deadlines = [waiter.until for waiter in self.waiters() if waiter.until is not None]",
           "deadlines = [waiter.until for waiter in self.waiters() if waiter.event is None]")],
      HEAD + '''
import time
out = []
actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)
actions.add_procedure(".emit", (int, ), out.append)
env = agentspeak.runtime.Environment()
agent = env.build_agent(agentspeak.StringSource("a", '!g. +!g <- .wait("+x", 50); .emit(1).'), actions)
env.run_agent(agent)
expect(out, [1])
''')

plant("c09-last", "C09", "several agents, of which the last one is done before the others",
      "the environment stops when the last agent has nothing to do, although others have",
      [(R, """                if agent.step():
                    maybe_more_work = True
""", """                maybe_more_work = agent.step()
""")],
      HEAD + '''
out = []
actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)
actions.add_procedure(".emit", (int, ), out.append)
env = agentspeak.runtime.Environment()
env.build_agent(agentspeak.StringSource("a", "!g. +!g <- .emit(1); .emit(2); .emit(3); .emit(4); .emit(5)."), actions)
env.build_agent(agentspeak.StringSource("b", "!g. +!g <- .emit(6)."), actions)
env.run()
expect(sorted(out), [1, 2, 3, 4, 5, 6])
''')

plant("c10-shared", "C10", "a pattern with a variable withdrawn from several receivers that hold different beliefs",
      "what the variable matched at the first receiver is required of the others",
      [(SL, """    for receiver in receiving_agents:
        receiver.call(trigger, goal_type, tagged_message, agentspeak.runtime.Intention())
""", """    delivery = agentspeak.runtime.Intention()
    for receiver in receiving_agents:
        receiver.call(trigger, goal_type, tagged_message, delivery)
""")],
      HEAD + '''
got = run("!g. +!g <- .send([b, c], untell, p(X)); .send([b, c], achieve, show).",
          [("b", "p(1)[source(ag)]. +!show <- .count(p(_), N); .emit(N)."), ("c", "p(2)[source(ag)]. +!show <- .count(p(_), N); .emit(N).")])
expect(sorted(got), [("b", "0"), ("c", "0")])
''')

plant("c12-first", "C12", "several plans for the same event with the same label",
      "untelling a label removes only the first of them",
      [(R, """                        plans_to_delete.append(plan_instance)
                        
""", """                        plans_to_delete = plans_to_delete or [plan_instance]
                        
""")],
      HEAD + '''
got = run('!g. +!g <- .send(b, untellHow, "@l"); .send(b, achieve, f).',
          [("b", "@l +!f <- .emit(1). @l +!f <- .emit(2). @m +!f <- .emit(3).")])
expect(got, [("b", "3")])
''')

plant("c14-tail", "C14", "printing a list with a head and a tail where the tail is an expression or a list again",
      "a list with a list as its tail is printed as a list of two elements",
      [(P, '''        return "[%s|%s]" % (self.head, self.tail)
''', '''        return ("[%s|%s]" if isinstance(self.tail, (AstVariable, AstList)) else "[%s, %s]") % (self.head, self.tail)
''')],
      HEAD + '''
import agentspeak.parser, agentspeak.lexer
log = agentspeak.Log(agentspeak.get_logger("x"), 3)
parse = lambda text: agentspeak.parser.parse("x", agentspeak.lexer.TokenStream(agentspeak.StringSource("x", text), log), log)
once = str(parse("+!g(X) <- X = [a|[b|T]]."))
got = run("!g. +!g <- .emit(1); !f([a, b, c]). " + once.replace("+!g(X)", "+!f(X)") + "", swallow=False)
expect(got, [("ag", "1")])
''')

plant("c15-fold", "C15", "a conjunction of comparisons of constants, of which one is a negation",
      "a negated comparison of constants is computed without the negation",
      [(P, """                const = AstConst()
                const.loc = ast_unary_op.loc
                const.value = ast_unary_op.operator.value.func(folded.value)
                return const
            else:
                ast_unary_op.operand = folded
        else:
            self.log.error("unexpected operator '%s' in boolean context",
""", """                const = AstConst()
                const.loc = ast_unary_op.loc
                const.value = ast_unary_op.operator.value.func(folded.value)
                return const if isinstance(ast_unary_op.operand, AstConst) else folded
            else:
                ast_unary_op.operand = folded
        else:
            self.log.error("unexpected operator '%s' in boolean context",
""")],
      HEAD + '''
expect(run("!g. +!g <- if (not (1 < 2)) { .emit(1) } else { .emit(2) }."), [("ag", "2")])
''')

plant("c14-annots", "C14", "an atom with annotations as a value",
      "annotations of atoms are not shown",
      [(A, """        if self.annots:
            builder.append("[")
            builder.append(", ".join(asl_repr(annot) for annot in self.annots))
""", """        if self.annots and self.args:
            builder.append("[")
            builder.append(", ".join(asl_repr(annot) for annot in self.annots))
""")],
      HEAD + '''
expect(run("!g. +!g <- .emit(p(1)[a], q[b])."), [("ag", "p(1)[a]", "q[b]")])
''')

plant("c16-marks", "C16", "an error whose secondary location is on another line",
      "the excerpt of the main line is marked at columns of another line",
      [(A, """                    or extra_loc.lineno != loc.lineno
""", """                    or extra_loc.lineno > loc.lineno
""")],
      HEAD + '''
import agentspeak.lexer
f = agentspeak.LogFormatter()
main = agentspeak.lexer.SourceLocation("x", 3, 8, 9, "abcdefghijkl")
extra = agentspeak.lexer.SourceLocation("x", 2, 1, 4, "ABCDEFGHIJKL")
r = logging.LogRecord("x", logging.ERROR, "x", 1, "m", (), None)
r.message = "m"
r.loc = main
r.extra_locs = [extra]
expect("~" in f.formatMessage(r), False)
''')

plant("c17-goals", "C17", "initial goals before and inside of a begin and an end directive",
      "goals inside of directives are started before those in front of it",
      [(P, """                agent.goals += sub_agent.goals
""", """                agent.goals = sub_agent.goals + agent.goals
""")],
      HEAD + '''
expect(run("!f(1). {begin ns} !f(2). {end} !f(3). +!f(X) <- .emit(X)."), [("ag", "1"), ("ag", "2"), ("ag", "3")])
''')

plant("c18-nth", "C18", "a negative index",
      "a negative index counts from the end of the list instead of being an error",
      [(SL, "    assert index >= 0\n", "    assert abs(index) <= len(l)\n")],
      HEAD + '''
expect(run("!g. +!g <- .nth(-1, [a, b], X); .emit(X)."), [("error", )])
''')

plant("c18-empty", "C18", "looking for the empty text",
      "the empty text does not occur anywhere",
      [(SL, "    pos = haystack.find(needle)\n", "    pos = haystack.find(needle) if needle else -1\n")],
      HEAD + '''
expect(len(run('!g. +!g <- for (.substring("", "ab", X)) { .emit(X) }.')), 3)
''')

plant("c19-trail", "C19", "a function used in a condition that fails later, with another alternative using the same variable",
      "the result of a function stays bound on backtracking",
      [(A, "                if unify(term.args[-1], result, intention.scope, intention.stack):",
           "                if unify(term.args[-1], result, intention.scope, []):")],
      HEAD + '''
expect(run("p(7). !g. +!g <- for (.length([a], X) & X > 3 | p(X)) { .emit(X) }."), [("ag", "7")])
''')

plant("c20-ge", "C20", "comparing two structures that are equal",
      "a structure is not greater than or equal to itself",
      [(A, "        return self.args >= other.args\n", "        return self.args > other.args\n")],
      HEAD + '''
expect(run("!g. +!g <- X = 1; if (p(X) >= p(1)) { .emit(1) } else { .emit(2) }."), [("ag", "1")])
''')

plant("c21-cond", "C21", "an action or a query that fails as a statement",
      "the message does not tell where the statement is",
      [(R, """        self.f = f
        self.success = None
        self.failure = None
        self.loc = loc
        self.extra_locs = extra_locs
""", """        self.f = f
        self.success = None
        self.failure = None
        self.loc = loc if f is not next_or_fail else None
        self.extra_locs = extra_locs
""")],
      HEAD + '''
import io
records = []
class H(logging.Handler):
    def emit(self, record):
        records.append(getattr(record, "loc", None))
logging.disable(logging.NOTSET)
lg = agentspeak.get_logger("agentspeak.runtime")
lg.addHandler(H())
sys.stderr = io.StringIO()
run("!g. +!g <-\\n.emit(1);\\n.fail;\\n.emit(2).")
expect([r and r.lineno for r in records][:1], [3])
''')

plant("c22-copies", "C22", "several instances built at once with a name of their own",
      "all but the first instance are named after the file",
      [(R, """            agent = agent_cls(self, self._make_name(name or source.name),
                None,""", """            agent = agent_cls(self, self._make_name(source.name),
                None,""")],
      HEAD + '''
env = agentspeak.runtime.Environment()
agents = env.build_agents(agentspeak.StringSource("file", "p."), 3, agentspeak.stdlib.actions, name="bob")
expect(sorted(env.agents), ["bob", "bob1", "bob2"])
''')

plant("c24-or", "C24", "inspecting an agent with a rule or plan whose condition has an alternative inside of a conjunction",
      "the alternative is shown as if it was not grouped",
      [(R, '''        return "(%s | %s)" % (self.left, self.right)
''', '''        return "%s | %s" % (self.left, self.right)
''')],
      HEAD + '''
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("a", "r :- (p | q) & s."), agentspeak.stdlib.actions)
text = str(a.rules[("r", 0)][0])
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b", text + ". p. !g. +!g : r <- .print(1). +!g."), agentspeak.stdlib.actions)
i = agentspeak.runtime.Intention()
expect(any(True for _ in agentspeak.runtime.TermQuery(agentspeak.Literal("r")).execute(b, i)), False)
''')

plant("c25-stderr", "C25", "a program that causes a message",
      "messages of the interpreter get mixed into the output of the program",
      [(A, "    handler = LogHandler(sys.stderr)", "    handler = LogHandler(sys.stdout)")],
      HEAD + '''
import os, shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, "x.asl"), "w") as f:
        f.write("!g. +!g <- .print(1). late.")
    r = subprocess.run([sys.executable, "-m", "agentspeak", os.path.join(d, "x.asl")], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
finally:
    shutil.rmtree(d)
expect(len(r.stdout.splitlines()), 1)
''')

plant("c25-status", "C25", "a program whose initial goal has no applicable plan",
      "the exit status is that of a success",
      [(R, """    except agentspeak.AslError as error:
        LOGGER.error("%s", error)
        sys.exit(1)
""", """    except agentspeak.AslError as error:
        LOGGER.error("%s", error)
""")],
      HEAD + '''
import os, shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, "x.asl"), "w") as f:
        f.write("!g.")
    r = subprocess.run([sys.executable, "-m", "agentspeak", os.path.join(d, "x.asl")], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
finally:
    shutil.rmtree(d)
expect(r.returncode, 1)
''')

plant("c26-bind", "C26", "a question asked by Python code with an intention of its own",
      "the answer to a question from Python is not bound",
      [(R, """        try:
            next(query.execute(self, intention))
            return True
""", """        choicepoint = object()
        intention.stack.append(choicepoint)
        try:
            next(query.execute(self, intention))
            if intention.instr is None:
                agentspeak.reroll(intention.scope, intention.stack, choicepoint)
            return True
""")],
      HEAD + '''
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("a", "p(1)."), agentspeak.stdlib.actions)
i, x = agentspeak.runtime.Intention(), agentspeak.Var()
a.test_belief(agentspeak.Literal("p", (x, )), i)
expect(i.scope.get(x), 1)
''')

plant("c26-front", "C26", "a goal started by Python code with an intention in which something is bound, while others are pending",
      "the goal overtakes the goals that were started before",
      [(R, "                    self.intentions.append(new_intention_stack)\n", """                    if calling_intention.instr is None and calling_intention.scope:
                        self.intentions.appendleft(new_intention_stack)
                    else:
                        self.intentions.append(new_intention_stack)
""")],
      HEAD + '''
out = []
actions = agentspeak.Actions(agentspeak.stdlib.actions)
actions.add_procedure(".emit", (int, ), out.append)
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("a", "p(2). !g(1). +!g(X) <- .emit(X)."), actions)
i, x = agentspeak.runtime.Intention(), agentspeak.Var()
a.test_belief(agentspeak.Literal("p", (x, )), i)
a.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement, agentspeak.Literal("g", (x, )), i)
a.run()
expect(out, [1, 2])
''')

plant("c26-addplan", "C26", "a plan added by Python code to an agent that has two plans for the same event already",
      "the plan is tried before the ones that are there",
      [(R, "        self.plans[(plan.trigger, plan.goal_type, plan.head.functor, len(plan.head.args))].append(plan)\n",
        """        plans = self.plans[(plan.trigger, plan.goal_type, plan.head.functor, len(plan.head.args))]
        if plans and self.name in self.env.agents:
            plans.insert(len(plans) - 1, plan)
        else:
            plans.append(plan)
""")],
      HEAD + '''
out = []
actions = agentspeak.Actions(agentspeak.stdlib.actions)
actions.add_procedure(".emit", (int, ), out.append)
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("a", "+!g <- .emit(1)."), actions)
b = env.build_agent(agentspeak.StringSource("b", "+!g <- .emit(2)."), actions)
key, = [k for k in b.plans if b.plans[k]]
a.add_plan(b.plans[key][0])
a.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement, agentspeak.Literal("g"), agentspeak.runtime.Intention())
a.run()
expect(out, [1])
''')

plant("c03-once", "C03", "a disjunction whose left side succeeds without binding anything",
      "the right side of the disjunction is not tried, so that answers are missing",
      [(R, """        for _ in self.left.execute(agent, intention):
            yield

        for _ in self.right.execute(agent, intention):
            yield
""", """        before = len(intention.scope)
        for _ in self.left.execute(agent, intention):
            yield
            if len(intention.scope) == before:
                return

        for _ in self.right.execute(agent, intention):
            yield
""")],
      HEAD + '''
expect(run("p. q(1). !g. +!g <- for (p | q(X)) { .emit(1) }."), [("ag", "1")] * 2)
''')

plant("c06-nesting", "C06", "more than eight nested loops",
      "bindings of the outer loops are not undone",
      [(R, "        self.choicepoint_stack = collections.deque()", "        self.choicepoint_stack = collections.deque(maxlen=8)")],
      HEAD + '''
n = 10
loops = "".join("for (p(X%d)) { " % i for i in range(n))
expect(run("p(1). !g. +!g <- " + loops + ".emit(1)" + " }" * n + "; .emit(2)."), [("ag", "1"), ("ag", "2")])
''')

plant("c06-empty", "C06", "a while loop with an empty body, whose condition changes by an action in it",
      "the condition of a loop without body is evaluated only once",
      [(R, "        while_tail.success = while_head\n", "        while_tail.success = while_head if ast_while.body.formulas else tail\n")],
      HEAD + '''
out = []
actions = agentspeak.Actions(agentspeak.stdlib.actions)
actions.add_function(".next", (), lambda: out.append(1) or len(out))
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("a", "!g. +!g <- while (.next(X) & X < 4) { }."), actions)
a.run()
expect(len(out), 4)
''')

plant("c01-close", "C01", "two numbers that differ by less than a billionth",
      "numbers that are different unify",
      [(A, "    else:\n        return left == right\n\n\ndef unifies", "    else:\n        return left == right or (is_number(left) and is_number(right) and abs(left - right) < 1e-9)\n\n\ndef unifies")],
      HEAD + '''
expect(run("p(0.0000000001). !g. +!g : p(0) <- .emit(1). +!g <- .emit(2)."), [("ag", "2")])
''')

plant("c08-cache", "C08", "two waits for events of the same name with different arguments",
      "the second wait waits for the event of the first one",
      [(SL, "        event = ast_event.accept(agentspeak.runtime.BuildEventVisitor(log))",
        "        key = (ast_event.trigger, ast_event.goal_type, ast_event.head.functor, len(ast_event.head.terms))\n        event = _EVENTS.setdefault(key, ast_event.accept(agentspeak.runtime.BuildEventVisitor(log)))"),
       (SL, "# Custom actions for debugging:", "_EVENTS = {}\n\n\n# Custom actions for debugging:")],
      HEAD + '''
expect(run('!g. !h. +!g <- .wait("+p(1)"); .emit(1); .wait("+p(2)"); .emit(2). +!h <- +p(1); +q; +q(1); +p(1).'), [("ag", "1")])
''')

plant("c10-names", "C10", "a broadcast by an agent while the name of another one starts with its own",
      "agents with similar names do not get broadcasts",
      [(SL, "        if receiver == agent:", "        if receiver.name.startswith(agent.name):")],
      HEAD + '''
expect(run("!g. +!g <- .broadcast(tell, p).", [("ag1", "+p <- .emit(1)."), ("b", "+p <- .emit(1).")]), [("ag1", "1"), ("b", "1")])
''')

plant("c15-case", "C15", "a comparison of two constant strings that differ in upper and lower case",
      "constant strings are compared without regard to case, other than at run time",
      [(P, "                elif isinstance(left.value, str) and isinstance(right.value, str):\n                    const.value = ast_binary_op.operator.value.func(left.value, right.value)",
        "                elif isinstance(left.value, str) and isinstance(right.value, str):\n                    const.value = ast_binary_op.operator.value.func(left.value.lower(), right.value.lower())")],
      HEAD + '''
expect(run('!g. +!g <- .emit("B" < "a").'), [("ag", "true")])
''')

plant("c02-equals", "C02", "`=` with an annotated literal on the left hand side and a variable, bound to a literal, on the right hand side",
      "the annotations of the variable's value have to be among those of the other literal, not the other way round",
      [(R, "        return agentspeak.unify_annotated(self.left, self.right, intention.scope, intention.stack)",
        "        # Variables to the left.\n        left, right = (self.right, self.left) if isinstance(self.right, agentspeak.Var) else (self.left, self.right)\n        return agentspeak.unify_annotated(left, right, intention.scope, intention.stack)")],
      HEAD + '''
expect(run("q(p(1)[a, b]). !g. +!g : q(Q) <- if (p(X)[a] = Q) { .emit(X) } else { .emit(no) }."), [("ag", "1")])
''')

plant("c05-default", "C05", "plans without context written before plans with one, for an event without arguments",
      "plans without context are tried last instead of in program order",
      [(R, "            (trigger, goal_type, frozen.functor, len(frozen.args))\n        ]\n",
        "            (trigger, goal_type, frozen.functor, len(frozen.args))\n        ]\n        if not frozen.args and len(applicable_plans) > 2:\n            # Defaults last.\n            applicable_plans = sorted(applicable_plans, key=lambda p: isinstance(p.context, TrueQuery))\n"),
       (R, "        applicable_plans = self.plans[\n", "        applicable_plans = self.plans[  # in program order\n")],
      HEAD + '''
expect(run("c. !g. +!g : c & d <- .emit(0). +!g <- .emit(1). +!g : c <- .emit(2)."), [("ag", "1")])
''')

plant("c08-millis", "C08", "a wait of a duration that is no whole number of milliseconds",
      "the wait ends too early",
      [(SL, "        until = agent.env.time() + millis / 1000", "        until = agent.env.time() + millis // 1 / 1000")],
      HEAD + '''
env = agentspeak.runtime.Environment()
env.time = lambda: 5.0
agent = env.build_agent(agentspeak.StringSource("a", "!g. +!g <- .wait(0.75)."), agentspeak.stdlib.actions)
for _ in range(5):
    agent.step()
expect([round(s[-1].waiter.until, 6) if s[-1].waiter else None for s in agent.intentions], [5.00075])
''')

plant("c08-dot", "C08", "a wait for an event whose text contains a full stop other than at its end",
      "the text of the event is rejected",
      [(SL, '        if not event.endswith("."):', '        if "." not in event:')],
      HEAD + '''
expect(run('!g. !h. +!g <- .wait("+p(0.5)"); .emit(1). +!h <- +q; +p(0.5).'), [("ag", "1")])
''')

plant("c07-result", "C07", "a subgoal with one argument that is called from within a loop or condition of a plan that waits for its result",
      "the result is bound with variables that belong to the plan that has ended",
      [(R, "                frozen = intention.head_term.freeze(intention.scope, {})", "                frozen = intention.head_term.freeze(intention.scope, {}) if intention.head_term.args[1:] or not intention_stack[-1].query_stack else intention.head_term")],
      HEAD + '''
expect(run("p(1). p(2). !g. +!g <- for (p(X)) { !sub(Y); .emit(X, Y) }. +!sub(Z) <- .findall(A, p(A), Z)."), [("ag", "1", "[1, 2]"), ("ag", "2", "[1, 2]")])
''')

plant("c10-forget", "C10", "a message that withdraws a belief, while the receiver believes the same with further annotations",
      "the belief with further annotations is withdrawn as well",
      [(R, "                relevant_beliefs.remove(belief)\n                return True",
        "                relevant_beliefs.difference_update([other for other in relevant_beliefs if other is belief or term.annots and other.args == belief.args and other.annots > belief.annots])\n                return True")],
      HEAD + '''
ops = "".join(".send(b, tell, p(%d)); .send(b, tell, p(%d)[x]); .send(b, untell, p(%d)); " % (i, i, i) for i in range(12))
expect(run("!g. +!g <- " + ops + ".send(b, achieve, show).", [("b", "+!show <- .count(p(_), N); .emit(N).")]), [("b", "12")])
''')

plant("c12-arities", "C12", "a question for plans of a name for which there are also plans with other numbers of arguments",
      "plans of one of the numbers of arguments are not sent",
      [(R, "                    plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor, len(differents.head.args))].append(differents)",
        "                    plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor)] = [p for p in plan]")],
      HEAD + '''
expect(run('!g. +!g <- .send(b, askHow, "+!h(X)"); .send(ag, achieve, go). +!go <- !h(1); !h(1, 2).', [("b", "+!h(X) <- .emit(X). +!h(X, Y) <- .emit(X, Y).")]), [("ag", "1"), ("ag", "1", "2")])
''')

plant("c18-ground", "C18", ".ground on a compound term, executed again with other bindings",
      "what has been ground once is taken to be ground for ever",
      [(A, """        return all(is_ground(arg, scope) for arg in self.args) and all(
            is_ground(annot, scope) for annot in self.annots
        )""", """        if not getattr(self, "_ground", False):
            self._ground = all(is_ground(arg, scope) for arg in self.args) and all(
                is_ground(annot, scope) for annot in self.annots
            )
        return self._ground""")],
      HEAD + '''
expect(run("!g. +!g <- !t(1); !t(X). +!t(X) <- if (.ground(f(X))) { .emit(yes) } else { .emit(no) }."), [("ag", "yes"), ("ag", "no")])
''')

plant("c18-large", "C18", "a whole number of more than fifteen digits that is printed or concatenated",
      "large numbers lose digits in their text",
      [(A, "        return str(int(term))", "        return str(int(term)) if abs(term) < 1e15 else '%g' % term")],
      HEAD + '''
expect(run('!g. +!g <- .concat("x", 1234567890123456, S); .emit(S).'), [("ag", '"x1234567890123456"')])
''')

plant("c19-root", "C19", "an action registered both with a fixed and with any number of arguments, in a registry without parent",
      "the action for any number of arguments is called in place of the one for the given number",
      [(A, "        if group in self.actions:\n            return self.actions[group]\n        elif functor in self.variadic_actions:\n            return self.variadic_actions[functor]",
        "        if group in self.actions and (self.parent or functor not in self.variadic_actions):\n            return self.actions[group]\n        elif functor in self.variadic_actions:\n            return self.variadic_actions[functor]")],
      HEAD + '''
actions = agentspeak.Actions()
actions.add(".a", None, "any")
actions.add(".a", 1, "one")
expect((actions.lookup(".a", 1), actions.lookup(".a", 2)), ("one", "any"))
''')

plant("c20-annots", "C20", "two literals that differ in their annotations only, with the same number of annotations",
      "different literals compare equal by !=",
      [(A, "            or self.annots != other.annots", "            or len(self.annots) != len(other.annots)")],
      HEAD + '''
L = agentspeak.Literal
expect(L("p", (1,), frozenset([L("a")])) != L("p", (1,), frozenset([L("b")])), True)
''')

plant("c17-link", "C17", "an include path that goes through a link to a directory and then up with ..",
      "the path is shortened as text, so another file or none is included",
      [(P, "                include = os.path.join(os.path.dirname(filename), include)", "                include = os.path.normpath(os.path.join(os.path.dirname(filename), include))")],
      HEAD + '''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/t/deep")
    os.symlink(d + "/t/deep", d + "/ln")
    for path, text in (("t/f.asl", "p(1)."), ("f.asl", "p(2)."), ("main.asl", '{ include("ln/../f.asl") }')):
        with open(os.path.join(d, path), "w") as f:
            f.write(text)
    with open(d + "/main.asl") as f:
        agent = agentspeak.runtime.Environment().build_agent(f, agentspeak.stdlib.actions)
    expect([str(b) for bs in agent.beliefs.values() for b in bs], ["p(1)"])
''')

plant("c13-bar", "C13", "a list with three or more terms before the bar",
      "a text outside the language is accepted",
      [(P, "            if len(ast_list.terms) > 1:\n                raise log.error(\"do not mix", "            if len(ast_list.terms) == 2:\n                raise log.error(\"do not mix")],
      HEAD + '''
expect(run("p([a, b, c | [d]])."), [("error",)])
''')

plant("c18-shared", "C18", "a result that is a list of three or more elements, two of which are the same unbound variable",
      "the two elements become different variables",
      [(A, "        return tuple(freeze(t, scope, memo) for t in term)", "        return tuple(freeze(t, scope, memo if len(term) < 3 else dict(memo)) for t in term)")],
      HEAD + '''
expect(run("p(1). !g. +!g <- .findall([Y, X, Y], p(X), [[A, B, C]]); A = 5; .emit(A, B, C)."), [("ag", "5", "1", "5")])
''')

plant("c04-replace", "C04", "-+ with an annotated literal, while a belief without that annotation exists",
      "a belief that the pattern does not match is removed",
      [(R, "            removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())",
        "            removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())\n            removal_term = agentspeak.Literal(removal_term.functor, removal_term.args) if agentspeak.is_literal(removal_term) else removal_term")],
      HEAD + '''
expect(run("p(1). !g. +!g <- -+p(1)[a]; .count(p(_), N); .emit(N)."), [("ag", "2")])
''')

plant("c22-hundred", "C22", "more than a hundred agents of one source name",
      "an agent takes the name of another one, which is lost",
      [(R, "        while name in self.agents:\n", "        while name in self.agents and i <= 99:\n")],
      HEAD + '''
env = agentspeak.runtime.Environment()
agents = env.build_agents(agentspeak.StringSource("a", "p."), 120, agentspeak.stdlib.actions)
expect((len(env.agents), len(set(a.name for a in agents))), (120, 120))
''')

plant("c08-drop", "C08", "waiting for the withdrawal of a goal without arguments",
      "the intention waits forever",
      [(R, "            if agentspeak.unifies_annotated(event.head, frozen):\n                intention.waiter = None",
        "            if agentspeak.unifies_annotated(event.head, frozen):\n                if trigger == agentspeak.Trigger.removal and goal_type == agentspeak.GoalType.achievement and not frozen.args:\n                    continue\n                intention.waiter = None")],
      HEAD + '''
expect(run('!i. !j. +!i <- .wait("-!g"); .emit(woken). +!j <- .send(ag, unachieve, g); .emit(sent).'), [("ag", "woken"), ("ag", "sent")])
''')

plant("c03-order", "C03", "several rules for a name without arguments, the first of which that holds matters",
      "rules without arguments are tried in reverse order",
      [(R, "        self.rules[(rule.head.functor, len(rule.head.args))].append(rule)",
        "        rules = self.rules[(rule.head.functor, len(rule.head.args))]\n        rules.insert(len(rules) if rule.head.args else 0, rule)")],
      HEAD + '''
expect(run("h :- .emit(1). h :- .emit(2). !g. +!g <- if (h) { .emit(yes) }."), [("ag", "1"), ("ag", "yes")])
''')

plant("c05-seventh", "C05", "seven or more plans for one event, of which several are applicable",
      "the first applicable plan in program order is not the one that runs",
      [(R, "        self.plans[(plan.trigger, plan.goal_type, plan.head.functor, len(plan.head.args))].append(plan)",
        "        plans = self.plans[(plan.trigger, plan.goal_type, plan.head.functor, len(plan.head.args))]\n        plans.insert(len(plans) if len(plans) < 6 else 5, plan)")],
      HEAD + '''
expect(run("!g. " + " ".join("+!g : %s <- .emit(%d)." % ("true" if i > 4 else "false", i) for i in range(8))), [("ag", "5")])
''')

plant("c06-chain", "C06", "an else branch that ends with a condition, loop or action",
      "the last statement of the else branch leads back or is left out",
      [(R, "            self.tail.success = tail\n        else:\n            test_instr.failure = tail",
        "            (else_head if self.tail.f is pop_query and self.tail is not else_head.success else self.tail).success = tail\n        else:\n            test_instr.failure = tail")],
      HEAD + '''
expect(run("!g. +!g <- if (false) { .emit(1) } else { .emit(2); .emit(3) }; .emit(4)."), [("ag", "2"), ("ag", "3"), ("ag", "4")])
''')

plant("c15-lazy", "C15", "a variable that is set to an expression whose operand is bound only afterwards or undone",
      "an expression that can not be evaluated is not reported where it stands",
      [(A, "        self.bind(evaluate(right, scope), scope, stack)\n        return True",
        "        self.bind(right if isinstance(right, BinaryExpr) else evaluate(right, scope), scope, stack)\n        return True")],
      HEAD + '''
expect(run("!g. +!g <- X = Y + 1; .emit(no); Y = 2; .emit(X)."), [("error",)])
''')
