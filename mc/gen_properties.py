#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os

I = "agentspeak/__init__.py"
R = "agentspeak/runtime.py"
P = "agentspeak/parser.py"
L = "agentspeak/lexer.py"
S = "agentspeak/stdlib.py"
X = "agentspeak/ext_stdlib.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": anchors})


prop("C01", "Unification succeeds exactly when it can, with a most general result",
     "Unifying two terms (atoms, structures, numbers, strings, booleans, lists, [H|T] lists, constant "
     "arithmetic and variables, under any earlier bindings) succeeds exactly when some assignment to the still "
     "unbound variables makes them the same term, whichever of the two is given first. On success both terms denote the same term, "
     "no variable is bound more specifically than that requires, and no earlier binding has changed. "
     "Undoing a unification attempt, successful or not, restores exactly the bindings that existed before it.",
     ["inputs"], "all pairs of terms and all sets of earlier bindings (excluding pairs whose only solution is an infinite term; annotations are C02)",
     "The unit tests try a dozen hand-picked pairs; the guarantee is about every pair of terms, every sharing pattern of variables and every earlier binding.",
     [I], [("per-type unify methods and the unify() dispatcher", I), ("binding trail and reroll()", I)],
     ["agentspeak.unify / unifies with a bindings dict and a trail"])

prop("C02", "Annotated literals match iff annotations can be paired consistently",
     "A literal matches another one exactly when functor and arguments unify and each of its annotations can be "
     "paired with a different annotation of the other literal, all under one consistent set of bindings; the order "
     "in which annotations were written never matters. "
     "Enumerating the matches offers the bindings of every such pairing and of nothing else, and leaves all bindings as they were once it is exhausted. "
     "This decides which beliefs an annotated query, removal or plan head applies to, and whether (and how often) `left = right` holds between annotated literals in a program.",
     ["inputs", "configurations"], "all pairs of annotated literals with up to three annotations each side, all earlier bindings, all internal iteration orders of annotation sets",
     "Tests use ground or single-variable annotations in one fixed hash order; wrong pairings only show for particular overlaps and orders.",
     [I, R], [("unify_annotated / annotation pairing", I), ("belief lookup in queries and removals", R)],
     ["agentspeak.unify_annotated, unifies_annotated", "queries p(..)[..] in agent programs"])

prop("C03", "Queries give exactly the derivable answers and undo failed branches",
     "A query made of belief patterns, rules (also recursive), conjunction, disjunction, negation, comparison, unification and "
     "built-in actions has exactly the answers that follow from the agent's beliefs and rules: every derivation once, conjunctions from left to right, the left "
     "alternative before the right one, beliefs before rules, rules in program order. "
     "Bindings made by a failed, negated or exhausted branch are never visible afterwards. "
     "This holds wherever queries occur: plan contexts, conditions, loops, test goals and aggregate actions.",
     ["programs", "inputs"], "all queries up to a nesting depth over all small belief bases and rule sets",
     "Tests run a few fixed queries; leaked or lost bindings only show for particular nestings of disjunction, negation, actions and rules.",
     [R, I, S], [("query objects (and/or/not/unify/term/action)", R), ("binding trail and reroll()", I), ("variable renaming of rules", R)],
     ["for/if/context/test-goal results of agent programs"])

prop("C04", "Belief base and belief events reflect exactly the operations performed",
     "After any history of additions, removals, replacements and abolishments performed by plans or received as messages, the belief base holds exactly the ground beliefs that history "
     "leaves, where beliefs differing in arguments, annotations or the type of an argument are different and duplicates are not. "
     "Every addition and every removal that removed something triggers the matching belief-event plan exactly once with the right bindings; a removal removes exactly one matching belief and binds its variables, "
     "a removal without a match does nothing. Loops over beliefs see the beliefs as they were when the loop's query reached them, also if the loop body changes them.",
     ["histories", "programs"], "all operation sequences up to a depth over a small universe of beliefs",
     "Tests check a few fixed programs; the belief base is state, and its correctness is about every history of operations.",
     [R, S, I], [("add_belief / remove_belief / test_belief and event dispatch", R), (".abolish", S), ("term equality and hash", I)],
     ["agent.beliefs after each operation", "belief-event plans"],
     [("agent.beliefs", "belief base by functor and arity", R)])

prop("C05", "The first applicable plan in program order runs, and only that one",
     "For every event, the plan executed is the first one in program order whose trigger matches the event and whose context has an answer, run exactly once, with the bindings of its head and of the first context answer that "
     "the plan's head match allows. "
     "An achievement goal without applicable plan is reported as an error, a belief event without one is ignored, and a test goal without one is answered from the beliefs.",
     ["programs", "inputs"], "all small plan libraries (triggers, head patterns, annotations, contexts) against all events of a small universe",
     "Selection depends on order, overlap and failing contexts of several plans at once; the tests contain only a few fixed overlaps.",
     [R], [("Agent.call: matching and plan selection", R), ("plan library keyed by trigger, goal type and signature", R)],
     ["which plan's actions run and with what arguments"],
     [("agent.plans", "plan library", R)])

prop("C06", "Plan bodies execute exactly the statements their control flow prescribes",
     "Executing a plan body performs exactly the actions that sequence, if/else, while and for prescribe, in order, for every nesting: the branch chosen by the condition, one for-iteration per answer, "
     "while-iterations as long as the condition has an answer, then what follows. "
     "Condition bindings are visible in the chosen branch and after an if, bindings made inside a loop iteration do not survive it, and a failing statement ends the plan with an error at that point.",
     ["programs"], "all plan bodies up to a size with nested if/else, while and for, empty bodies, goals and failing statements inside",
     "The compiled control flow graph depends on the surrounding construct and position; tests contain only a few nestings.",
     [R, P], [("instruction graph construction and execution", R), ("body parsing", P)],
     ["trace of executed actions"])

prop("C07", "Subgoals receive arguments, return results, and keep variables apart",
     "Calling a goal passes the current argument values, runs the selected plan to completion before the caller continues, and binds the caller's "
     "unbound arguments to whatever the plan bound them to, also inside structures and lists and for arguments sharing a variable. "
     "Apart from that, no execution of a plan can see or change the variables of another: recursive and concurrent instances of the same plan behave as if each had its own copy of the plan.",
     ["programs", "schedules"], "all small call graphs (depth, recursion, argument patterns, sharing) and all interleavings with concurrent instances",
     "Tests only call a few goals with simple arguments; aliasing shows only for particular sharing patterns or interleavings.",
     [R, I], [("freezing of arguments and back-unification on return", R), ("intention stack", R)],
     ["actions performed by caller and callee with their arguments"],
     [("intention.scope / stack", "bindings and trail of one plan execution", R)])

prop("C08", "Waiting intentions resume exactly when their event or deadline comes",
     "An intention that waits resumes when a matching event occurs or its timeout has elapsed, whichever comes first, exactly once, and neither earlier nor never; non-matching events do not wake it. "
     "Meanwhile every other intention and agent keeps running. "
     "The run loop returns only when no intention is runnable or waiting for a time, never sleeps beyond the earliest deadline and survives arbitrary progress of the clock between any two of its operations.",
     ["schedules", "histories"], "all sets of waiting intentions, event orders and clock advances between any two clock reads, within bounds",
     "Real-time tests run under one clock behaviour; races between polling, events and sleeping depend on when the clock advances.",
     [R, S], [("waiters, polling and wake-up", R), (".wait", S), ("run loop sleeping", R)],
     ["actions after .wait with the virtual time at which they happen", "calls to time.sleep"],
     [("intention.waiter", "what an intention waits for", R)])

prop("C09", "Agents and intentions interleave without affecting each other",
     "Whatever order agents are stepped in, an agent's behaviour depends only on its own program and the messages it receives: agents built from the same source, together or separately, share no beliefs, plans, rules, goals or bindings. "
     "Within an agent, intentions started by separate goals all run to completion exactly once, older ones first unless they wait, and the environment's run loop steps every agent with runnable intentions in every round.",
     ["schedules", "configurations"], "all interleavings of agent steps within a preemption bound, for small multi-agent systems including siblings built together",
     "Tests run one agent, or several under one fixed schedule.",
     [R], [("Environment.run / run_agent / Agent.step", R), ("build_agents", R)],
     ["per-agent traces and belief bases"],
     [("agent.intentions", "queue of intention stacks", R)])

prop("C10", "Messages arrive exactly once at exactly the addressed agents",
     "Sending delivers the content, as its variables were bound when sent, exactly once to each addressed agent (named by atom, string or list) and to nobody else; broadcasting delivers exactly once to every other agent. "
     "tell adds the content as a belief marked with the sender as source, untell removes such a belief, achieve starts the goal as a separate intention of the receiver; each triggers the receiver's matching plans. "
     "Later changes on the sender's or receiver's side do not affect each other.",
     ["programs", "schedules"], "all sequences of up to a few messages of every kind between up to three agents, over all interleavings within a preemption bound",
     "Tests send a handful of messages in one order between fixed agents.",
     [S, R], [(".send / .broadcast", S), ("event dispatch at the receiver", R)],
     ["belief bases and traces of all agents"])

prop("C11", "Withdrawing a goal stops exactly the matching goals, at any moment",
     "When a goal is withdrawn by a message, every matching achievement goal the receiver is pursuing at that moment stops together with the subgoals it started, performing no further action, "
     "whether it is running, waiting or suspended below subgoals. "
     "The plan that had called it continues, and goals that do not match, handlers of belief events, later goals of the same name and the ability to accept further messages are unaffected.",
     ["schedules", "histories"], "all points of the receiver's execution at which the withdrawal can arrive, for all small goal hierarchies",
     "The effect depends on the exact step at which the message arrives; tests and examples try one moment.",
     [R, S], [("goal removal on unachieve", R), (".send", S)],
     ["actions performed after the withdrawal"])

prop("C12", "Plans exchanged between agents behave as they would at their origin",
     "A plan transferred by telling it or by asking for it becomes the receiver's last plan and from then on behaves exactly like the same plan written in the receiver's own program, including label, context, annotations, parameters, control flow and the receiver's own actions. "
     "Asking transfers all plans of the requested name in order and nothing else, any number of times; untelling removes exactly the plans with that label. "
     "Malformed plan texts, and questions for unknown plans, change nobody's plans.",
     ["programs", "histories"], "all plans of a small grammar and all short histories of plan messages",
     "Plans are serialised to text and reparsed; tests cover no plan exchange at all, examples cover a few plan shapes once.",
     [R, S, P], [("plan serialisation, telling, asking, untelling", R), (".send", S), ("AST printing", P)],
     ["behaviour of the receiver for events handled by transferred plans"])

prop("C13", "Loading any text yields an agent or diagnostics, never a crash or partial agent",
     "For every input text, loading terminates with either an agent or reported errors; it never ends in an internal failure. "
     "A text outside the language is rejected and a text of the language is accepted. "
     "A failed load leaves the environment, its agents and their names as they were.",
     ["inputs"], "all token sequences up to a length in each syntactic context, and all single-token edits of complete programs",
     "The tests parse a few valid programs and almost no malformed ones.",
     [L, P, R], [("tokenizer", L), ("recursive descent parser and validation", P), ("agent building", R)],
     ["Environment.build_agent: agent, AggregatedError or AslError"])

prop("C14", "Printing a program or a term and reading it back gives the same thing",
     "Printing a parsed program and parsing the output gives a program with the same beliefs, rules, goals and plans, for every program. "
     "Printing any ground term and reading it back gives an equal term of the same type, in particular for strings with quotes, backslashes, control and non-ASCII characters, and for negative, integral and fractional numbers.",
     ["inputs", "programs"], "all small syntax trees with every operator nesting, and all small terms over a set of difficult constants",
     "Precedence and quoting errors depend on particular nestings or characters; tests contain none of these round trips.",
     [P, I], [("__str__ of AST nodes", P), ("asl_repr / parse_string", I)],
     ["str(ast)", "agentspeak.asl_repr"])

prop("C15", "Expressions mean what precedence says, folded at load time or not",
     "Every arithmetic, comparison or logical expression has the value given by conventional precedence, associativity and operator definitions (power binds tighter than unary minus, which binds tighter than products, then sums, comparisons, not, and, or; chained comparisons are conjunctions). "
     "The value is the same whether operands are constants, known at load time, or variables bound at run time. "
     "Ill-typed operands and division by zero are reported as errors, at load time or when executed, and never give a value.",
     ["inputs", "programs"], "all expressions up to a depth over all operators and a set of constants, each with every way of replacing constants by variables",
     "Tests evaluate a few expressions; constant folding and run-time evaluation are separate code paths that must agree everywhere.",
     [P, R, I], [("expression parsing and constant folding", P), ("run-time evaluation", I)],
     ["values passed to actions; outcome of conditions"])

prop("C16", "Comments and layout never change a program; locations are exact",
     "Inserting or removing whitespace, line breaks or comments between the tokens of a program does not change what it means. "
     "Every token is recognised as the longest lexeme of its kind with its exact text, and its reported line and columns are where that text stands in the file. Numerals stand for their value, and string literals for the characters written, with escape sequences as in Python replaced and incomplete ones kept. "
     "Errors are reported at the line where the offending token stands, and a displayed message shows file, line, column, the source line, and marks exactly the located characters of that line.",
     ["inputs"], "all sequences of a few tokens joined by all kinds of separators, with comments placed at every position",
     "Adjacent tokens and comments interact pairwise; the tests contain almost none of these combinations.",
     [L, P], [("tokenizer", L)],
     ["tokens and their locations; parsed program"])

prop("C17", "Including files equals writing their contents in place, and always ends",
     "A program with include directives has the same beliefs, rules, goals and plans, in the same order, as the program with each directive replaced by the contents of the named file, resolved relative to the including file. "
     "Cyclic inclusion, however the paths are spelled, and missing files are reported as errors and loading always terminates; including the same file twice without a cycle is allowed. "
     "Errors inside an included file are reported with that file's name and line. Begin and end directives change nothing about the parts between them, and are errors if they do not match within a file.",
     ["configurations", "inputs"], "all include graphs over up to three or four files in nested directories with all path spellings",
     "Tests include one file once.",
     [P], [("include handling in the parser", P)],
     ["loaded program and reported errors"])

prop("C18", "Built-in actions compute their documented functions",
     "Each built-in action on lists, strings, numbers, types and queries (concatenation, length, nth, sort, min, max, member, substring, type tests, ground, findall, count, sum, range, tail, rounding, my_name, fail, print, csv, date, time, random numbers of a range) succeeds exactly when its result unifies with the given "
     "arguments and then binds exactly that result, on backtracking enumerates all of its results in order, and undoes its bindings afterwards. "
     "Out-of-domain arguments are reported as errors and never give a result.",
     ["inputs"], "all argument tuples over a set of small lists, strings, numbers, literals and variables, in every binding mode",
     "Tests call most actions once or never.",
     [S, X, I], [("action implementations", S), ("extended actions", X), ("argument conversion", I)],
     ["bindings and answers of action calls in programs"])

prop("C19", "Custom actions are called as registered, with converted arguments",
     "A call in a program runs the action registered for that name and number of arguments, preferring an exact arity over a variadic one and a registry over the one it extends; without one it is not an action. "
     "A function, predicate or procedure receives the current argument values, converted or checked as declared, together with the environment or calling agent where declared; its result is unified with the last argument, decides success, or is ignored, respectively. "
     "This holds in every place where queries occur, including rules.",
     ["configurations", "inputs"], "all small registries with parents, arities and variadic actions against all calls; all declarations against all argument kinds",
     "Tests only use the built-in registry.",
     [I, R], [("Actions registry and lookup", I), ("argument conversion", I), ("action queries", R)],
     ["calls received by registered Python callables"])

prop("C20", "Equality, hashing, ordering and copying of terms are consistent",
     "Equality of terms is an equivalence that distinguishes types (numbers, booleans, strings, atoms, lists, structures) and ignores only the order of annotations and how a list was built; equal terms have equal hashes and are the same belief. "
     "Numbers, strings, atoms, and unannotated structures and lists of the same shape are strictly and totally ordered, compatibly with equality, so that sorting is deterministic. "
     "Copying or grounding a term yields an equal term without any remaining link to the original's variables, preserving which variables are shared.",
     ["inputs"], "all pairs and triples from a set of terms covering every type and nesting, and all small terms with variables under all bindings",
     "Laws over pairs and triples of arbitrary terms; tests check none of them.",
     [I], [("Literal and LinkedList comparison and hash", I), ("freeze / grounded", I)],
     ["==, !=, <, hash of terms; freeze and grounded results"])

prop("C21", "A failing statement is reported and harms nothing but its own intention",
     "Whenever a statement of a plan fails or an action raises, at whatever step, the failure is reported to the caller of the run loop as an error carrying the statement's location, and no statement after it in that intention, nor of the goals waiting for it, is ever executed. "
     "Effects performed before remain, the other intentions and agents are undamaged, and running on executes exactly what they still had to do.",
     ["fault_sequences", "programs"], "a fault injected at every action call of small multi-intention, multi-agent programs, and every kind of statement failure",
     "Tests never make an action fail at a chosen point and continue.",
     [R], [("Agent.step error handling", R)],
     ["exceptions, log records, traces before and after"])

prop("C22", "Every agent gets a unique, addressable name and builds exactly as requested",
     "However agents are built (one at a time or several, from any source name, with or without explicit name, in any order, also after failed builds), each gets a name that no other agent of the environment has, is registered under it, can be addressed by it in messages, and reports it as its own name. "
     "Names derived from a source are valid identifiers related to it; building several yields exactly the requested number of agents that start with the same program.",
     ["histories", "inputs"], "all sequences of up to a few build requests over a set of awkward source names",
     "Tests build single agents with distinct names.",
     [R, I], [("name derivation and registration", R), ("sanitize_functor", I), ("build_agents", R)],
     ["env.agents, agent.name, message delivery"],
     [("env.agents", "agents by name", R)])

prop("C23", "The interactive console stays usable whatever is entered",
     "Entering any sequence of lines in the interactive console executes each complete statement once, in order, with variables keeping their values from line to line; statements may span lines and a line may hold several. "
     "A statement that is wrong or fails is reported and dropped together with its bindings and the rest of its line; it has no other lasting effect: everything entered before and afterwards, and the other intentions of the agent, behave as if it had failed harmlessly.",
     ["histories"], "all sequences of up to a few console lines from a set of complete, partial, wrong and failing statements",
     "No test drives the console.",
     [R, L, P], [("repl loop", R), ("parser on token streams", P)],
     ["console output, traces and beliefs after each line"])

prop("C24", "Inspecting an agent shows what it has and changes nothing",
     "At any moment of any program, .dump (or Agent.dump) succeeds and prints exactly what the agent has at that moment: each belief once, each rule with its body and each plan with its trigger, head and context, "
     "as terms of the language that mean the same, rules and plans of one kind in the order in which they are tried. Wherever it stands in a program, the program otherwise runs as it would without it.",
     ["programs", "histories"], "all conditions of up to two connectives as rule bodies and contexts; all sequences of up to a few statements that change an agent, dumped at every point",
     "What is printed depends on every kind of condition and on the whole history of the agent; no test looks at it.",
     [R, I, S], [("Agent.dump", R), ("string form of queries and rules", R), (".dump", S), ("asl_repr", I)],
     ["standard output of .dump; traces with and without it"],
     [("agent.beliefs, agent.rules, agent.plans", "what the agent has", R)])

prop("C25", "Running a program from the command line is running the program",
     "However the interpreter is started on a program (file by any path, standard input, with the console afterwards), it prints exactly what the program prints, in order, and nothing of a program that can not be loaded. "
     "The exit status is 0 if and only if everything was loaded and run without an error, otherwise 1; then the error is reported by a message on standard error, at its file and line if it is an error of the text. "
     "No unreadable, missing or malformed file and no failing program ends the interpreter with an unhandled Python exception.",
     ["programs", "inputs"], "all sequences of up to a few succeeding and failing statements in every way of starting, and all kinds of wrong or unreadable files at every place",
     "No test starts the interpreter.",
     [R, "agentspeak/__main__.py", L], [("main", R), ("run_agent", R), ("LogHandler", I)],
     ["exit status, standard output, standard error"])

prop("C26", "What Python code does with agents acts like the program doing it",
     "Python code, between steps of the agents or within a custom action, can give an agent goals, belief events, test questions and withdrawals (Agent.call, at once or delayed), change and query its beliefs silently (add_belief, remove_belief, "
     "test_belief) and add plans and rules. Each has the effects, results, bindings and errors of the corresponding statement (silent changes: of the same change, without an event). A goal given with a fresh Intention becomes an intention of its own; "
     "one given without delay with the calling action's intention becomes a subgoal of that statement. Agent.step, Agent.run, Environment.run_agent and Environment.run execute exactly the agents they are asked for until these have nothing left to do (run_agent and run "
     "also wait for deadlines); after an error they can be called again and go on with the rest.",
     ["histories", "inputs"], "all sequences of up to a few calls from outside with all ways of running in between, and from within actions in all kinds of places",
     "Tests and examples make single calls on a fresh agent.",
     [R], [("Agent.call", R), ("add_belief, remove_belief, test_belief", R), ("add_plan, add_rule", R), ("step, run, run_agent", R)],
     ["returned values, bindings, observed actions, final beliefs"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
