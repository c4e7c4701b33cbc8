"""Writes known_findings.json (the list is maintained here by hand; checks never write it)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = json.load(open(os.path.join(ROOT, "mc", "findings_open.json")))
# (property, start of the commit subject, what failed)
FIXED = [
    ("C02", "backtracking over a literal unified with a variable", "exhausting matches of a literal against a variable unbound variables bound earlier (reroll without own choicepoint)"),
    ("C02", "annotation matching tries all pairings", "p[a(X), b(X)]-like annotations: only the first pairing was tried"),
    ("C02", "a variable bound to an annotated literal", "Z = p[a]; Z = p unified other than the literal itself (annotations of the bound side ignored or required, depending on the side)"),
    ("C03", "belief base may be modified while iterating", "for (p(X)) { -p(X) } crashed with 'Set changed size during iteration'"),
    ("C03", "undo variable bindings of actions", "bindings made by an action stayed after it was exhausted"),
    ("C03", ".findall does not mix up variables", "unbound variables of different answers collected by .findall were the same variable"),
    ("C04", ".abolish removes beliefs with more annotations", ".abolish(p(_)) left p(1)[source(x)] in place (direction of annotation matching)"),
    ("C20", "booleans and numbers in terms are never equal", "p(1) and p(true) were the same belief; f(1) == f(true)"),
    ("C06", "bindings made in the body of a for loop", "variables bound in one iteration of for were still bound in the next ones and after the loop"),
    ("C08", "do not sleep for a negative duration", "run loop crashed with ValueError if a deadline passed between polling and sleeping"),
    ("C09", "agents built together no longer share", "build_agents: siblings shared belief base, rules and plans"),
    ("C09", "agents may be created while the environment is running", "env.run crashed if an action built an agent"),
    ("C11", "unachieve drops exactly the matching goals", "unachieve dropped unrelated goals, missed suspended ones or crashed"),
    ("C12", "plans are transmitted as written", "plans were sent with inconsistent variable names and altered bodies"),
    ("C12", "askHow answers with all requested plans", "askHow matched by substring and sent unrelated or incomplete sets of plans"),
    ("C12", "plans to tell, untell or ask for may be given by variables", ".send(r, tellHow, P) with a bound variable crashed"),
    ("C12", "malformed plans received by tellHow", "a malformed plan crashed the receiver or left a broken plan behind"),
    ("C12", "plans received by tellHow can use the custom actions", "received plans could only call the standard actions"),
    ("C13", "initial beliefs with [H|T] lists or expressions", "internal failure (AttributeError) while validating beliefs"),
    ("C13", "lists in arithmetic and boolean expressions", "internal failure in constant folding"),
    ("C12", "a told plan followed by anything else", "a told text with anything behind the plan was accepted and the rest ignored"),
    ("C12", "told plans are validated", "told plans that no program may contain were accepted, e.g. +!g(1 + X) or a body '\"a\" + 1'"),
    ("C13", "report arithmetic operators in query context", "internal failure for '+x' in a query"),
    ("C13", "comparing constant complex numbers", "internal failure for (-8) ** 0.5 < 1"),
    ("C13", "python exceptions while handling initial beliefs", "loading ended in a bare Python exception"),
    ("C13", "programs nested too deeply", "loading deeply nested programs ended in a bare RecursionError"),
    ("C13", "include files that can not be opened", 'loading {include("")} ended in a bare IsADirectoryError'),
    ("C13", "include files that can not be read", "including a file that is not UTF-8 ended in a bare UnicodeDecodeError"),
    ("C14", "non-ASCII characters and incomplete escapes", "string literals with non-ASCII characters were garbled"),
    ("C14", "negative constants are printed in parentheses", "the folded base of (-2) ** X was printed as -2 ** X, which means -(2 ** X)"),
    ("C15", "fractional powers of negative numbers", "(-1) ** 0.5 was a complex number, printed as no term of the language"),
    ("C15", ".findall evaluates expression templates", ".findall(X + 1, p(X), L) failed with an error"),
    ("C15", "arithmetic and comparison errors", "1 / X < 2 as context of a plan for an initial goal ended in a bare ZeroDivisionError for X = 0"),
    ("C16", "tabs are neither expanded", "a tab in a string literal became four spaces, and columns after a tab were not those in the file"),
    ("C17", "recursive includes through symbolic links", "an include cycle through a symbolic link to a directory was followed until the system refused"),
    ("C17", "illegal characters in included files", "crash instead of an error for illegal characters in an included file"),
    ("C17", "recursive includes are detected", "an include cycle through a differently spelled path never ended"),
    ("C18", "lists built with [H|T] behave like ordinary lists", ".length, == and others failed on lists built with [H|T]"),
    ("C18", ".concat renders numbers, booleans and lists", '.concat("a", 1, X) gave "a1.0"'),
    ("C18", ".sum evaluates expressions for every answer", ".sum(X * 2, p(X), S) failed with an error"),
    ("C18", ".sum over booleans is an error", ".sum(X, p(X), S) counted true as 1"),
    ("C19", "custom actions bound to objects", "actions called from rules ran on a deep copy of the object they were bound to"),
    ("C21", "formatting of critical log messages", "formatting a critical log record crashed"),
    ("C20", "lists with a tail that is no list", "[1|b] == [1] ended in an error"),
    ("C21", "errors in conditions and removals", "errors in conditions of if, for and while, in -b and in the removal of -+b had no location"),
    ("C21", "a failed intention is dropped", "a failed intention stayed first in the queue: running on repeated the failing statement or went on behind it"),
    ("C22", "names derived from paths with leading digits", "names derived from e.g. 1x.asl were no valid identifiers"),
    ("C23", "the console runs the agent in the given environment", "the console ran the agent in a new environment with another clock"),
    ("C23", "each console statement runs as an intention of its own", "after a suspended statement no later one ran; bindings of failed statements like X = 1 & .boom stayed"),
    ("C23", "the console finishes the remaining intentions when one fails", "!!missing; !!other. left the other goal unfinished until the next line"),
    ("C23", "end of input ends the console", "end of input ended the console with a traceback"),
    ("C23", "a console line that is nested too deeply is reported", "a deeply nested line ended the console with a traceback"),
    ("C23", "the console checks statements like the bodies of plans", "a line like [ ] . ended the console with an AttributeError"),
    ("C24", "conditions with negated compound queries can be printed", ".dump of a rule or plan with not (p & q) or not not p ended in an AttributeError"),
    ("C24", "conditions print constants and actions", ".dump showed true, false and actions in conditions as objects of Python"),
    ("C24", "strings in equations of conditions are printed as strings", '.dump showed X = "a b" as X = a b'),
    ("C25", "source files that can not be read are reported", "python -m agentspeak on a missing file, a directory or a file that is not UTF-8 ended in a traceback"),
    ("C23", "the console shows variables with all their bindings", "X = f(Y). Y = 3. showed X = f(_X_...)"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, universal_newlines=True).stdout
fixed = []
for prop, subject, what in FIXED:
    for line in log.splitlines():
        commit, _, s = line.partition(" ")
        if s.startswith("fix: " + subject):
            fixed.append("fixed: property=%s %s %s" % (prop, commit, what))
            break
    else:
        raise SystemExit("no commit for %r" % subject)
listed = set(f.split()[2] for f in fixed)
for line in log.splitlines():
    if line.split()[1] == "fix:" and line.split()[0] not in listed:
        raise SystemExit("not listed: " + line)
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
