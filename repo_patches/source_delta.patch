From 0b9d07b51458fee3ff9d66cbe15e7c49ed782f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 01/58] fix: backtracking over a literal unified with a
 variable no longer discards unrelated bindings

---
 agentspeak/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 576275e..e19d1a4 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -631,6 +631,7 @@ class Literal(object):
         right = evaluate(right, scope)
         if isinstance(right, Var):
             choicepoint = object()
+            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
             reroll(scope, stack, choicepoint)
-- 
2.43.0


From df2f9016b48e8de33583c4eb9bc745e3b3ea816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 02/58] fix: annotation matching tries all pairings instead of
 committing to the first

---
 agentspeak/__init__.py | 43 +++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index e19d1a4..b148617 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -640,25 +640,10 @@ class Literal(object):
         choicepoint = object()
         stack.append(choicepoint)
         if self.unify(right, scope, stack):
-            closed_right_annots = set()
-            for left_annot in self.annots:
-                found_right = False
-
-                for right_annot in right.annots:
-                    if right_annot in closed_right_annots:
-                        continue
-                    for _ in unify_annotated(left_annot, right_annot, scope, stack):
-                        found_right = True
-                        closed_right_annots.add(right_annot)
-                        break
-
-                    if found_right:
-                        break
-
-                if not found_right:
-                    reroll(scope, stack, choicepoint)
-                    return
-            yield
+            for _ in unify_annots(
+                tuple(self.annots), tuple(right.annots), scope, stack
+            ):
+                yield
         reroll(scope, stack, choicepoint)
 
     def is_atom(self):
@@ -914,6 +899,26 @@ def unify_annotated(left, right, scope, stack):
         reroll(scope, stack, choicepoint)
 
 
+def unify_annots(left_annots, right_annots, scope, stack):
+    """
+    Matches each of the left annotations with a different right annotation,
+    backtracking over all possible choices.
+    """
+    if not left_annots:
+        yield
+        return
+
+    for i, right_annot in enumerate(right_annots):
+        for _ in unify_annotated(left_annots[0], right_annot, scope, stack):
+            for _ in unify_annots(
+                left_annots[1:],
+                right_annots[:i] + right_annots[i + 1 :],
+                scope,
+                stack,
+            ):
+                yield
+
+
 def unifies_annotated(left, right, scope=None, stack=None):
     if scope is None:
         scope = {}
-- 
2.43.0


From 53a59cfd9cf1b2a58d24e43e3b3d5ded3efe041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 03/58] fix: belief base may be modified while iterating over
 query solutions

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7de126b..d647c67 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -206,7 +206,7 @@ class TermQuery:
             raise AslError("expected boolean or literal in query context, got: '%s'" % term)
 
         # Query on the belief base.
-        for belief in agent.beliefs[group]:
+        for belief in list(agent.beliefs[group]):
             for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                 yield
 
-- 
2.43.0


From 8c788e8318f7ad56b5984020fece7b99a721cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 04/58] fix: undo variable bindings of actions when
 backtracking

---
 agentspeak/runtime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d647c67..e38b124 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -183,9 +183,14 @@ class ActionQuery:
         self.impl = impl
 
     def execute(self, agent, intention):
+        choicepoint = object()
+        intention.stack.append(choicepoint)
+
         for _ in self.impl(agent, self.term, intention):
             yield
 
+        agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From 1febc53d85321475b4522e63d90a030f9464c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 05/58] fix: agents built together no longer share beliefs,
 rules and plans

---
 agentspeak/runtime.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index e38b124..d67bb49 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -848,17 +848,24 @@ class Environment:
         if n <= 0:
             return []
 
-        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls)
+        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls, name)
 
-        # Create more instances from the prototype, but with their own
-        # callstacks. This is more efficient than making complete deep copies.
+        # Create more instances from the prototype, but with their own belief
+        # base, rule and plan library and callstacks. The (immutable) rules and
+        # plans themselves are shared. This is more efficient than making
+        # complete deep copies.
         agents = [prototype_agent]
 
         while len(agents) < n:
             agent = agent_cls(self, self._make_name(name or source.name),
-                copy.copy(prototype_agent.beliefs),
-                copy.copy(prototype_agent.rules),
-                copy.copy(prototype_agent.plans))
+                None,
+                _copy_groups(prototype_agent.rules),
+                _copy_groups(prototype_agent.plans))
+
+            for ast_belief in ast_agent.beliefs:
+                belief = ast_belief.accept(BuildTermVisitor({}))
+                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
+                           belief, Intention(), delayed=True)
 
             for ast_goal in ast_agent.goals:
                 term = ast_goal.atom.accept(BuildTermVisitor({}))
@@ -904,6 +911,13 @@ class Environment:
         sys.exit(1)
 
 
+def _copy_groups(groups):
+    result = collections.defaultdict(lambda: [])
+    for group, entries in groups.items():
+        result[group] = list(entries)
+    return result
+
+
 def noop(agent, intention):
     return True
 
-- 
2.43.0


From ed9acee473a2153f9592646ba369fa0009e2b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 06/58] fix: non-ASCII characters and incomplete escapes in
 string literals are kept as written

---
 agentspeak/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index b148617..f70f1e0 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -32,6 +32,7 @@ import sys
 import colorama
 import operator
 import hashlib
+import re
 import numbers
 
 try:
@@ -315,10 +316,23 @@ def sanitize_functor(s):
     return functor
 
 
+RE_ESCAPE = re.compile(
+    r"\\(?:[\\'\"abfnrtv\n]|[0-7]{1,3}|x[0-9a-fA-F]{2}"
+    r"|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[^}]*\})"
+)
+
+
+def _parse_escape(match):
+    try:
+        return match.group(0).encode("ascii").decode("unicode_escape")
+    except UnicodeError:
+        return match.group(0)
+
+
 def parse_string(s):
     """Parses a double quoted string."""
     assert s.startswith('"') and s.endswith('"')
-    return s[1:-1].encode("utf-8").decode("unicode_escape")
+    return RE_ESCAPE.sub(_parse_escape, s[1:-1])
 
 
 def asl_str(term):
-- 
2.43.0


From 55648ca42e6271bf6dfddfb93da9b4358e7d9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 07/58] fix: initial beliefs with [H|T] lists or expressions no
 longer crash validation

---
 agentspeak/parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index c89fa89..9b1f127 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1060,6 +1060,13 @@ class FindVariablesVisitor(object):
             for var in term.accept(self):
                 yield var
 
+    def visit_linked_list(self, ast_linked_list):
+        for var in ast_linked_list.head.accept(self):
+            yield var
+
+        for var in ast_linked_list.tail.accept(self):
+            yield var
+
     def visit_const(self, ast_const):
         return
         yield
@@ -1069,14 +1076,14 @@ class FindVariablesVisitor(object):
 
     def visit_unary_op(self, unary_op):
         for var in unary_op.operand.accept(self):
-            yield
+            yield var
 
     def visit_binary_op(self, binary_op):
         for var in binary_op.left.accept(self):
-            yield
+            yield var
 
         for var in binary_op.right.accept(self):
-            yield
+            yield var
 
 
 class FindOpVisitor(object):
-- 
2.43.0


From eee8069fb4f548b27bf751c0d6a023bb44db9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 08/58] fix: lists in arithmetic and boolean expressions and
 overflowing constants are reported, not crashes

---
 agentspeak/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 9b1f127..bdf766f 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1137,7 +1137,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except ZeroDivisionError as err:
+                except ArithmeticError as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
@@ -1187,6 +1187,8 @@ class NumericFoldVisitor(object):
         self.log.error("did not expect list in numeric context", loc=ast_list.loc)
         return ast_list
 
+    visit_linked_list = visit_list
+
 
 class BooleanFoldVisitor(object):
     def __init__(self, log):
@@ -1267,6 +1269,9 @@ class BooleanFoldVisitor(object):
 
     def visit_list(self, ast_list):
         self.log.error("did not expect list in boolean context", loc=ast_list.loc)
+        return ast_list
+
+    visit_linked_list = visit_list
 
 
 class TermFoldVisitor(object):
-- 
2.43.0


From 7e7a3897a7994a6f9eff38584f0c983041357119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 09/58] fix: illegal characters in included files are reported

---
 agentspeak/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index bdf766f..ae5aad4 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -982,7 +982,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                         else:
                             raise
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, 1)
+                        included_tokens = agentspeak.lexer.TokenStream(included_file, log)
                         included_agent = parse(include, included_tokens, log, included_files)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
-- 
2.43.0


From 7dafee17843bd5c96d009f3acd8fe72a04ad79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 10/58] fix: recursive includes are detected for any spelling
 of the path

---
 agentspeak/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index ae5aad4..ab217bb 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -971,7 +971,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if include in included_files:
+                if os.path.normpath(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
-- 
2.43.0


From d18d592e8030de986d218639c6272dfd96440978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 11/58] fix: do not sleep for a negative duration when a
 deadline has just passed

---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d67bb49..c63c7e3 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -888,8 +888,8 @@ class Environment:
             if not more_work:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
-                if wait_until:
-                    time.sleep(wait_until - self.time())
+                if wait_until is not None:
+                    time.sleep(max(0, wait_until - self.time()))
                     more_work = True
 
     def run(self):
@@ -904,7 +904,7 @@ class Environment:
                 deadlines = (agent.shortest_deadline() for agent in self.agents.values())
                 deadlines = [deadline for deadline in deadlines if deadline is not None]
                 if deadlines:
-                    time.sleep(min(deadlines) - self.time())
+                    time.sleep(max(0, min(deadlines) - self.time()))
                     maybe_more_work = True
 
     def shutdown(self):
-- 
2.43.0


From 75e1ce71ea1bf305c5fc5c8d5b5cbe33412db96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 12/58] fix: report arithmetic operators in query context
 instead of crashing

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index c63c7e3..687d0dd 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -144,7 +144,7 @@ class BuildQueryVisitor:
             return NotQuery(ast_unary_op.operand.accept(self))
         else:
             raise self.log.error("non-boolean unary operator in query context: '%s'",
-                                 ast_unary_op.operator.lexeme, ast_unary_op.loc)
+                                 ast_unary_op.operator.value.lexeme, loc=ast_unary_op.loc)
 
     def visit_variable(self, ast_variable):
         return TermQuery(ast_variable.accept(BuildTermVisitor(self.variables)))
-- 
2.43.0


From 45ce09e92d39880fc36fb27ba10ecb05ef6ac63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 13/58] fix: comparing constant complex numbers is reported,
 not a crash

---
 agentspeak/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index ab217bb..27f5634 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1214,8 +1214,11 @@ class BooleanFoldVisitor(object):
                 const = AstConst()
                 const.loc = ast_binary_op.loc
                 if agentspeak.is_number(left.value) and agentspeak.is_number(right.value):
-                    const.value = ast_binary_op.operator.value.func(left.value, right.value)
-                    return const
+                    try:
+                        const.value = ast_binary_op.operator.value.func(left.value, right.value)
+                        return const
+                    except TypeError as err:
+                        self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
                 elif isinstance(left.value, bool) and isinstance(right.value, bool):
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-- 
2.43.0


From 02ff68699b772b772a21d8db9b168b57f5549979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 14/58] fix: booleans and numbers in terms are never equal

---
 agentspeak/__init__.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index f70f1e0..6c69760 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -258,6 +258,25 @@ class Operator(object):
         self.query_op = query
 
 
+def terms_equal(left, right):
+    """
+    Checks if two ground terms are equal. Unlike in Python, booleans are not
+    equal to any number.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return left is right
+    elif isinstance(left, tuple) and isinstance(right, tuple):
+        return len(left) == len(right) and all(
+            terms_equal(l, r) for l, r in zip(left, right)
+        )
+    else:
+        return left == right
+
+
+def terms_not_equal(left, right):
+    return not terms_equal(left, right)
+
+
 @enum.unique
 class UnaryOp(enum.Enum):
     op_not = Operator("not", operator.not_, boolean=True, query=True)
@@ -282,8 +301,8 @@ class BinaryOp(enum.Enum):
 
     op_lt = Operator("<", operator.lt, comp=True)
     op_le = Operator("<=", operator.le, comp=True)
-    op_ne = Operator("\\==", operator.ne, comp=True)
-    op_eq = Operator("==", operator.eq, comp=True)
+    op_ne = Operator("\\==", terms_not_equal, comp=True)
+    op_eq = Operator("==", terms_equal, comp=True)
     op_ge = Operator(">=", operator.ge, comp=True)
     op_gt = Operator(">", operator.gt, comp=True)
 
@@ -715,7 +734,7 @@ class Literal(object):
         return (
             not is_literal(other)
             or self.functor != other.functor
-            or self.args != other.args
+            or not terms_equal(self.args, other.args)
             or self.annots != other.annots
         )
 
@@ -833,7 +852,7 @@ class LinkedList(object):
         return not self.__ne__(other)
 
     def __ne__(self, other):
-        return not is_list(other) or tuple(self) != tuple(other)
+        return not is_list(other) or not terms_equal(tuple(self), tuple(other))
 
     def __lt__(self, other):
         return tuple(self) < tuple(other) if is_list(other) else NotImplemented
-- 
2.43.0


From 97974730edcf526dae3ab58f85c52a2953052ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 15/58] fix: lists built with [H|T] behave like ordinary lists
 once their tail is known

---
 agentspeak/__init__.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 6c69760..681de64 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -814,12 +814,14 @@ class LinkedList(object):
         return is_ground(self.head, scope) and is_ground(self.tail, scope)
 
     def grounded(self, scope):
-        return LinkedList(grounded(self.head, scope), grounded(self.tail, scope))
+        return cons(grounded(self.head, scope), grounded(self.tail, scope))
 
     def freeze(self, scope, memo):
-        return LinkedList(
-            freeze(self.head, scope, memo), freeze(self.tail, scope, memo)
-        )
+        return cons(freeze(self.head, scope, memo), freeze(self.tail, scope, memo))
+
+    def evaluate(self, scope):
+        tail = evaluate(self.tail, scope)
+        return self if tail is self.tail else cons(self.head, tail)
 
     def __bool__(self):
         return True
@@ -873,6 +875,16 @@ class LinkedList(object):
             return hash((self.head, self.tail))
 
 
+def cons(head, tail):
+    """
+    Creates a list from the given head and tail.
+    """
+    if isinstance(tail, tuple):
+        return (head,) + tail
+    else:
+        return LinkedList(head, tail)
+
+
 def deref(term, scope):
     """
     Dereferences a variable.
-- 
2.43.0


From c84ab910872384e350021e0715ac32b669cb3ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 16/58] fix: .concat renders numbers, booleans and lists like
 .print does

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 4050456..a58f2ad 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -199,7 +199,7 @@ def _concat(agent, term, intention):
     if all(isinstance(arg, (tuple, list)) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
-        result = "".join(str(arg) for arg in args)
+        result = "".join(asl_str(arg) for arg in args)
 
     if agentspeak.unify(term.args[-1], result, intention.scope, intention.stack):
         yield
-- 
2.43.0


From 8d7f7500fede999e35ae9fbfa1177f84feeda548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 17/58] fix: .abolish removes beliefs with more annotations
 than the pattern

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index a58f2ad..5592065 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -310,7 +310,7 @@ def _abolish(agent, term, intention):
     group = agent.beliefs[pattern.literal_group()]
 
     for old_belief in list(group):
-        if agentspeak.unifies_annotated(old_belief, pattern):
+        if agentspeak.unifies_annotated(pattern, old_belief):
             group.remove(old_belief)
 
     yield
-- 
2.43.0


From edfaae540a0d12963dcdc8883bf3005cc21b3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 18/58] fix: custom actions bound to objects do not operate on
 copies when used in rules

---
 agentspeak/runtime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 687d0dd..e93736f 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -191,6 +191,11 @@ class ActionQuery:
 
         agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
+    def __deepcopy__(self, memo):
+        # Rename variables, but do not copy the object a custom action may be
+        # bound to.
+        return ActionQuery(copy.deepcopy(self.term, memo), self.impl)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From afcbe354d0a55af862a23ec6265e769a393fd0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 19/58] fix: formatting of critical log messages

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 681de64..3bbaaa9 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -89,7 +89,7 @@ class LogFormatter(logging.Formatter):
 
         # Add error level.
         if record.levelno >= logging.CRITICAL:
-            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.Reset)
+            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.RESET)
         elif record.levelno >= logging.ERROR:
             b.append(colorama.Fore.RED + "error: " + colorama.Fore.RESET)
         elif record.levelno >= logging.WARNING:
-- 
2.43.0


From 52e438671d89296e8e56b949b3d439f9efd1083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 20/58] fix: unachieve drops exactly the matching goals,
 wherever they are on the stack

---
 agentspeak/runtime.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index e93736f..0188982 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -344,6 +344,7 @@ class Waiter:
 class Intention:
     def __init__(self):
         self.instr = None
+        self.goal_type = None
         self.head_term = None
         self.calling_term = None
 
@@ -432,7 +433,7 @@ class Agent:
             goal_type == agentspeak.GoalType.achievement
             and trigger == agentspeak.Trigger.removal
         ):
-            self._unachieve(term)
+            self._unachieve(frozen)
             return True
 
         # If the goal is an tellHow and the trigger is an addition, then the agent will add the goal received as string to his
@@ -471,6 +472,7 @@ class Agent:
                 plan.head, frozen, intention.scope, intention.stack
             ):
                 for _ in plan.context.execute(self, intention):
+                    intention.goal_type = goal_type
                     intention.head_term = frozen
                     intention.instr = plan.body
                     intention.calling_term = term
@@ -501,16 +503,20 @@ class Agent:
         if not agentspeak.is_literal(term):
                 raise AslError("expected literal term")
 
-        # Remove a intention passed by the parameters.
+        # Remove intentions for the given goal, including their subgoals.
         for intention_stack in self.intentions:
-            if not intention_stack:
-                continue
-
-            intention = intention_stack[-1]
+            for depth, intention in enumerate(intention_stack):
+                if (
+                    intention.goal_type == agentspeak.GoalType.achievement
+                    and intention.head_term.functor == term.functor
+                    and agentspeak.unifies(term.args, intention.head_term.args)
+                ):
+                    while len(intention_stack) > depth:
+                        intention_stack.pop()
+                    break
 
-            if intention.head_term.functor == term.functor:
-                if agentspeak.unifies(term.args, intention.head_term.args):
-                    intention_stack.remove(intention)
+        self.intentions = collections.deque(
+            intention_stack for intention_stack in self.intentions if intention_stack)
 
     def _tell_how(self, term):
         """
-- 
2.43.0


From 1d8d4e8d44fb6037777d197eb1f3a46983bbd734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 21/58] fix: plans are transmitted as written, with consistent
 variable names

---
 agentspeak/runtime.py | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 0188982..dabbe5a 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -317,7 +317,7 @@ class Plan:
         self.body = body
         self.str_body = str_body
         self.annotation = annotation
-        self.args = [None,None]
+        self.source = None
 
     def name(self):
         return "%s%s%s" % (self.trigger.value, self.goal_type.value, self.head)
@@ -560,7 +560,7 @@ class Agent:
             
         plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
         
-        plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
+        plan.source = str(ast_plan)
 
         self.add_plan(plan)
 
@@ -748,26 +748,7 @@ def plan_to_str(plan):
     """
     This function recieves a plan and return the plan as string
     """
-    if isinstance(plan.context, type(TrueQuery())):
-        context = "true"
-    else:
-        context = plan.context
-    
-    body = plan.str_body
-
-    if len(plan.head.args):
-        pattern = r"_X_[0-9a-fA-F]{3}_[0-9a-fA-F]+"
-        head = re.sub(pattern, lambda m: plan.args.pop(0), str(plan.head))
-    else:
-        head = str(plan.head)
-
-    if plan.annotation:
-        label = str(plan.annotation)
-    else:
-        label = ""
-        return  f"{plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
-
-    return f"@{label} {plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
+    return plan.source + "."
 
 
 class Environment:
@@ -818,9 +799,7 @@ class Environment:
             
             plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
 
-            plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
-
-
+            plan.source = str(ast_plan)
 
             agent.add_plan(plan)
 
-- 
2.43.0


From ef9ce8a1df17add9b48cee33456b097c32e275db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 22/58] fix: askHow answers with all requested plans and only
 those

---
 agentspeak/runtime.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index dabbe5a..b800e7c 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -583,11 +583,15 @@ class Agent:
         if sender_name is None:
             raise AslError("expected source annotation")
 
+        # The requested plan is something like "+!functor(X)".
+        match = re.search(r"~?(\.?[a-z][a-zA-Z0-9_]*)+", term.args[0])
+        functor = match.group(0) if match else None
+
         plans_wanted = collections.defaultdict(lambda: [])
         plans = self.plans.values()
         for plan in plans:
             for differents in plan:
-                if differents.head.functor in term.args[0]:
+                if differents.head.functor == functor:
                     plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor, len(differents.head.args))].append(differents)
 
         # If the agent has any plan that match with the plan wanted, then the agent will send the plan to the agent that asked                       
@@ -607,11 +611,13 @@ class Agent:
                 for differents in plan:
                     strplan = plan_to_str(differents)
                     message = agentspeak.Literal("plain_text", (strplan,), frozenset())
-                for receiver in receiving_agents:
-                    self._call_ask_how(receiver, message, intention)
+                    for receiver in receiving_agents:
+                        self._call_ask_how(receiver, message, intention)
         else:
             log = agentspeak.Log(LOGGER)
-            raise log.warning(f"The agent not know the plan {term.args[2]}")
+            log.warning("agent %r does not know the plan %s", self.name, term.args[0])
+
+        return True
 
     def _untell_how(self, term):
         """
-- 
2.43.0


From 7f79e28f6d9a30bb08a4060fc145461217cd1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 23/58] fix: plans to tell, untell or ask for may be given by
 variables

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 5592065..77f050e 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -136,7 +136,7 @@ def _send(agent, term, intention):
     # TODO: askOne, askAll
     # Prepare message. The message is either a plain text or a structured message.
     if ilf.functor in ["tellHow", "askHow", "untellHow"]:
-        message = agentspeak.Literal("plain_text", (term.args[2], ), frozenset())
+        message = agentspeak.Literal("plain_text", (agentspeak.grounded(term.args[2], intention.scope), ), frozenset())
     else:
         message = agentspeak.freeze(term.args[2], intention.scope, {})
     
-- 
2.43.0


From 90dc91f4de273a674c7eda3ff65e5f72fed0cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 24/58] fix: malformed plans received by tellHow are reported
 and not added

---
 agentspeak/runtime.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index b800e7c..2531019 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -524,21 +524,16 @@ class Agent:
         """
         str_plan = term.args[0]
 
-        tokens = []
-        # extend tokens with the tokens of the string plan
-        tokens.extend(agentspeak.lexer.tokenize(agentspeak.StringSource("<stdin>", str_plan), agentspeak.Log(LOGGER), 1))
-
-        # Prepare the conversion from tokens to AstPlan
-        first_token = tokens[0]
         log = agentspeak.Log(LOGGER)
-        tokens.pop(0)
-        tokens = iter(tokens)
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<tellHow>", str_plan), log)
 
-        # Converts the list of tokens to an Astplan
-        if first_token.lexeme in ["@", "+", "-"]:
-            tok, ast_plan = agentspeak.parser.parse_plan(first_token, tokens, log)
-            if tok.lexeme != ".":
-                raise log.error("", tok, "expected end of plan")
+        # Converts the tokens to an Astplan
+        try:
+            tok, ast_plan = agentspeak.parser.parse_plan(next(tokens), tokens, log)
+        except StopIteration:
+            raise log.error("unexpected end of plan: '%s'", str_plan)
+        if tok.lexeme != ".":
+            raise log.error("expected end of plan, got '%s'", tok.lexeme, loc=tok.loc)
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
@@ -562,6 +557,8 @@ class Agent:
         
         plan.source = str(ast_plan)
 
+        log.throw()
+
         self.add_plan(plan)
 
     def _call_ask_how(self, receiver, message, intention):
-- 
2.43.0


From 564500e30691e331dc032a6a727cb46317f8072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 25/58] fix: plans received by tellHow can use the custom
 actions of the receiving agent

---
 agentspeak/runtime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 2531019..71b60dc 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -366,6 +366,8 @@ class Agent:
         self.rules = collections.defaultdict(lambda: []) if rules is None else rules
         self.plans = collections.defaultdict(lambda: []) if plans is None else plans
 
+        self.actions = None
+
         self.intentions = collections.deque()
 
     def dump(self):
@@ -537,7 +539,7 @@ class Agent:
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
-        actions = agentspeak.stdlib.actions
+        actions = self.actions or agentspeak.stdlib.actions
 
         head = ast_plan.event.head.accept(BuildTermVisitor(variables))
 
@@ -774,6 +776,7 @@ class Environment:
 
         log = agentspeak.Log(LOGGER, 3)
         agent = agent_cls(self, self._make_name(name or source.name))
+        agent.actions = actions
 
         # Add rules to agent prototype.
         for ast_rule in ast_agent.rules:
@@ -854,6 +857,7 @@ class Environment:
                 None,
                 _copy_groups(prototype_agent.rules),
                 _copy_groups(prototype_agent.plans))
+            agent.actions = actions
 
             for ast_belief in ast_agent.beliefs:
                 belief = ast_belief.accept(BuildTermVisitor({}))
-- 
2.43.0


From 9fc0ac933b51a02b92760757db802829fbc5c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 26/58] fix: agents may be created while the environment is
 running

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 71b60dc..5269140 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -893,7 +893,7 @@ class Environment:
         maybe_more_work = True
         while maybe_more_work:
             maybe_more_work = False
-            for agent in self.agents.values():
+            for agent in list(self.agents.values()):
                 if agent.step():
                     maybe_more_work = True
 
-- 
2.43.0


From 0ca71f9d5d8804393a5151c14999b8f28f19b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 27/58] fix: a failed intention is dropped and does not block
 or mislead the others

---
 agentspeak/runtime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 5269140..15a4edb 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -735,15 +735,21 @@ class Agent:
                 if not intention.instr:
                     raise AslError("plan failure")
         except AslError as err:
+            self._drop_intention(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.error("%s", err, loc=instr.loc, extra_locs=instr.extra_locs)
         except Exception as err:
+            self._drop_intention(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.exception("agent %r raised python exception: %r", self.name, err,
                                 loc=instr.loc, extra_locs=instr.extra_locs)
 
         return True
 
+    def _drop_intention(self, intention_stack):
+        if intention_stack in self.intentions:
+            self.intentions.remove(intention_stack)
+
     def run(self):
         while self.step():
             pass
-- 
2.43.0


From 7bcfe9fe1cfbe1da4d902555d5890028e22513ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 28/58] fix: names derived from paths with leading digits or
 non-ASCII characters are valid functors

---
 agentspeak/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 3bbaaa9..79bf2c1 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -328,8 +328,10 @@ KEYWORDS = [
 
 def sanitize_functor(s):
     """Transliterates s into a valid functor."""
-    alnum = "".join(ch if ch.isalnum() else "_" for ch in s).lstrip("_")
+    alnum = re.sub(r"[^a-zA-Z0-9_]", "_", s).lstrip("_")
     functor = alnum[:1].lower() + alnum[1:] if alnum else ""
+    if functor[:1].isdigit():
+        functor = "n" + functor
     while functor in KEYWORDS:
         functor += "_"
     return functor
-- 
2.43.0


From f47980601cdf622e15bb228391f52b5aed0a45c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 29/58] fix: bindings made in the body of a for loop do not
 leak out of the iteration

---
 agentspeak/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 15a4edb..528b75e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1042,8 +1042,10 @@ class BuildInstructionsVisitor:
         self.add_instr(functools.partial(push_query, query))
 
         for_head = self.add_instr(next_or_fail)
+        self.add_instr(push_choicepoint)
 
-        last_in_loop = ast_for.body.accept(self)
+        ast_for.body.accept(self)
+        last_in_loop = self.add_instr(pop_choicepoint)
         last_in_loop.success = for_head
 
         self.tail = Instruction(pop_query)
-- 
2.43.0


From eeeb9d9d6ca6452711d3a71c6f39d3c27996d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 30/58] fix: .findall does not mix up variables of different
 answers

---
 agentspeak/stdlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 77f050e..d582943 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -278,9 +278,8 @@ def _findall(agent, term, intention):
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
-    memo = {}
     for _ in query.execute(agent, intention):
-        result.append(agentspeak.freeze(pattern, intention.scope, memo))
+        result.append(agentspeak.freeze(pattern, intention.scope, {}))
 
     if agentspeak.unify(tuple(result), term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0


From e14f8d2640ef6bd60ab43c288a6c58c25cc83a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 31/58] fix: python exceptions while handling initial beliefs
 and goals are reported

---
 agentspeak/runtime.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 528b75e..b57558d 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -815,17 +815,22 @@ class Environment:
 
             agent.add_plan(plan)
 
-        # Add beliefs to agent prototype.
-        for ast_belief in ast_agent.beliefs:
-            belief = ast_belief.accept(BuildTermVisitor({}))
-            agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
-                       belief, Intention(), delayed=True)
-
-        # Call initial goals on agent prototype.
-        for ast_goal in ast_agent.goals:
-            term = ast_goal.atom.accept(BuildTermVisitor({}))
-            agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
-                       term, Intention(), delayed=True)
+        try:
+            # Add beliefs to agent prototype.
+            for ast_belief in ast_agent.beliefs:
+                belief = ast_belief.accept(BuildTermVisitor({}))
+                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
+                           belief, Intention(), delayed=True)
+
+            # Call initial goals on agent prototype.
+            for ast_goal in ast_agent.goals:
+                term = ast_goal.atom.accept(BuildTermVisitor({}))
+                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
+                           term, Intention(), delayed=True)
+        except AslError:
+            raise
+        except Exception as err:
+            raise log.exception("agent %r raised python exception: %r", agent.name, err)
 
         # Report errors.
         log.throw()
-- 
2.43.0


From c34399fccbd6aecd0b441c05e99d9b65eb81f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 32/58] fix: a variable bound to an annotated literal matches
 like the literal itself

---
 agentspeak/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 79bf2c1..1663dab 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -935,6 +935,8 @@ def unifies(left, right):
 
 
 def unify_annotated(left, right, scope, stack):
+    left = evaluate(left, scope)
+
     if hasattr(left, "unify_annotated"):
         for _ in left.unify_annotated(right, scope, stack):
             yield
-- 
2.43.0


From 27807233023302fa7a2672660384bdeff1a5037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 33/58] fix: a told plan followed by anything else is malformed

---
 agentspeak/runtime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index b57558d..517bf14 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -536,6 +536,12 @@ class Agent:
             raise log.error("unexpected end of plan: '%s'", str_plan)
         if tok.lexeme != ".":
             raise log.error("expected end of plan, got '%s'", tok.lexeme, loc=tok.loc)
+        try:
+            tok = next(tokens)
+        except StopIteration:
+            pass
+        else:
+            raise log.error("unexpected '%s' after the plan", tok.lexeme, loc=tok.loc)
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
-- 
2.43.0


From 070ef5c816fd18578e0bd1fa55af8e73d5b0bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 34/58] fix: told plans are validated like the plans of a
 program

---
 agentspeak/runtime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 517bf14..967746b 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -543,6 +543,12 @@ class Agent:
         else:
             raise log.error("unexpected '%s' after the plan", tok.lexeme, loc=tok.loc)
 
+        # Check and fold it like the plans of a program.
+        ast_agent = agentspeak.parser.AstAgent()
+        ast_agent.plans.append(ast_plan)
+        ast_plan = agentspeak.parser.validate(ast_agent, log).plans[0]
+        log.throw()
+
         # Prepare the conversion of Astplan to Plan
         variables = {}
         actions = self.actions or agentspeak.stdlib.actions
-- 
2.43.0


From 37ccbaf0abb18cb170e7c566d539522ed65ae4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 35/58] fix: programs nested too deeply for the parser are
 reported as errors

---
 agentspeak/runtime.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 967746b..5a5616c 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -854,10 +854,13 @@ class Environment:
         # Parse source.
         log = agentspeak.Log(LOGGER, 3)
         tokens = agentspeak.lexer.TokenStream(source, log)
-        ast_agent = agentspeak.parser.parse(source.name, tokens, log)
-        log.throw()
+        try:
+            ast_agent = agentspeak.parser.parse(source.name, tokens, log)
+            log.throw()
 
-        return self.build_agent_from_ast(source, ast_agent, actions, agent_cls, name)
+            return self.build_agent_from_ast(source, ast_agent, actions, agent_cls, name)
+        except RecursionError:
+            raise log.error("'%s' is nested too deeply", source.name)
 
     def build_agent(self, source, actions, agent_cls=Agent, name=None):
         _, agent = self._build_agent(source, actions, agent_cls, name)
-- 
2.43.0


From c2c7768afd25a865e3295c06f247e6570d5ec754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 36/58] fix: include files that can not be opened are reported
 as errors

---
 agentspeak/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 27f5634..4239bfd 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -976,11 +976,11 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 else:
                     try:
                         included_file = open(include)
-                    except IOError as err:
-                        if err.errno == errno.ENOENT:
+                    except (IOError, ValueError) as err:
+                        if getattr(err, "errno", None) == errno.ENOENT:
                             log.error("include file not found: '%s'", include, loc=include_loc)
                         else:
-                            raise
+                            log.error("can not open include file '%s': %s", include, err, loc=include_loc)
                     else:
                         included_tokens = agentspeak.lexer.TokenStream(included_file, log)
                         included_agent = parse(include, included_tokens, log, included_files)
-- 
2.43.0


From cf2f5e260c2d3f05829b76f2fdab3e27d5c5e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 37/58] fix: include files that can not be read are reported as
 errors

---
 agentspeak/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 4239bfd..d7b5016 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -983,7 +983,10 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                             log.error("can not open include file '%s': %s", include, err, loc=include_loc)
                     else:
                         included_tokens = agentspeak.lexer.TokenStream(included_file, log)
-                        included_agent = parse(include, included_tokens, log, included_files)
+                        try:
+                            included_agent = parse(include, included_tokens, log, included_files)
+                        except (IOError, UnicodeDecodeError) as err:
+                            raise log.error("can not read include file '%s': %s", include, err, loc=include_loc)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
                         agent.goals += included_agent.goals
-- 
2.43.0


From 209a6273a98ca03d186827c9830febe36e80ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 38/58] fix: negative constants are printed in parentheses as
 base of a power

---
 agentspeak/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index d7b5016..d398cbf 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -227,7 +227,11 @@ class AstBinaryOp(AstNode):
         return visitor.visit_binary_op(self)
 
     def __str__(self):
-        return "(%s %s %s)" % (self.left, self.operator.value.lexeme, self.right)
+        left = str(self.left)
+        if self.operator == BinaryOp.op_pow and left.startswith("-"):
+            # A negative constant. Power binds tighter than unary minus.
+            left = "(%s)" % left
+        return "(%s %s %s)" % (left, self.operator.value.lexeme, self.right)
 
 
 class AstPlan(AstNode):
-- 
2.43.0


From 97366df8c8c6a0f622a2f213dec8b1c33b0e6cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:59 +0000
Subject: [PATCH 39/58] fix: fractional powers of negative numbers are errors,
 not complex numbers

---
 agentspeak/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 1663dab..fd48741 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -277,6 +277,17 @@ def terms_not_equal(left, right):
     return not terms_equal(left, right)
 
 
+def power(left, right):
+    """
+    Raises a number to a power. Unlike in Python, there are no complex
+    numbers.
+    """
+    result = left ** right
+    if isinstance(result, complex):
+        raise ArithmeticError("fractional power of a negative number")
+    return result
+
+
 @enum.unique
 class UnaryOp(enum.Enum):
     op_not = Operator("not", operator.not_, boolean=True, query=True)
@@ -286,7 +297,7 @@ class UnaryOp(enum.Enum):
 
 @enum.unique
 class BinaryOp(enum.Enum):
-    op_pow = Operator("**", operator.pow, numeric=True)
+    op_pow = Operator("**", power, numeric=True)
 
     op_mul = Operator("*", operator.mul, numeric=True)
     op_truediv = Operator("/", operator.truediv, numeric=True)
-- 
2.43.0


From 17e1b81cfb14dbc0cae5b3a6604e462f07d0a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 40/58] fix: .findall evaluates expression templates for every
 answer

---
 agentspeak/stdlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index d582943..ac8c8d5 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -274,12 +274,11 @@ def _ground(agent, term, intention):
 @actions.add(".findall", 3)
 @agentspeak.optimizer.function_like
 def _findall(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
     for _ in query.execute(agent, intention):
-        result.append(agentspeak.freeze(pattern, intention.scope, {}))
+        result.append(agentspeak.freeze(term.args[0], intention.scope, {}))
 
     if agentspeak.unify(tuple(result), term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0


From 5b8de0c2adab43ffaa6e26ef203e5bd18ace7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 41/58] fix: arithmetic and comparison errors are reported as
 agent errors

---
 agentspeak/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index fd48741..4b83618 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -621,7 +621,11 @@ class BinaryExpr(object):
             left = grounded(left, scope)
             right = grounded(right, scope)
 
-        return self.binary_op.func(left, right)
+        try:
+            return self.binary_op.func(left, right)
+        except (ArithmeticError, TypeError) as err:
+            # For example division by zero or unorderable types.
+            raise AslError(str(err))
 
     def is_ground(self, scope):
         return is_ground(self.left, scope) and is_ground(self.right, scope)
-- 
2.43.0


From e93b8978c9332ae4a6f31979e8ba5b3e51ba765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 42/58] fix: tabs are neither expanded in strings nor counted
 as four columns

---
 agentspeak/__init__.py | 3 ++-
 agentspeak/lexer.py    | 1 -
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 4b83618..6ce7de8 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -109,7 +109,8 @@ class LogFormatter(logging.Formatter):
             b.append(loc.line.rstrip())
             b.append("\n")
 
-            under_line = [" " for _ in loc.line]
+            # Keep tabs, so that the markers are aligned with the line above.
+            under_line = ["\t" if c == "\t" else " " for c in loc.line]
 
             # Extra locations underlined with ~~~.
             for extra_loc in record.__dict__.get("extra_locs", ()):
diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 2da14eb..912e447 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -155,7 +155,6 @@ def tokenize(sourcefile, log, firstline=1):
     in_comment = False
 
     for lineno, line in enumerate(sourcefile):
-        line = line.replace("\t", "    ")
         startcol = 0
 
         while startcol < len(line):
-- 
2.43.0


From 2febf087fa35c2dbba33f030c1189f90c39a5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 43/58] fix: recursive includes through symbolic links are
 detected

---
 agentspeak/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index d398cbf..bf22125 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -939,8 +939,16 @@ def parse_plan(tok, tokens, log):
     return tok, plan
 
 
+def canonical_path(filename):
+    try:
+        return os.path.realpath(filename)
+    except ValueError:
+        # Not a valid path, for example due to null characters.
+        return os.path.normpath(filename)
+
+
 def parse_agent(filename, tokens, log, included_files, directive=None):
-    included_files = included_files | frozenset([os.path.normpath(filename)])
+    included_files = included_files | frozenset([canonical_path(filename)])
     agent = AstAgent()
     last_plan = None
 
@@ -975,7 +983,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if os.path.normpath(include) in included_files:
+                if canonical_path(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
-- 
2.43.0


From a16e721726ddead4c8154291f3d63dce2da29d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 44/58] fix: .sum evaluates expressions for every answer

---
 agentspeak/ext_stdlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/ext_stdlib.py b/agentspeak/ext_stdlib.py
index d03b6fa..8f72196 100644
--- a/agentspeak/ext_stdlib.py
+++ b/agentspeak/ext_stdlib.py
@@ -34,12 +34,11 @@ actions.add_function(".randint", (int, int, ), random.randint)
 @actions.add(".sum", 3)
 @agentspeak.optimizer.function_like
 def _sum(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
     query = agentspeak.runtime.TermQuery(term.args[1])
     total = 0
 
     for _ in query.execute(agent, intention):
-        total += agentspeak.grounded(pattern, intention.scope)
+        total += agentspeak.grounded(term.args[0], intention.scope)
 
     if agentspeak.unify(total, term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0


From 714491336ef23bcc46deca0f7d3b425ad37de062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 45/58] fix: .sum over booleans is an error

---
 agentspeak/ext_stdlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/ext_stdlib.py b/agentspeak/ext_stdlib.py
index 8f72196..297a1d7 100644
--- a/agentspeak/ext_stdlib.py
+++ b/agentspeak/ext_stdlib.py
@@ -38,7 +38,10 @@ def _sum(agent, term, intention):
     total = 0
 
     for _ in query.execute(agent, intention):
-        total += agentspeak.grounded(term.args[0], intention.scope)
+        summand = agentspeak.grounded(term.args[0], intention.scope)
+        if not agentspeak.is_number(summand):
+            raise agentspeak.AslError(".sum over non-numeric value: %s" % agentspeak.asl_repr(summand))
+        total += summand
 
     if agentspeak.unify(total, term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0


From 1ab720617b52695c886fb9de86b4e2935a613cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:43 +0000
Subject: [PATCH 46/58] fix: errors in conditions and removals carry the
 location of the statement

---
 agentspeak/runtime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 5a5616c..6ac16dd 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1029,14 +1029,16 @@ class BuildInstructionsVisitor:
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.remove:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
-            self.add_instr(functools.partial(remove_belief, term))
+            self.add_instr(functools.partial(remove_belief, term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.test:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(test_belief, term),
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.replace:
             removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())
-            self.add_instr(functools.partial(remove_belief, removal_term))
+            self.add_instr(functools.partial(remove_belief, removal_term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
 
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(add_belief, term),
@@ -1061,7 +1063,7 @@ class BuildInstructionsVisitor:
         query = ast_for.generator.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
 
-        for_head = self.add_instr(next_or_fail)
+        for_head = self.add_instr(next_or_fail, loc=ast_for.generator.loc)
         self.add_instr(push_choicepoint)
 
         ast_for.body.accept(self)
@@ -1075,7 +1077,7 @@ class BuildInstructionsVisitor:
     def visit_if_then_else(self, ast_if_then_else):
         query = ast_if_then_else.condition.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_if_then_else.condition.loc)
 
         tail = Instruction(pop_query)
 
@@ -1104,7 +1106,7 @@ class BuildInstructionsVisitor:
         while_head = self.add_instr(functools.partial(push_query, query))
         self.add_instr(push_choicepoint)
 
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_while.condition.loc)
         test_instr.failure = tail
 
         self.add_instr(pop_query)
-- 
2.43.0


From 1ac421b55eb148c7bd5292f54da6f73fb4ed24c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:43 +0000
Subject: [PATCH 47/58] fix: lists with a tail that is no list can be compared
 for equality

---
 agentspeak/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 6ce7de8..9de980b 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -872,7 +872,17 @@ class LinkedList(object):
         return not self.__ne__(other)
 
     def __ne__(self, other):
-        return not is_list(other) or not terms_equal(tuple(self), tuple(other))
+        if isinstance(other, tuple):
+            if not other:
+                return True
+            head, tail = other[0], other[1:]
+        elif isinstance(other, LinkedList):
+            head, tail = other.head, other.tail
+        else:
+            return True
+
+        # The tail is not necessarily a list.
+        return not terms_equal(self.head, head) or not terms_equal(self.tail, tail)
 
     def __lt__(self, other):
         return tuple(self) < tuple(other) if is_list(other) else NotImplemented
-- 
2.43.0


From 7ec66e110e5b990892714d5dde9952d1a87d3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 48/58] fix: the console runs the agent in the given
 environment

---
 agentspeak/runtime.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 6ac16dd..4936879 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1142,7 +1142,6 @@ def repl(agent, env, actions):
     lineno = 0
     tokens = []
 
-    env = Environment()
     variables = {}
     intention = Intention()
 
-- 
2.43.0


From 6a3234ca24c64e9dc5197b4283e94a15519585a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 49/58] fix: each console statement runs as an intention of its
 own, failed ones leave no bindings

---
 agentspeak/runtime.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 4936879..e1b52d5 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1143,7 +1143,8 @@ def repl(agent, env, actions):
     tokens = []
 
     variables = {}
-    intention = Intention()
+    scope = {}
+    unfinished = []
 
     while True:
         try:
@@ -1174,12 +1175,24 @@ def repl(agent, env, actions):
                     log.throw()
                     tokens = list(token_stream)
 
+                    intention = Intention()
+                    intention.scope = scope
                     intention.instr = Instruction(noop)
                     body.accept(BuildInstructionsVisitor(variables, actions, intention.instr, log))
                     log.throw()
-                    agent.intentions.append(collections.deque([intention]))
-                    env.run_agent(agent)
-                    dump_variables(variables, intention.scope)
+                    intention_stack = collections.deque([intention])
+                    agent.intentions.append(intention_stack)
+                    unfinished.append(intention_stack)
+                    try:
+                        env.run_agent(agent)
+                    finally:
+                        # Undo the bindings of failed statements.
+                        for intention_stack in unfinished:
+                            if intention_stack and intention_stack not in agent.intentions:
+                                agentspeak.reroll(scope, intention_stack[0].stack, object())
+                        unfinished = [intention_stack for intention_stack in unfinished
+                                      if intention_stack in agent.intentions]
+                    dump_variables(variables, scope)
         except agentspeak.AggregatedError as error:
             print(str(error), file=sys.stderr)
             tokens = []
-- 
2.43.0


From 55e3bbc4af070cda3812590c4708f2f01fd8803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:52 +0000
Subject: [PATCH 50/58] fix: the console finishes the remaining intentions when
 one fails

---
 agentspeak/runtime.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index e1b52d5..1c6ea67 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1183,15 +1183,26 @@ def repl(agent, env, actions):
                     intention_stack = collections.deque([intention])
                     agent.intentions.append(intention_stack)
                     unfinished.append(intention_stack)
-                    try:
-                        env.run_agent(agent)
-                    finally:
-                        # Undo the bindings of failed statements.
-                        for intention_stack in unfinished:
-                            if intention_stack and intention_stack not in agent.intentions:
-                                agentspeak.reroll(scope, intention_stack[0].stack, object())
-                        unfinished = [intention_stack for intention_stack in unfinished
-                                      if intention_stack in agent.intentions]
+
+                    failure = None
+                    more_work = True
+                    while more_work:
+                        try:
+                            env.run_agent(agent)
+                            more_work = False
+                        except (agentspeak.AggregatedError, agentspeak.AslError) as error:
+                            # The failed intention has been dropped. Run the others.
+                            failure = failure or error
+
+                    # Undo the bindings of failed statements.
+                    for intention_stack in unfinished:
+                        if intention_stack and intention_stack not in agent.intentions:
+                            agentspeak.reroll(scope, intention_stack[0].stack, object())
+                    unfinished = [intention_stack for intention_stack in unfinished
+                                  if intention_stack in agent.intentions]
+
+                    if failure:
+                        raise failure
                     dump_variables(variables, scope)
         except agentspeak.AggregatedError as error:
             print(str(error), file=sys.stderr)
-- 
2.43.0


From 57a5b355b324bfae5f66562eb8777d11479ce396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:52 +0000
Subject: [PATCH 51/58] fix: end of input ends the console

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 1c6ea67..bcb19d2 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1155,7 +1155,7 @@ def repl(agent, env, actions):
                     line = agentspeak.util.prompt("%s >>> " % agent.name)
                 else:
                     line = agentspeak.util.prompt("%s ... " % agent.name)
-            except KeyboardInterrupt:
+            except (KeyboardInterrupt, EOFError):
                 print()
                 sys.exit(0)
 
-- 
2.43.0


From 82f1d338ad37b014da67f18df11d7245688e9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:52 +0000
Subject: [PATCH 52/58] fix: a console line that is nested too deeply is
 reported

---
 agentspeak/runtime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index bcb19d2..60630d3 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1210,6 +1210,9 @@ def repl(agent, env, actions):
         except agentspeak.AslError as error:
             LOGGER.error("%s", error)
             tokens = []
+        except RecursionError:
+            LOGGER.error("statement is nested too deeply")
+            tokens = []
 
 
 def main(post_repl=True):
-- 
2.43.0


From af2ad84ebab567f1316a7d8c6b9d6fbc34a068f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 53/58] fix: the console checks statements like the bodies of
 plans

---
 agentspeak/runtime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 60630d3..f07e7cc 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1175,6 +1175,9 @@ def repl(agent, env, actions):
                     log.throw()
                     tokens = list(token_stream)
 
+                    body = body.accept(agentspeak.parser.ConstFoldVisitor(log))
+                    log.throw()
+
                     intention = Intention()
                     intention.scope = scope
                     intention.instr = Instruction(noop)
-- 
2.43.0


From 1ff10ffa71af1632605f36879ae073954eafddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 54/58] fix: the console shows variables with all their
 bindings

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index f07e7cc..72c76ed 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1130,7 +1130,7 @@ def dump_variables(variables, scope):
 
     for name, variable in sorted(variables.items()):
         if variable in scope:
-            print("%s = %s" % (name, asl_str(agentspeak.deref(variable, scope))))
+            print("%s = %s" % (name, asl_str(agentspeak.freeze(variable, scope, {}))))
         else:
             not_in_scope.append("%s = %s" % (name, variable))
 
-- 
2.43.0


From 5aeb6d548bb9326143c831df25d89ac3a60b0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 55/58] fix: conditions with negated compound queries can be
 printed

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 72c76ed..0add849 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -284,7 +284,7 @@ class NotQuery:
             yield
 
     def __str__(self):
-        return "not " + str(self.query.term)
+        return "not (%s)" % self.query
 
 
 class UnifyQuery:
-- 
2.43.0


From 283ac6f44ef5943d02611dd3d937e268144b7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 56/58] fix: conditions print constants and actions

---
 agentspeak/runtime.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 0add849..e323ee2 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -170,12 +170,18 @@ class TrueQuery:
     def execute(self, agent, intention):
         yield
 
+    def __str__(self):
+        return "true"
+
 
 class FalseQuery:
     def execute(self, agent, intention):
         return
         yield
 
+    def __str__(self):
+        return "false"
+
 
 class ActionQuery:
     def __init__(self, term, impl):
@@ -196,6 +202,9 @@ class ActionQuery:
         # bound to.
         return ActionQuery(copy.deepcopy(self.term, memo), self.impl)
 
+    def __str__(self):
+        return str(self.term)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From f086ab7992be3091998aba328255b84a02970e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 57/58] fix: strings in equations of conditions are printed as
 strings

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index e323ee2..dbba94e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -305,7 +305,7 @@ class UnifyQuery:
         return agentspeak.unify_annotated(self.left, self.right, intention.scope, intention.stack)
 
     def __str__(self):
-        return "(%s = %s)" % (self.left, self.right)
+        return "(%s = %s)" % (agentspeak.asl_repr(self.left), agentspeak.asl_repr(self.right))
 
 
 class Rule:
-- 
2.43.0


From e67dcea1faca3987f42a9d67e192e50ff33ad7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 58/58] fix: source files that can not be read are reported

---
 agentspeak/runtime.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index dbba94e..a84700a 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1227,6 +1227,16 @@ def repl(agent, env, actions):
             tokens = []
 
 
+def load_agent(env, actions, path=None):
+    try:
+        if path is None:
+            return env.build_agent(sys.stdin, actions)
+        with open(path) as source:
+            return env.build_agent(source, actions)
+    except (EnvironmentError, UnicodeDecodeError) as error:
+        raise agentspeak.AslError("can not read source file: %s" % error)
+
+
 def main(post_repl=True):
     import agentspeak.ext_stdlib
     env = Environment()
@@ -1234,17 +1244,16 @@ def main(post_repl=True):
         args = sys.argv[1:]
         if args:
             for arg in args:
-                with open(arg) as source:
-                    agent = env.build_agent(source, agentspeak.ext_stdlib.actions)
-                    env.run_agent(agent)
-                    if post_repl:
-                        repl(agent, env, agentspeak.ext_stdlib.actions)
-                    break
+                agent = load_agent(env, agentspeak.ext_stdlib.actions, arg)
+                env.run_agent(agent)
+                if post_repl:
+                    repl(agent, env, agentspeak.ext_stdlib.actions)
+                break
         elif sys.stdin.isatty():
             agent = Agent(env, "stdin")
             repl(agent, env, agentspeak.ext_stdlib.actions)
         else:
-            env.run_agent(env.build_agent(sys.stdin, agentspeak.ext_stdlib.actions))
+            env.run_agent(load_agent(env, agentspeak.ext_stdlib.actions))
     except agentspeak.AggregatedError as error:
         print(str(error), file=sys.stderr)
         sys.exit(1)
-- 
2.43.0

