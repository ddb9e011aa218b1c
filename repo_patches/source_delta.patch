From d85f1ddd56095efa396ce377e2dc48682dacd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 01/36] fix: restore sys.tracebacklimit also when parsing fails

---
 pddl/parser/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..e7edd5b 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -61,9 +61,7 @@ class BaseParser(Transformer[Any, T], ABC):
         old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
             sys.tracebacklimit = 0  # noqa
-            result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
+            return cast(T, parser.parse(text))
         finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
-        return result
+            # always restore the caller's value, also when the parsing fails
+            sys.tracebacklimit = old_tracebacklimit  # type: ignore
-- 
2.43.0


From ad398bc93e84d15616880acb0daee189a70d8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:37 +0000
Subject: [PATCH 02/36] fix: do not leak parser state from one parsed text to
 the next

---
 pddl/parser/base.py    | 10 +++++++++-
 pddl/parser/domain.py  | 10 ++++++----
 pddl/parser/plan.py    |  8 ++------
 pddl/parser/problem.py | 13 +++++++++----
 4 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index e7edd5b..87c5e0e 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -23,11 +23,18 @@ from pddl.parser import GRAMMAR_FILE, PARSERS_DIRECTORY
 T = TypeVar("T")
 
 
+class BaseTransformer(Transformer[Any, T], ABC):
+    """Base class for PDDL transformers."""
+
+    def reset(self) -> None:
+        """Forget everything recorded while processing previous texts."""
+
+
 class BaseParser(Transformer[Any, T], ABC):
     """Base class for PDDL parsers."""
 
     start_symbol: str
-    transformer_cls: Type[Transformer[Any, T]]
+    transformer_cls: Type[BaseTransformer[T]]
 
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the parser with the given grammar file."""
@@ -43,6 +50,7 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
+        self._transformer.reset()
         return self._call_parser(text, self._parser)
 
     @classmethod
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..484a040 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -14,7 +14,6 @@
 
 from typing import (
     AbstractSet,
-    Any,
     Dict,
     FrozenSet,
     List,
@@ -25,7 +24,7 @@ from typing import (
     Tuple,
 )
 
-from lark import ParseError, Transformer
+from lark import ParseError
 
 from pddl.action import Action
 from pddl.core import Domain
@@ -54,19 +53,22 @@ from pddl.logic.functions import (
 from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
 from pddl.logic.terms import Constant, Variable
 from pddl.parser._update_type_tags import update_type_tags
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 from pddl.parser.symbols import BINARY_COMP_SYMBOLS, Symbols
 from pddl.parser.typed_list_parser import TypedListParser
 from pddl.requirements import Requirements, _extend_domain_requirements
 
 
-class DomainTransformer(Transformer[Any, Domain]):
+class DomainTransformer(BaseTransformer[Domain]):
     """Domain Transformer."""
 
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the domain transformer."""
         super().__init__(*args, **kwargs)
+        self.reset()
 
+    def reset(self) -> None:
+        """Forget everything recorded while processing previous texts."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
diff --git a/pddl/parser/plan.py b/pddl/parser/plan.py
index 2da1d83..368e49b 100644
--- a/pddl/parser/plan.py
+++ b/pddl/parser/plan.py
@@ -12,16 +12,12 @@
 
 """Implementation of the PDDL plan parser."""
 
-from typing import Any
-
-from lark import Transformer
-
 from pddl.core import Plan
 from pddl.logic.terms import Constant
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 
 
-class PlanTransformer(Transformer[Any, Plan]):
+class PlanTransformer(BaseTransformer[Plan]):
     """Plan Transformer."""
 
     def __init__(self) -> None:
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..64653cf 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -12,9 +12,9 @@
 
 """Implementation of the PDDL problem parser."""
 
-from typing import Any, Dict
+from typing import Dict
 
-from lark import ParseError, Transformer
+from lark import ParseError
 
 from pddl.core import Problem
 from pddl.exceptions import PDDLParsingError
@@ -32,13 +32,13 @@ from pddl.logic.functions import (
 )
 from pddl.logic.predicates import EqualTo, Predicate
 from pddl.logic.terms import Constant
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 from pddl.parser.domain import DomainTransformer
 from pddl.parser.symbols import Symbols
 from pddl.requirements import Requirements
 
 
-class ProblemTransformer(Transformer[Any, Problem]):
+class ProblemTransformer(BaseTransformer[Problem]):
     """Problem Transformer."""
 
     def __init__(self) -> None:
@@ -46,6 +46,11 @@ class ProblemTransformer(Transformer[Any, Problem]):
         super().__init__()
 
         self._domain_transformer = DomainTransformer()
+        self.reset()
+
+    def reset(self) -> None:
+        """Forget everything recorded while processing previous texts."""
+        self._domain_transformer.reset()
         self._objects_by_name: Dict[str, Constant] = {}
 
     def start(self, args):
-- 
2.43.0


From 2fade72e48bda31b7b4497f5c963797b162294a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:37 +0000
Subject: [PATCH 03/36] fix: walk up the type hierarchy when checking derived
 predicate types

---
 pddl/parser/domain.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 484a040..c9a3316 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -541,12 +541,16 @@ class DomainTransformer(BaseTransformer[Domain]):
 
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
-            parent_type: Optional[name] = left_type
-            while parent_type is not None and parent_type not in type_tags_right:
-                parent_type = self.types_hierarchy.get(current_type, None)
-
-            if parent_type is None:
+            visited: Set[name] = set()
+            current_type: Optional[name] = left_type
+            while current_type is not None and current_type not in type_tags_right:
+                # the hierarchy has not been validated yet: it might contain cycles
+                visited.add(current_type)
+                current_type = self.types_hierarchy.get(current_type, None)
+                if current_type in visited:
+                    current_type = None
+
+            if current_type is None:
                 raise PDDLParsingError(
                     f"Type '{left_type}' not found in types: '{type_tags_right}'."
                 )
-- 
2.43.0


From be8287c914c5a68a12f68b041e7beb3aa366bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 04/36] fix: make the ordering of requirements strict

---
 pddl/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/requirements.py b/pddl/requirements.py
index f6fc2f8..a4df5b0 100644
--- a/pddl/requirements.py
+++ b/pddl/requirements.py
@@ -79,7 +79,7 @@ class Requirements(Enum):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Requirements):
-            return self.value <= other.value
+            return self.value < other.value
         else:
             return super().__lt__(other)
 
-- 
2.43.0


From fe49d24b38ac13f66d24340a614b690985577610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:31 +0000
Subject: [PATCH 05/36] fix: compare the same components in the ordering and in
 the equality

---
 pddl/logic/base.py       | 5 ++++-
 pddl/logic/effects.py    | 5 ++++-
 pddl/logic/predicates.py | 2 +-
 pddl/logic/terms.py      | 6 ++++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..4360675 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -244,7 +244,10 @@ class QuantifiedCondition(Formula):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, QuantifiedCondition):
-            return (self.variables, self.condition) < (other.variables, other.condition)
+            return (sorted(self.variables), self.condition) < (
+                sorted(other.variables),
+                other.condition,
+            )
         return super().__lt__(other)
 
 
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 8fe9929..210530c 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -119,7 +119,10 @@ class Forall:
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Forall):
-            return (self.variables, self.effect) < (other.variables, other.effect)
+            return (sorted(self.variables), self.effect) < (
+                sorted(other.variables),
+                other.effect,
+            )
         return super().__lt__(other)
 
 
diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index bdc562e..323a7a8 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -225,7 +225,7 @@ class DerivedPredicate(Atomic):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, DerivedPredicate):
-            return (self.predicate, self._predicate) < (
+            return (self.predicate, self.condition) < (
                 other.predicate,
                 other.condition,
             )
diff --git a/pddl/logic/terms.py b/pddl/logic/terms.py
index f5397d7..525d62c 100644
--- a/pddl/logic/terms.py
+++ b/pddl/logic/terms.py
@@ -105,6 +105,12 @@ class Constant(Term):
         """Compare with another object."""
         return isinstance(other, Constant) and self.name == other.name
 
+    def __lt__(self, other):
+        """Compare with another term; as for equality, the type is not considered."""
+        if isinstance(other, Constant):
+            return self.name < other.name
+        return super().__lt__(other)
+
     def __hash__(self):
         """Get the hash."""
         return hash((Constant, self._name))
-- 
2.43.0


From 3de321e8fdd4328a3c4678cf95ef7fd88332b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:22 +0000
Subject: [PATCH 06/36] fix: print the variables of all kinds of lists with
 their type definition, in a stable order

---
 pddl/formatter.py     |  3 ++-
 pddl/helpers/base.py  | 18 +++++++++++++++++-
 pddl/logic/base.py    | 10 ++--------
 pddl/logic/effects.py |  4 ++--
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..18cff89 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,6 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
+from pddl.helpers.base import _type_definition
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -114,7 +115,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
         result += f"({function.name}"
         for t in function.terms:
             result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
+                f" ?{t.name} - {_type_definition(t.type_tags)}"
                 if t.type_tags
                 else f" ?{t.name}"
             )
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..1287535 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -131,12 +131,28 @@ def _typed_parameters(parameters) -> str:
         if i > 0:
             result += " "
         if p.type_tags:
-            result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
+            result += f"?{p.name} - {_type_definition(p.type_tags)}"
         else:
             result += str(p)
     return result.strip()
 
 
+def _typed_variable_set(variables: Collection) -> str:
+    """
+    Return a set of variables along with types if available, in a stable order.
+
+    The untyped variables come last, because a type definition applies to all the names that precede it.
+    """
+    return _typed_parameters(sorted(variables, key=lambda v: (not v.type_tags, v)))
+
+
+def _type_definition(type_tags: Collection) -> str:
+    """Return the type definition of a (non-empty) set of type tags."""
+    if len(type_tags) > 1:
+        return f"(either {' '.join(sorted(type_tags))})"
+    return " ".join(type_tags)
+
+
 class RegexConstrainedString(str):
     """
     A string that is constrained by a regex.
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 4360675..382ea8d 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _typed_variable_set, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -216,13 +216,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
+        var_block = _typed_variable_set(self.variables)
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 210530c..9b9803b 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -15,7 +15,7 @@
 import functools
 from typing import AbstractSet, Collection, Optional, Union
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _typed_variable_set, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
@@ -98,7 +98,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_typed_variable_set(self.variables)}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From f17c7bae620578816ba78dc9ef2006e6091de47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 07/36] fix: accept actions without precondition or without
 effect

---
 pddl/_validation.py   | 6 ++++--
 pddl/parser/domain.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..cb0aaf2 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -305,8 +305,10 @@ class TypeChecker:
     def _(self, action: Action) -> None:
         """Check types annotations of a PDDL term."""
         self.check_type(action.parameters)
-        self.check_type(action.precondition)
-        self.check_type(action.effect)
+        if action.precondition is not None:
+            self.check_type(action.precondition)
+        if action.effect is not None:
+            self.check_type(action.effect)
 
 
 class Functions:
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index c9a3316..d849082 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -162,7 +162,9 @@ class DomainTransformer(BaseTransformer[Domain]):
         # process action body
         _children = args[5].children
         action_body = {
-            _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
+            _children[i][1:]: _children[i + 1]
+            for i in range(0, len(_children), 2)
+            if _children[i] is not None
         }
         return Action(action_name, variables, **action_body)
 
-- 
2.43.0


From b5fe59d2354cbbe65bb7556a413b9afc92bad9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 08/36] fix: read an empty precondition or effect as the empty
 conjunction

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index d849082..d9a0523 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -233,7 +233,7 @@ class DomainTransformer(BaseTransformer[Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -338,7 +338,7 @@ class DomainTransformer(BaseTransformer[Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From 82179d4caeff5ec7dd6644ff987f1b438a099e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 09/36] fix: accept a type hierarchy when :typing is implied by
 :adl

---
 pddl/_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index cb0aaf2..5f01f65 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -158,7 +158,9 @@ class Types:
 
         # check typing requirement
         supertypes = {t for t in type_dict.values() if t is not None}
-        if len(supertypes) > 0 and Requirements.TYPING not in requirements:
+        if len(
+            supertypes
+        ) > 0 and Requirements.TYPING not in _extend_domain_requirements(requirements):
             raise PDDLValidationError(
                 "typing requirement is not specified, but types are used: '"
                 + "', '".join(map(str, sorted(supertypes)))
-- 
2.43.0


From 90f3f500a274712773899939ec3fae9d9214c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 10/36] fix: accept the printed form of a domain with types but
 without :typing

---
 pddl/parser/domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index d9a0523..992af32 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -121,12 +121,12 @@ class DomainTransformer(BaseTransformer[Domain]):
         """Parse the 'types' rule."""
         has_typing_requirement = self._has_requirement(Requirements.TYPING)
         types_definition = args[2]
-        have_type_hierarchy = any(types_definition.values())
-        if have_type_hierarchy and not has_typing_requirement:
-            raise PDDLMissingRequirementError(Requirements.TYPING)
         for k in types_definition:
             if types_definition[k] == Symbols.OBJECT.value:
                 types_definition[k] = None
+        have_type_hierarchy = any(types_definition.values())
+        if have_type_hierarchy and not has_typing_requirement:
+            raise PDDLMissingRequirementError(Requirements.TYPING)
 
         # record types hierarchy for later use during the parsing
         # safety check: make sure self._types is not set
-- 
2.43.0


From 24baae8c5bdda1ac8d6a2dde6278eeaaf53d0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 11/36] fix: check the types used in functions and in
 conditions of derived predicates

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..08c47b8 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -91,9 +91,11 @@ class Domain:
         type_checker = TypeChecker(self._types, self.requirements)
         type_checker.check_type(self._constants)
         type_checker.check_type(self._predicates)
+        type_checker.check_type(self._functions.raw)
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
+        type_checker.check_type(self._derived_predicates)
 
     def _check_types_in_derived_predicates(self) -> None:
         """Check types in derived predicates."""
-- 
2.43.0


From 3dcb540f813620d747cd25d4859035154d3433a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:03 +0000
Subject: [PATCH 12/36] fix: check the types used in the metric of a problem

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index 08c47b8..24db8ff 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -306,6 +306,8 @@ class Problem:
         type_checker.check_type(self.objects)
         type_checker.check_type(self.init)
         type_checker.check_type(self.goal)
+        if self.metric is not None:
+            type_checker.check_type(self.metric.expression)
 
     @property
     def name(self) -> name_type:
-- 
2.43.0


From d149f461b38469c11585b398042257598b5e8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:36 +0000
Subject: [PATCH 13/36] fix: the 'object' type is always available

---
 pddl/_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 5f01f65..e330af1 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -60,7 +60,7 @@ def _find_inconsistencies_in_typed_terms(
         return None
     for term in terms:
         for type_tag in sorted(term.type_tags):
-            if type_tag is not None and type_tag not in all_types:
+            if type_tag not in (None, Symbols.OBJECT.value, *all_types):
                 return term, type_tag
     return None
 
@@ -216,7 +216,9 @@ class TypeChecker:
         self, type_tags: Collection[name_type], what: str
     ) -> None:
         """Check that the types are available in the domain."""
-        if not self._types.all_types.issuperset(type_tags):
+        # the 'object' type is always available
+        available_types = self._types.all_types | {Symbols.OBJECT.value}
+        if not available_types.issuperset(type_tags):
             raise PDDLValidationError(
                 f"types {sorted(type_tags)} of {what} are not in available types {self._types.all_types}"
             )
-- 
2.43.0


From d876354f92b2334e2bfbb5c4ba255ca817e44b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 14/36] fix: keep all the operands of numeric operators

---
 pddl/logic/functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..3e70302 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -20,7 +20,7 @@ from typing import Sequence, cast
 from pddl.custom_types import namelike, parse_function
 from pddl.helpers.base import assert_
 from pddl.helpers.cache_hash import cache_hash
-from pddl.logic.base import Atomic, BinaryOpMetaclass, Formula
+from pddl.logic.base import Atomic, Formula
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
 
@@ -249,7 +249,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -349,7 +349,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -363,7 +363,7 @@ class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Plus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Plus(BinaryFunction):
     """Plus operator."""
 
     SYMBOL = Symbols.PLUS
@@ -377,7 +377,7 @@ class Plus(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Times(BinaryFunction):
     """Times operator."""
 
     SYMBOL = Symbols.TIMES
@@ -391,7 +391,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From f38fdc791de55056b8bb35bee12c1efafb8bebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:57 +0000
Subject: [PATCH 15/36] fix: do not instantiate the variables bound by a
 quantifier

---
 pddl/logic/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 382ea8d..8b9a9dd 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -212,7 +212,8 @@ class QuantifiedCondition(Formula):
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Formula":
         """Instantiate the formula with a mapping from variables to terms."""
-        return type(self)(self.condition.instantiate(mapping), self.variables)
+        free_mapping = _without_bound_variables(mapping, self.variables)
+        return type(self)(self.condition.instantiate(free_mapping), self.variables)
 
     def __str__(self) -> str:
         """Get the string representation."""
@@ -245,6 +246,14 @@ class QuantifiedCondition(Formula):
         return super().__lt__(other)
 
 
+def _without_bound_variables(
+    mapping: Mapping[Variable, Term], variables: Collection[Variable]
+) -> Mapping[Variable, Term]:
+    """Restrict a mapping to the variables that are not bound by a quantifier."""
+    bound_names = {variable.name for variable in variables}
+    return {var: term for var, term in mapping.items() if var.name not in bound_names}
+
+
 class ForallCondition(QuantifiedCondition):
     """Forall Condition."""
 
-- 
2.43.0


From d854eb032282a28e74b1c30598427cc4dd105088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 16/36] fix: instantiate conditional and universal effects

---
 pddl/logic/effects.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 9b9803b..8a4f966 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -13,12 +13,20 @@
 """This modules implements PDDL effects."""
 
 import functools
-from typing import AbstractSet, Collection, Optional, Union
+from typing import AbstractSet, Collection, Mapping, Optional, Union
 
 from pddl.helpers.base import _typed_variable_set, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
-from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.base import (
+    And,
+    Atomic,
+    Formula,
+    Not,
+    OneOf,
+    _without_bound_variables,
+)
+from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
 
@@ -47,6 +55,12 @@ class When:
         """Get the effect."""
         return self._effect
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "When":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return When(
+            self.condition.instantiate(mapping), self.effect.instantiate(mapping)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.WHEN.value} {self._condition} {self.effect})"
@@ -96,6 +110,11 @@ class Forall:
         """Get the variables."""
         return self._variables
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
+        """Instantiate the effect with a mapping from variables to terms."""
+        free_mapping = _without_bound_variables(mapping, self.variables)
+        return Forall(self.effect.instantiate(free_mapping), self.variables)
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.FORALL.value} ({_typed_variable_set(self.variables)}) {self.effect})"
-- 
2.43.0


From f093ea34a2fb78d93c7f8fcc4957d3cd587c3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:37 +0000
Subject: [PATCH 17/36] fix: read the numbers of a metric as numbers

---
 pddl/parser/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index 64653cf..d4c9d0b 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -193,7 +193,7 @@ class ProblemTransformer(BaseTransformer[Problem]):
         """Process the 'metric_f_exp' rule."""
         if len(args) == 1:
             if not isinstance(args[0], NumericFunction):
-                return NumericValue(args[0])
+                return NumericValue(self.num_literal(args))
             return args[0]
         op = None
         if args[1] == Symbols.MINUS.value:
-- 
2.43.0


From 28dae0c6c409c31476875e1fbcf48e97992f9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 18/36] fix: print numeric values without exponent

---
 pddl/logic/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 3e70302..ddf6ef2 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,7 +146,9 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return str(self._value)
+        result = str(self._value)
+        # PDDL numbers have no exponent
+        return format(Decimal(result), "f") if "e" in result else result
 
 
 class BinaryFunction(FunctionExpression):
-- 
2.43.0


From a7ae1cfa610749b4bb9ac16bcea212b69df61898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 19/36] fix: raise the error on unrecognized numeric operators

---
 pddl/parser/domain.py  | 8 +++-----
 pddl/parser/problem.py | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 992af32..b5a9e73 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -462,11 +462,9 @@ class DomainTransformer(BaseTransformer[Domain]):
             op = Times
         if args[1] == Symbols.DIVIDE.value:
             op = Divide
-        return (
-            op(*args[2:-1])
-            if op is not None
-            else PDDLParsingError("Operator not recognized")
-        )
+        if op is None:
+            raise PDDLParsingError("Operator not recognized")
+        return op(*args[2:-1])
 
     def f_head(self, args):
         """Process the 'f_head' rule."""
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d4c9d0b..a6e0e87 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -204,11 +204,9 @@ class ProblemTransformer(BaseTransformer[Problem]):
             op = Times
         if args[1] == Symbols.DIVIDE.value:
             op = Divide
-        return (
-            op(*args[2:-1])
-            if op is not None
-            else PDDLParsingError("Operator not recognized")
-        )
+        if op is None:
+            raise PDDLParsingError("Operator not recognized")
+        return op(*args[2:-1])
 
     def atomic_formula_term(self, args):
         """Parse an atomic formula term."""
-- 
2.43.0


From 42c5134556ce252bb9d47e0ecc0fc510a1cf24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 20/36] fix: accept the :object-fluents requirement in the
 grammar

---
 pddl/parser/grammar.lark | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 8c12e03..c45e68d 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -168,6 +168,7 @@ NAME: /[a-zA-Z][a-zA-Z0-9-_]*/
             | DERIVED_PREDICATES
             | CONDITIONAL_EFFECTS
             | NUMERIC_FLUENTS
+            | OBJECT_FLUENTS
             | FLUENTS
             | ACTION_COSTS
 
@@ -229,6 +230,7 @@ EXISTENTIAL_PRECONDITIONS: ":existential-preconditions"
 UNIVERSAL_PRECONDITIONS: ":universal-preconditions"
 QUANTIFIED_PRECONDITIONS: ":quantified-preconditions"
 NUMERIC_FLUENTS: ":numeric-fluents"
+OBJECT_FLUENTS: ":object-fluents"
 FLUENTS: ":fluents"
 ACTION_COSTS: ":action-costs"
 
-- 
2.43.0


From d59a21ec0a49956e32d8e3ffedb103e162335310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 21/36] fix: do not share the functions and the actions with
 the caller of the constructor

---
 pddl/_validation.py | 2 +-
 pddl/core.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index e330af1..f83bc74 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -325,7 +325,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
diff --git a/pddl/core.py b/pddl/core.py
index 24db8ff..81dcd1a 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -405,7 +405,7 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = actions
+        self._actions: list[Tuple[namelike, List["Constant"]]] = list(actions)
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From 9e82d9de0593ab34fd4d139ab04364428cf6fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 22/36] fix: accept the binary minus in numeric expressions

---
 pddl/parser/grammar.lark | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index c45e68d..805c71c 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -67,18 +67,15 @@ constant: NAME
             | GREATER_EQUAL_OP
             | LESSER_EQUAL_OP
 
-?binary_op: multi_op
-          | MINUS
-          | DIVIDE
-
 ?multi_op: TIMES
          | PLUS
 
 num_literal: NUMBER
 
 f_exp:      num_literal
-      |     LPAR binary_op f_exp f_exp RPAR
+      |     LPAR DIVIDE f_exp f_exp RPAR
       |     LPAR multi_op f_exp f_exp+ RPAR
+      |     LPAR MINUS f_exp f_exp RPAR
       |     LPAR MINUS f_exp RPAR
       |     f_head
 
@@ -130,8 +127,9 @@ metric_spec: LPAR METRIC optimization metric_f_exp RPAR
 ?optimization: MAXIMIZE
              | MINIMIZE
 
-metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
+metric_f_exp: LPAR DIVIDE metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
+            | LPAR MINUS metric_f_exp metric_f_exp RPAR
             | LPAR MINUS metric_f_exp RPAR
             | basic_function_term
             | NUMBER
-- 
2.43.0


From b1f5e56207a86dcab717d388d3f4a86c86d2c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 23/36] fix: allow the formulas of a problem according to its
 requirements

---
 pddl/parser/domain.py  | 9 ++++++---
 pddl/parser/problem.py | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index b5a9e73..d9eebdd 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -77,6 +77,11 @@ class DomainTransformer(BaseTransformer[Domain]):
         self._extended_requirements: Set[Requirements] = set()
         self._types: Optional[Mapping[name, Optional[name]]] = None
 
+    def allow_requirements(self, requirements: Set[Requirements]) -> None:
+        """Set the requirements of the text being processed."""
+        self._requirements = requirements
+        self._extended_requirements = _extend_domain_requirements(requirements)
+
     @property
     def types_hierarchy(self) -> Mapping[name, Optional[name]]:
         """Return the read-only types hierarchy."""
@@ -112,9 +117,7 @@ class DomainTransformer(BaseTransformer[Domain]):
 
     def requirements(self, args):
         """Process the 'requirements' rule."""
-        self._requirements = {Requirements(r[1:]) for r in args[2:-1]}
-        self._extended_requirements = _extend_domain_requirements(self._requirements)
-
+        self.allow_requirements({Requirements(r[1:]) for r in args[2:-1]})
         return dict(requirements=self._requirements)
 
     def types(self, args):
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index a6e0e87..a15705a 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -51,6 +51,8 @@ class ProblemTransformer(BaseTransformer[Problem]):
     def reset(self) -> None:
         """Forget everything recorded while processing previous texts."""
         self._domain_transformer.reset()
+        # without a requirements section, those of the domain apply, but they are not known at this point
+        self._domain_transformer.allow_requirements(set(Requirements))
         self._objects_by_name: Dict[str, Constant] = {}
 
     def start(self, args):
@@ -76,7 +78,10 @@ class ProblemTransformer(BaseTransformer[Problem]):
 
     def requirements(self, args):
         """Process the 'requirements' rule."""
-        return "requirements", {Requirements(r[1:]) for r in args[2:-1]}
+        # the formulas of the problem are allowed according to the requirements of the problem
+        return "requirements", self._domain_transformer.requirements(args)[
+            "requirements"
+        ]
 
     def objects(self, args):
         """Process the 'problem_domain' rule."""
-- 
2.43.0


From 8ff42698a0efa098f9c42b162782219b4ac4922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 24/36] fix: check a domain against the problem before setting
 it

---
 pddl/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 81dcd1a..61bf6e4 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -323,9 +323,9 @@ class Problem:
     @domain.setter
     def domain(self, domain: Domain) -> None:
         """Set the domain."""
+        self.check(domain)
         self._domain_name = domain.name
         self._domain = domain
-        self._check_consistency()
 
     @property
     def domain_name(self) -> name_type:
-- 
2.43.0


From 56bc67317bf4cd0ebfb45061736f07eaee4a41c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 25/36] fix: end the scope of action parameters with the action

---
 pddl/parser/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index d9eebdd..e6819a4 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -162,6 +162,9 @@ class DomainTransformer(BaseTransformer[Domain]):
         action_name = args[2]
         variables = args[4]
 
+        # the scope of the parameters ends with the action
+        self._current_parameters_by_name = {}
+
         # process action body
         _children = args[5].children
         action_body = {
-- 
2.43.0


From ba74a7a548d2c44e0a873b427dfc33de4ab7dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 26/36] fix: read the quantified variables in the goal of a
 problem

---
 pddl/parser/problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index a15705a..2947472 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -102,6 +102,14 @@ class ProblemTransformer(BaseTransformer[Problem]):
         """
         return self._domain_transformer.typed_list_name(args)
 
+    def typed_list_variable(self, args):
+        """Process the 'typed_list_variable' rule."""
+        return self._domain_transformer.typed_list_variable(args)
+
+    def type_def(self, args):
+        """Process the 'type_def' rule."""
+        return self._domain_transformer.type_def(args)
+
     def domain__type_def(self, names):
         """Process a domain type def."""
         assert_(len(names) == 1)
-- 
2.43.0


From 8b83a86792db868e222a9ac2e6652a6a51310425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 27/36] fix: print only the declared types in the types section

---
 pddl/formatter.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 18cff89..f0765b7 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -139,21 +139,17 @@ def print_typed_lists(
         }
 
         # first print those types that have no parents
-        subtypes = set()
-        for subs in super_to_subs.values():
-            subtypes |= set(subs)
-
-        no_parents = set(super_to_subs.keys()) - subtypes
-        no_parents |= set(super_to_subs.get(None, []))
+        no_parents = set(super_to_subs.get(None, []))
         no_parents |= set(super_to_subs.get("object", []))
-        no_parents.discard(None)
         no_parents.discard("object")
 
-        result += (
-            "\n    "
-            + " ".join(sorted(to_string(n) for n in no_parents))
-            + " - object\n"
-        )
+        result += "\n"
+        if no_parents:
+            result += (
+                "    "
+                + " ".join(sorted(to_string(n) for n in no_parents))
+                + " - object\n"
+            )
 
         # sort the rest of the parent types based on (1) if their subtypes are already defined and (2) their name
         remaining = sorted(str(k) for k in super_to_subs if k not in ("object", None))
-- 
2.43.0


From cae912627bbe5edf414797b306846fad7de59fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:39 +0000
Subject: [PATCH 28/36] fix: give occurrences of quantified variables the
 declared types

---
 pddl/parser/_update_type_tags.py | 275 +++++++++++++++++--------------
 pddl/parser/domain.py            |  10 +-
 2 files changed, 156 insertions(+), 129 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index ea422f5..043b466 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,127 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_forall_effect(
+    formula: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(var_to_types)
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(formula.effect, new_var_to_types)
+    return Forall(new_effect, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when_effect(
+    formula: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(formula.condition, var_to_types)
+    new_effect = _update_type_tags(formula.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index e6819a4..fa80530 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -297,7 +297,10 @@ class DomainTransformer(BaseTransformer[Domain]):
         ):
             raise PDDLMissingRequirementError(req)
         variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-        condition = args[5]
+        # the occurrences of the variables in the condition refer to the quantified ones
+        condition = update_type_tags(
+            args[5], {var.name: frozenset(var.type_tags) for var in variables}
+        )
         return cond_class(cond=condition, variables=variables)
 
     def gd_comparison(self, args):
@@ -362,7 +365,10 @@ class DomainTransformer(BaseTransformer[Domain]):
             return args[0]
         if args[1] == Symbols.FORALL.value:
             variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-            return Forall(effect=args[-2], variables=variables)
+            effect = update_type_tags(
+                args[-2], {var.name: frozenset(var.type_tags) for var in variables}
+            )
+            return Forall(effect=effect, variables=variables)
         if args[1] == Symbols.WHEN.value:
             return When(args[2], args[3])
         if args[1] == Symbols.ONEOF.value:
-- 
2.43.0


From f956a27d97c8e5a333ac148d1d52b0748bb00995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 29/36] fix: a constant and a variable of the same name may
 have different types in an atom

---
 pddl/logic/predicates.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index 323a7a8..db54682 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -13,7 +13,7 @@
 """This class implements PDDL predicates."""
 
 import functools
-from typing import Dict, Mapping, Sequence, Set
+from typing import Dict, Mapping, Sequence, Set, Tuple
 
 from pddl.custom_types import name, namelike, parse_name
 from pddl.helpers.base import assert_, check
@@ -27,17 +27,19 @@ def _check_terms_consistency(terms: Sequence[Term]):
     """
     Check that the term sequence have consistent type tags.
 
-    In particular, terms with the same name must have the same type tags.
+    In particular, variables (resp. constants) with the same name must have the same type tags.
     """
-    seen: Dict[name, Set[name]] = {}
+    seen: Dict[Tuple[bool, name], Set[name]] = {}
     for term in terms:
-        if term.name not in seen:
-            seen[term.name] = set(term.type_tags)
+        # a variable and a constant with the same name are different terms
+        key = (isinstance(term, Variable), term.name)
+        if key not in seen:
+            seen[key] = set(term.type_tags)
         else:
             check(
-                seen[term.name] == set(term.type_tags),
+                seen[key] == set(term.type_tags),
                 f"Term {term} has inconsistent type tags: "
-                f"previous type tags {_print_tag_set(seen[term.name])}, new type tags {_print_tag_set(term.type_tags)}",
+                f"previous type tags {_print_tag_set(seen[key])}, new type tags {_print_tag_set(term.type_tags)}",
                 exception_cls=ValueError,
             )
 
-- 
2.43.0


From 8ef71376bc415827677b8606d425401f40b36a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:32 +0000
Subject: [PATCH 30/36] fix: print the universal type of an untyped variable
 that precedes a typed one

---
 pddl/formatter.py    | 10 +++++-----
 pddl/helpers/base.py | 12 +++++++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index f0765b7..bac1b88 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,7 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
-from pddl.helpers.base import _type_definition
+from pddl.helpers.base import _implicit_type, _type_definition
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -92,14 +92,14 @@ def print_predicates_with_types(predicates: Collection):
             result += f"({p.name})"
         else:
             result += f"({p.name}"
-            for t in p.terms:
+            for i, t in enumerate(p.terms):
                 if len(t.type_tags) > 1:
                     result += f" ?{t.name} - (either {' '.join(sorted(t.type_tags))})"
                 else:
                     result += (
                         f" ?{t.name} - {sorted(t.type_tags)[0]}"
                         if t.type_tags
-                        else f" ?{t.name}"
+                        else f" ?{t.name}{_implicit_type(p.terms[i + 1 :])}"
                     )
             result += ") "
         result += " "
@@ -113,11 +113,11 @@ def print_function_skeleton(function: NumericFunction) -> str:
         result += f"({function.name})"
     else:
         result += f"({function.name}"
-        for t in function.terms:
+        for i, t in enumerate(function.terms):
             result += (
                 f" ?{t.name} - {_type_definition(t.type_tags)}"
                 if t.type_tags
-                else f" ?{t.name}"
+                else f" ?{t.name}{_implicit_type(function.terms[i + 1 :])}"
             )
         result += ")"
     return result
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index 1287535..718435f 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -133,10 +133,20 @@ def _typed_parameters(parameters) -> str:
         if p.type_tags:
             result += f"?{p.name} - {_type_definition(p.type_tags)}"
         else:
-            result += str(p)
+            result += str(p) + _implicit_type(parameters[i + 1 :])
     return result.strip()
 
 
+def _implicit_type(following: Sequence) -> str:
+    """
+    Return the type definition of an untyped term in a list of terms.
+
+    A type definition applies to all the names that precede it: an untyped term is given the universal type
+    if it is followed by a typed one.
+    """
+    return " - object" if any(term.type_tags for term in following) else ""
+
+
 def _typed_variable_set(variables: Collection) -> str:
     """
     Return a set of variables along with types if available, in a stable order.
-- 
2.43.0


From 8a3f25421b6f0294f9b99b4817c0464e63d6851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:32 +0000
Subject: [PATCH 31/36] fix: print all the digits of large numbers

---
 pddl/logic/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index ddf6ef2..46df118 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -148,7 +148,10 @@ class NumericValue(FunctionExpression):
         """Get the string representation."""
         result = str(self._value)
         # PDDL numbers have no exponent
-        return format(Decimal(result), "f") if "e" in result else result
+        if "e-" in result:
+            return format(Decimal(result), "f")
+        # a number that is this large is whole: all its digits are needed, as it is read as an integer
+        return str(int(self._value)) if "e" in result else result
 
 
 class BinaryFunction(FunctionExpression):
-- 
2.43.0


From aa302e44cc83b432a479cf5e6b1e90e482183bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:32 +0000
Subject: [PATCH 32/36] fix: reject decimal numbers that are too large to be
 represented

---
 pddl/parser/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index fa80530..8cabd0e 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -342,7 +342,12 @@ class DomainTransformer(BaseTransformer[Domain]):
     def num_literal(self, args):
         """Process the 'num_literal' rule."""
         n = args[0]
-        return float(n) if "." in n else int(n)
+        if "." not in n:
+            return int(n)
+        value = float(n)
+        if value == float("inf"):
+            raise PDDLParsingError(f"number too large: {n}")
+        return value
 
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
-- 
2.43.0


From d359a19f66a10bf8ea615138aff170023257eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:40 +0000
Subject: [PATCH 33/36] fix: copy the parameter lists given to a plan

---
 pddl/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 61bf6e4..1a6eb04 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -405,7 +405,9 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = list(actions)
+        self._actions: list[Tuple[namelike, List["Constant"]]] = [
+            (action_name, list(parameters)) for action_name, parameters in actions
+        ]
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From 25b95423ec1d43b30f471434180f3553bce690ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:57 +0000
Subject: [PATCH 34/36] fix: a derived predicate in a domain without types
 section raised RuntimeError

---
 pddl/parser/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 8cabd0e..ea45660 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -556,6 +556,9 @@ class DomainTransformer(BaseTransformer[Domain]):
             # 'object' type includes everything
             return
 
+        # without a types section there is no hierarchy
+        types_hierarchy = self._types if self._types is not None else {}
+
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
             visited: Set[name] = set()
@@ -563,7 +566,7 @@ class DomainTransformer(BaseTransformer[Domain]):
             while current_type is not None and current_type not in type_tags_right:
                 # the hierarchy has not been validated yet: it might contain cycles
                 visited.add(current_type)
-                current_type = self.types_hierarchy.get(current_type, None)
+                current_type = types_hierarchy.get(current_type, None)
                 if current_type in visited:
                     current_type = None
 
-- 
2.43.0


From 91639af313e77467ebae4e115a13761015ac4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:35 +0000
Subject: [PATCH 35/36] fix: a derived predicate was refused if its parameter
 is declared with the universal type

---
 pddl/parser/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ea45660..649a23b 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -552,7 +552,7 @@ class DomainTransformer(BaseTransformer[Domain]):
         self, type_tags_left: AbstractSet[name], type_tags_right: AbstractSet[name]
     ):
         """Check that each type tag in the left set is a subtype of (one of) the type tags of the right."""
-        if len(type_tags_right) == 0:
+        if len(type_tags_right) == 0 or Symbols.OBJECT.value in type_tags_right:
             # 'object' type includes everything
             return
 
-- 
2.43.0


From 1a0e0138f4cb19f7a2e2822e014aa64f5170eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:45 +0000
Subject: [PATCH 36/36] fix: an empty string is no supertype

types={"a": ""} was accepted as if the type had no supertype, although every other string that is not a name is refused
---
 pddl/custom_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/custom_types.py b/pddl/custom_types.py
index 1c9e8cf..ab2cdac 100644
--- a/pddl/custom_types.py
+++ b/pddl/custom_types.py
@@ -109,7 +109,7 @@ def to_type(names: Collection[namelike]) -> List[name]:
 def to_types(names: Dict[namelike, Optional[namelike]]) -> Dict[name, Optional[name]]:
     """From name-like dictionary to name dictionary."""
     return {
-        parse_type(type_): parse_type(ancestor) if ancestor else None
+        parse_type(type_): parse_type(ancestor) if ancestor is not None else None
         for type_, ancestor in names.items()
     }
 
-- 
2.43.0

