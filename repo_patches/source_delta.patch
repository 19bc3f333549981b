From 6b9ef14035963a598e7536faadf94d24a5487d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 01/44] fix: do not skip the dots of a segment that follows
 blank space

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4c4422d..c32aa35 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -177,7 +177,7 @@ class Lexer:
             (TOKEN_BARE_PROPERTY, self.key_pattern),
             (TOKEN_LPAREN, r"\("),
             (TOKEN_RPAREN, r"\)"),
-            (TOKEN_SKIP, r"[ \n\t\r\.]+"),
+            (TOKEN_SKIP, r"[ \n\t\r]+|\."),
             (TOKEN_ILLEGAL, r"."),
         ]
 
-- 
2.43.0


From 7a660dfdc461c537b08730228d8eba7b41e4daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 02/44] fix: end a quoted string at a quote that follows an
 escaped backslash

---
 jsonpath/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index c32aa35..8ac825f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -99,8 +99,8 @@ class Lexer:
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
 
-        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:(?!(?<!\\)").)*)"'
-        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:(?!(?<!\\)').)*)'"
+        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:[^"\\]|\\.)*)"'
+        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:[^'\\]|\\.)*)'"
 
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
-- 
2.43.0


From d8f68aaf14ab36261f507c0d4b455e52222b75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 03/44] fix: accept shorthand names beyond the basic
 multilingual plane

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 8ac825f..f6eb1fb 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -85,7 +85,7 @@ class Lexer:
             logical _or_ tokens. By default, `or` and `||` are equivalent.
     """
 
-    key_pattern = r"[\u0080-\uFFFFa-zA-Z_][\u0080-\uFFFFa-zA-Z0-9_-]*"
+    key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
     # `not` or !
     logical_not_pattern = r"(?:not\b)|!"
-- 
2.43.0


From 15f416a6f51c07477d52db0ee277ece4b7c7b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 04/44] fix: do not split a name that merely starts with a
 reserved word

---
 jsonpath/lex.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index f6eb1fb..f34cf31 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -87,14 +87,17 @@ class Lexer:
 
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
+    # A reserved word ends where a key/property of the same spelling would end.
+    word_end_pattern = r"(?![\u0080-\U0010FFFFa-zA-Z0-9_-])"
+
     # `not` or !
-    logical_not_pattern = r"(?:not\b)|!"
+    logical_not_pattern = rf"(?:not{word_end_pattern})|!"
 
     # && or `and`
-    logical_and_pattern = r"&&|(?:and\b)"
+    logical_and_pattern = rf"&&|(?:and{word_end_pattern})"
 
     # || or `or`
-    logical_or_pattern = r"\|\||(?:or\b)"
+    logical_or_pattern = rf"\|\||(?:or{word_end_pattern})"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -153,15 +156,15 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, r"in\b"),
-            (TOKEN_TRUE, r"[Tt]rue\b"),
-            (TOKEN_FALSE, r"[Ff]alse\b"),
-            (TOKEN_NIL, r"[Nn]il\b"),
-            (TOKEN_NULL, r"[Nn]ull\b"),
-            (TOKEN_NONE, r"[Nn]one\b"),
-            (TOKEN_CONTAINS, r"contains\b"),
-            (TOKEN_UNDEFINED, r"undefined\b"),
-            (TOKEN_MISSING, r"missing\b"),
+            (TOKEN_IN, rf"in{self.word_end_pattern}"),
+            (TOKEN_TRUE, rf"[Tt]rue{self.word_end_pattern}"),
+            (TOKEN_FALSE, rf"[Ff]alse{self.word_end_pattern}"),
+            (TOKEN_NIL, rf"[Nn]il{self.word_end_pattern}"),
+            (TOKEN_NULL, rf"[Nn]ull{self.word_end_pattern}"),
+            (TOKEN_NONE, rf"[Nn]one{self.word_end_pattern}"),
+            (TOKEN_CONTAINS, rf"contains{self.word_end_pattern}"),
+            (TOKEN_UNDEFINED, rf"undefined{self.word_end_pattern}"),
+            (TOKEN_MISSING, rf"missing{self.word_end_pattern}"),
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
-- 
2.43.0


From 13050dabfe992714734e0ca07cf93d1e88d34675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 05/44] fix: read an operator word followed by a parenthesis as
 an operator

---
 jsonpath/lex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index f34cf31..46e18cc 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -117,8 +117,10 @@ class Lexer:
         # /pattern/ or /pattern/flags
         self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
 
-        # func(
-        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        # func(, but not an operator word followed by a grouped expression
+        self.function_pattern = (
+            r"(?!(?:and|or|not|in|contains)\()(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        )
 
         self.rules = self.compile_rules()
 
-- 
2.43.0


From 402c9236a78af843df97c6a11e723118a3438e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 06/44] fix: a slice selects nothing from a string

---
 jsonpath/selectors.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..892104b 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -329,7 +329,11 @@ class SliceSelector(JSONPathSelector):
 
     def resolve(self, matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
         for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -351,7 +355,11 @@ class SliceSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
-- 
2.43.0


From 32275e88f3adc8e0e948f512136a1bd6155cb743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 07/44] fix: a wildcard selects nothing from a string in the
 async API too

---
 jsonpath/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 892104b..29e222e 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -431,6 +431,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From 49fe20d4ae290252442b31ff691860e68778ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 08/44] fix: accept names starting with an underscore after a
 recursive descent

---
 jsonpath/lex.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 46e18cc..f736fdd 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -150,7 +150,13 @@ class Lexer:
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
-                (token, re.escape(pattern))
+                (
+                    token,
+                    # A filter context identifier can't follow "..", but a name can.
+                    rf"(?<!\.\.){re.escape(pattern)}"
+                    if token == TOKEN_FILTER_CONTEXT
+                    else re.escape(pattern),
+                )
                 for token, pattern in sorted(
                     env_tokens, key=lambda x: len(x[1]), reverse=True
                 )
-- 
2.43.0


From e117778da91706c88cdea85ad9881413a8f2ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 09/44] fix: only ASCII digits start a number

---
 jsonpath/lex.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index f736fdd..4831850 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -109,9 +109,9 @@ class Lexer:
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
         self.slice_list_pattern = (
-            r"(?P<G_LSLICE_START>\-?\d*)\s*"
-            r":\s*(?P<G_LSLICE_STOP>\-?\d*)\s*"
-            r"(?::\s*(?P<G_LSLICE_STEP>\-?\d*))?"
+            r"(?P<G_LSLICE_START>\-?[0-9]*)\s*"
+            r":\s*(?P<G_LSLICE_STOP>\-?[0-9]*)\s*"
+            r"(?::\s*(?P<G_LSLICE_STEP>\-?[0-9]*))?"
         )
 
         # /pattern/ or /pattern/flags
@@ -144,8 +144,8 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
-            (TOKEN_FLOAT, r"-?\d+\.\d*(?:[eE][+-]?\d+)?"),
-            (TOKEN_INT, r"-?\d+(?P<G_EXP>[eE][+\-]?\d+)?\b"),
+            (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
+            (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
-- 
2.43.0


From b170645f72840bf7e42f9632b4f09f4a49143f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 10/44] fix: evaluate filter queries as nodelists, with the
 query argument as root

---
 jsonpath/filter.py | 67 +++++++++++++++++++++++++++++-----------------
 jsonpath/path.py   | 37 ++++++++++++++++++++-----
 2 files changed, 73 insertions(+), 31 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0f33cff..1c98e54 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -12,7 +12,6 @@ from typing import Callable
 from typing import Generic
 from typing import Iterable
 from typing import List
-from typing import Mapping
 from typing import Pattern
 from typing import Sequence
 from typing import TypeVar
@@ -535,29 +534,24 @@ class SelfPath(Path):
         return "@" + str(self.path)[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(self.path.finditer(context.current))
+        return NodeList(
+            self.path.resolve(
+                context.current,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.current)]
+            [
+                match
+                async for match in self.path.resolve_async(
+                    context.current,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
+            ]
         )
 
 
@@ -576,11 +570,24 @@ class RootPath(Path):
         return str(self.path)
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.root))
+        return NodeList(
+            self.path.resolve(
+                context.root,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.root)]
+            [
+                match
+                async for match in self.path.resolve_async(
+                    context.root,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
+            ]
         )
 
 
@@ -600,13 +607,23 @@ class FilterContextPath(Path):
         return "_" + path_repr[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.extra_context))
+        return NodeList(
+            self.path.resolve(
+                context.extra_context,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
             [
                 match
-                async for match in await self.path.finditer_async(context.extra_context)
+                async for match in self.path.resolve_async(
+                    context.extra_context,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
             ]
         )
 
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..8993cf2 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -125,14 +125,27 @@ class JSONPath:
                 an incompatible way.
         """
         _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context or {})
+
+    def resolve(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: FilterContextVars,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate matches starting at _obj_, a value in the document _root_.
+
+        Unlike `finditer()`, _obj_ is never loaded as JSON text.
+        """
         matches: Iterable[JSONPathMatch] = [
             JSONPathMatch(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
         ]
 
@@ -163,15 +176,27 @@ class JSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
+        return self.resolve_async(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    def resolve_async(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: FilterContextVars,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
 
         async def root_iter() -> AsyncIterable[JSONPathMatch]:
             yield self.env.match_class(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
 
         matches: AsyncIterable[JSONPathMatch] = root_iter()
-- 
2.43.0


From d023d542e9988391048925dd1e68657044285153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 11/44] fix: never equate booleans with numbers inside arrays
 and objects

---
 jsonpath/_data.py | 28 ++++++++++++++++++++++++++++
 jsonpath/env.py   |  9 ++-------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index e923bf5..eeeea92 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -2,6 +2,8 @@ import json
 import re
 from io import IOBase
 from typing import Any
+from typing import Mapping
+from typing import Sequence
 
 _RE_PROBABLY_MALFORMED = re.compile(r"[\{\}\[\]]")
 
@@ -19,3 +21,29 @@ def load_data(data: object) -> Any:
     if isinstance(data, IOBase):
         return json.loads(data.read())
     return data
+
+
+def json_equal(left: object, right: object) -> bool:
+    """Return `True` if _left_ and _right_ are equal JSON values.
+
+    Unlike Python's `==`, a Boolean is never equal to a number, at any depth.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return isinstance(left, bool) and isinstance(right, bool) and left == right
+
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and json_equal(val, right[key]) for key, val in left.items()
+        )
+
+    if (
+        isinstance(left, Sequence)
+        and isinstance(right, Sequence)
+        and not isinstance(left, str)
+        and not isinstance(right, str)
+    ):
+        return len(left) == len(right) and all(
+            json_equal(a, b) for a, b in zip(left, right)  # noqa: B905
+        )
+
+    return left == right
diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8980414..e75ef9b 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -19,6 +19,7 @@ from typing import Type
 from typing import Union
 
 from . import function_extensions
+from ._data import json_equal
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
@@ -589,13 +590,7 @@ class JSONPathEnvironment:
             return True
 
         # Remember 1 == True and 0 == False in Python
-        if isinstance(right, bool):
-            left, right = right, left
-
-        if isinstance(left, bool):
-            return isinstance(right, bool) and left == right
-
-        return left == right
+        return json_equal(left, right)
 
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
-- 
2.43.0


From 82e84e6d4749d2cb7342a6f5162f236b096dd896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 12/44] fix: booleans are not ordered

---
 jsonpath/env.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index e75ef9b..f93f08d 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -596,6 +596,10 @@ class JSONPathEnvironment:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
 
+        # Remember Booleans are ints in Python
+        if isinstance(left, bool) or isinstance(right, bool):
+            return False
+
         if isinstance(left, (int, float, Decimal)) and isinstance(
             right, (int, float, Decimal)
         ):
-- 
2.43.0


From 205184b5ca60c77e3a91a5052a1ed3207e665a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:00 +0000
Subject: [PATCH 13/44] fix: evaluate and type check the <> operator like !=

---
 jsonpath/env.py   | 2 +-
 jsonpath/parse.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index f93f08d..8a95b8a 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -555,7 +555,7 @@ class JSONPathEnvironment:
             return self.is_truthy(left) or self.is_truthy(right)
         if operator == "==":
             return self._eq(left, right)
-        if operator == "!=":
+        if operator in ("!=", "<>"):
             return not self._eq(left, right)
         if operator == "<":
             return self._lt(left, right)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..07b4b7c 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -193,6 +193,7 @@ class Parser:
             "<=",
             "<",
             "!=",
+            "<>",
             "=~",
         ]
     )
-- 
2.43.0


From 5884ed23e1d7732f245b16f517944a4e1ae18d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:05 +0000
Subject: [PATCH 14/44] fix: membership tests compare JSON values and never
 raise

---
 jsonpath/env.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8a95b8a..af39cd6 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -566,9 +566,9 @@ class JSONPathEnvironment:
         if operator == "<=":
             return self._lt(left, right) or self._eq(left, right)
         if operator == "in" and isinstance(right, (Mapping, Sequence)):
-            return left in right
+            return self._contains(right, left)
         if operator == "contains" and isinstance(left, (Mapping, Sequence)):
-            return right in left
+            return self._contains(left, right)
         if operator == "=~" and isinstance(right, re.Pattern) and isinstance(left, str):
             return bool(right.fullmatch(left))
         return False
@@ -606,3 +606,21 @@ class JSONPathEnvironment:
             return left < right
 
         return False
+
+    def _contains(
+        self, container: Union[Mapping[Any, Any], Sequence[Any]], obj: object
+    ) -> bool:
+        if isinstance(obj, NodeList):
+            # An empty node list or more than one node, neither is a JSON value.
+            return False
+
+        if isinstance(container, str):
+            return isinstance(obj, str) and obj in container
+
+        if isinstance(container, Mapping):
+            try:
+                return obj in container
+            except TypeError:  # unhashable
+                return False
+
+        return any(json_equal(obj, item) for item in container)
-- 
2.43.0


From 2031a854b1adb5fb15d10dc0c85e9167e32fa5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 15/44] fix: only canonical decimal pointer tokens are array
 indices

---
 jsonpath/pointer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..56bbb00 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -38,6 +38,9 @@ class _Undefined:
 UNDEFINED = _Undefined()
 
 
+RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
+
+
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
 
@@ -108,8 +111,8 @@ class JSONPointer:
         )[1:]
 
     def _index(self, s: str) -> Union[str, int]:
-        # Reject non-zero ints that start with a zero.
-        if len(s) > 1 and s.startswith("0"):
+        # Reject anything that is not the canonical decimal form of an integer.
+        if not RE_INDEX.fullmatch(s):
             return s
 
         try:
-- 
2.43.0


From dc87a4498510745c959d3b5af5d20a6c595c6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 16/44] fix: decoding pointer escapes keeps non-ASCII
 characters and raises only pointer errors

---
 jsonpath/pointer.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 56bbb00..60f3237 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -38,6 +38,7 @@ class _Undefined:
 UNDEFINED = _Undefined()
 
 
+RE_ASCII = re.compile(r"[\x00-\x7f]+")
 RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
 
 
@@ -245,15 +246,26 @@ class JSONPointer:
             )
         return ""
 
-    def _unicode_escape(self, s: str) -> str:
+    @staticmethod
+    def _unicode_escape(s: str) -> str:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
-        return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        if "\\" not in s:
+            return s
+
+        try:
+            # Escape sequences are ASCII, everything else stands for itself.
+            return (
+                RE_ASCII.sub(
+                    lambda m: codecs.decode(m.group(), "unicode-escape"),
+                    s.replace("\\/", "/"),
+                )
+                .encode("utf-16", "surrogatepass")
+                .decode("utf-16")
+            )
+        except UnicodeError as err:
+            raise JSONPointerError(f"invalid escape sequence: {err}") from err
 
     @classmethod
     def from_match(
@@ -299,12 +311,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (cls._unicode_escape(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From 508ddf6e4c68709751bd4cbef11b23798c39e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 17/44] fix: a JSON Pointer never resolves into a string

---
 jsonpath/pointer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 60f3237..f7adc64 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -125,6 +125,10 @@ class JSONPointer:
             return s
 
     def _getitem(self, obj: Any, key: Any) -> Any:  # noqa: PLR0912
+        if isinstance(obj, str):
+            # Strings are primitive values, not sequences of characters.
+            raise JSONPointerTypeError(f"{key}: can't resolve a token against a string")
+
         try:
             return getitem(obj, key)
         except KeyError as err:
-- 
2.43.0


From 496e4c700310f9384764412eddf8ce8484bb9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 18/44] fix: a malformed index pointer raises a pointer error

---
 jsonpath/pointer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index f7adc64..95f4608 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -156,7 +156,9 @@ class JSONPointer:
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
                 if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
+                    _index = self._index(key[1:])
+                    if not isinstance(_index, int):
+                        raise JSONPointerTypeError(f"{key}: {err}") from err
                     if _index >= len(obj):
                         raise JSONPointerIndexError(
                             f"index out of range: {_index}"
-- 
2.43.0


From 78f1dfacc4acab965a565da9f722596bb87eecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 19/44] fix: compare JSON Pointers by their reference tokens

---
 jsonpath/pointer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 95f4608..40cf54f 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -335,16 +335,14 @@ class JSONPointer:
 
     def is_relative_to(self, other: JSONPointer) -> bool:
         """Return _True_ if this pointer points to a child of _other_."""
-        return (
-            len(other.parts) < len(self.parts)
-            and self.parts[: len(other.parts)] == other.parts
-        )
+        return self._s.startswith(f"{other._s}/")
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, JSONPointer) and self.parts == other.parts
+        # Index-like parts can be either strings or integers. Compare tokens.
+        return isinstance(other, JSONPointer) and self._s == other._s
 
     def __hash__(self) -> int:
-        return hash(self.parts)
+        return hash(self._s)
 
     def __repr__(self) -> str:
         return f"JSONPointer({self._s!r})"
-- 
2.43.0


From a8c8ac6a0b337c758db8ee51ec41352326d93e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 20/44] fix: relative pointer index offsets can have any number
 of digits

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 40cf54f..2bd3f43 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -460,7 +460,7 @@ class JSONPointer:
 
 
 RE_RELATIVE_POINTER = re.compile(
-    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d))?(?P<POINTER>.*)",
+    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d+))?(?P<POINTER>.*)",
     re.DOTALL,
 )
 
-- 
2.43.0


From 211d58354f256ff5f8afbcd489ee9c62422faa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 21/44] fix: keep trailing blanks in the last token of a
 relative pointer

---
 jsonpath/pointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 2bd3f43..b2de013 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -525,15 +525,15 @@ class RelativeJSONPointer:
             index = 0
 
         # Pointer or '#'. Empty string is OK.
-        _pointer = match.group("POINTER").strip()
+        _pointer = match.group("POINTER")
         pointer = (
             JSONPointer(
                 _pointer,
                 unicode_escape=unicode_escape,
                 uri_decode=uri_decode,
             )
-            if _pointer != "#"
-            else _pointer
+            if _pointer.strip() != "#"
+            else "#"
         )
 
         return (origin, index, pointer)
-- 
2.43.0


From ecfad7f5732d9c2b8511eb1754deb26ea8419aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 22/44] fix: refuse the key marker of a relative pointer at the
 root

---
 jsonpath/pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index b2de013..4d6af77 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -606,6 +606,8 @@ class RelativeJSONPointer:
             parts.extend(self.pointer.parts)
         else:
             assert self.pointer == "#"
+            if not parts:
+                raise RelativeJSONPointerIndexError("the root has no index or name")
             parts[-1] = f"#{parts[-1]}"
 
         return JSONPointer.from_parts(
-- 
2.43.0


From 69107ea3fa64fbd16bc34d7f01b6d5208443b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 23/44] fix: do not decode the parts of a relative pointer
 twice

---
 jsonpath/pointer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 4d6af77..1eb92e7 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -610,9 +610,8 @@ class RelativeJSONPointer:
                 raise RelativeJSONPointerIndexError("the root has no index or name")
             parts[-1] = f"#{parts[-1]}"
 
-        return JSONPointer.from_parts(
-            parts, unicode_escape=unicode_escape, uri_decode=uri_decode
-        )
+        # Parts of both pointers have already been decoded.
+        return JSONPointer.from_parts(parts, unicode_escape=False, uri_decode=False)
 
 
 def resolve(
-- 
2.43.0


From 82f97224b8de3aab9b97b1da2bfbd0570e788a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 24/44] fix: load addap operations as addap

---
 jsonpath/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..054d6e7 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -419,7 +419,7 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
-- 
2.43.0


From 4e5f47154a7cd57fa3a2e00717a1dff9fe9dd9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 25/44] fix: the patch test operation compares JSON values

---
 jsonpath/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 054d6e7..d95c5fd 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -16,6 +16,7 @@ from typing import MutableSequence
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import json_equal
 from jsonpath._data import load_data
 from jsonpath.exceptions import JSONPatchError
 from jsonpath.exceptions import JSONPatchTestFailure
@@ -341,7 +342,7 @@ class OpTest(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         _, obj = self.path.resolve_parent(data)
-        if not obj == self.value:
+        if obj is UNDEFINED or not json_equal(obj, self.value):
             raise JSONPatchTestFailure
         return data
 
-- 
2.43.0


From ade1e09120194e02884449c21ac77e39248deb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 26/44] fix: a patched document never shares values with the
 patch

---
 jsonpath/patch.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index d95c5fd..1a4e973 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -63,19 +63,19 @@ class OpAdd(Op):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 if target == "-":
-                    parent.append(self.value)
+                    parent.append(copy.deepcopy(self.value))
                 else:
                     raise JSONPatchError("index out of range")
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -108,16 +108,16 @@ class OpAddNe(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         return data
 
 
@@ -142,16 +142,16 @@ class OpAddAp(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -213,16 +213,16 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, obj = self.path.resolve_parent(data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
+            parent[int(self.path.parts[-1])] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
+            parent[self.path.parts[-1]] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
-- 
2.43.0


From 823f915a2691e928beef332f695884ac1090e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 27/44] fix: locate the targets of patch operations as RFC 6902
 says

---
 jsonpath/patch.py | 110 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 32 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 1a4e973..e5aca18 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -4,15 +4,20 @@ from __future__ import annotations
 
 import copy
 import json
+import re
+import sys
 from abc import ABC
 from abc import abstractmethod
 from io import IOBase
+from typing import Any
 from typing import Dict
 from typing import Iterable
 from typing import List
 from typing import Mapping
 from typing import MutableMapping
 from typing import MutableSequence
+from typing import Sequence
+from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
@@ -27,6 +32,50 @@ from jsonpath.exceptions import JSONPointerTypeError
 from jsonpath.pointer import UNDEFINED
 from jsonpath.pointer import JSONPointer
 
+RE_ARRAY_INDEX = re.compile(r"0|[1-9][0-9]*")
+
+
+def _array_index(array: Sequence[object], token: str) -> int:
+    """Return the array index for _token_, which could be past the end of _array_."""
+    if token == "-":
+        return len(array)
+    if not RE_ARRAY_INDEX.fullmatch(token):
+        raise JSONPointerTypeError(f"{token!r} is not an array index")
+    # Too many digits to be anything but out of range.
+    return int(token) if len(token) < 20 else sys.maxsize  # noqa: PLR2004
+
+
+def _locate(pointer: JSONPointer, data: object) -> Tuple[Any, Any, object]:
+    """Return the `(parent, key, object)` that _pointer_ identifies within _data_.
+
+    Unlike `JSONPointer.resolve_parent()`, there are no non-standard tokens here, as
+    a patch must apply exactly as RFC 6902 says. _key_ is always a string if _parent_
+    is a mapping, and an array index if it is a sequence. _object_ is `UNDEFINED` if
+    there's nothing at _key_. _parent_ is `None` if _pointer_ points to the root.
+    """
+    parent: object = None
+    key: Union[int, str] = ""
+    obj = data
+
+    for part in pointer.parts:
+        if obj is UNDEFINED:
+            if isinstance(key, int):
+                raise JSONPointerIndexError("index out of range")
+            raise JSONPointerKeyError(key)
+
+        parent, key = obj, str(part)
+        if isinstance(parent, Mapping):
+            obj = parent.get(key, UNDEFINED)
+        elif isinstance(parent, Sequence) and not isinstance(parent, str):
+            key = _array_index(parent, key)
+            obj = parent[key] if key < len(parent) else UNDEFINED
+        else:
+            raise JSONPointerTypeError(
+                f"{key!r} does not apply to {parent.__class__.__name__!r}"
+            )
+
+    return parent, key, obj
+
 
 class Op(ABC):
     """One of the JSON Patch operations."""
@@ -59,21 +108,16 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _locate(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return copy.deepcopy(self.value)  # type: ignore
 
-        target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                if target == "-":
-                    parent.append(copy.deepcopy(self.value))
-                else:
-                    raise JSONPatchError("index out of range")
-            else:
-                parent.insert(int(target), copy.deepcopy(self.value))
+            if target > len(parent):
+                raise JSONPatchError("index out of range")
+            parent.insert(target, copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
             parent[target] = copy.deepcopy(self.value)
         else:
@@ -104,18 +148,17 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _locate(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return copy.deepcopy(self.value)  # type: ignore
 
-        target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), copy.deepcopy(self.value))
+                parent.insert(target, copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping) and target not in parent:
             parent[target] = copy.deepcopy(self.value)
         return data
@@ -138,18 +181,17 @@ class OpAddAp(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _locate(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return copy.deepcopy(self.value)  # type: ignore
 
-        target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), copy.deepcopy(self.value))
+                parent.insert(target, copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
             parent[target] = copy.deepcopy(self.value)
         else:
@@ -173,18 +215,18 @@ class OpRemove(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _locate(self.path, data)
         if parent is None:
             raise JSONPatchError("can't remove root")
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent item")
-            del parent[int(self.path.parts[-1])]
+            del parent[target]
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
+            del parent[target]
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -211,18 +253,18 @@ class OpReplace(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _locate(self.path, data)
         if parent is None:
             return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = copy.deepcopy(self.value)
+            parent[target] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = copy.deepcopy(self.value)
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -252,26 +294,28 @@ class OpMove(Op):
         if self.dest.is_relative_to(self.source):
             raise JSONPatchError("can't move object to one of its own children")
 
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_key, source_obj = _locate(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
         if isinstance(source_parent, MutableSequence):
-            del source_parent[int(self.source.parts[-1])]
+            del source_parent[source_key]
         if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
+            del source_parent[source_key]
 
-        dest_parent, _ = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _locate(self.dest, data)
 
         if dest_parent is None:
             # Move source to root
             return source_obj  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
+            if dest_key > len(dest_parent):
+                raise JSONPatchError("index out of range")
+            dest_parent.insert(dest_key, source_obj)
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
+            dest_parent[dest_key] = source_obj
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
@@ -299,21 +343,23 @@ class OpCopy(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        source_parent, source_obj = self.source.resolve_parent(data)
+        _, _, source_obj = _locate(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        dest_parent, dest_obj = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _locate(self.dest, data)
 
         if dest_parent is None:
             # Copy source to root
             return copy.deepcopy(source_obj)  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
+            if dest_key > len(dest_parent):
+                raise JSONPatchError("index out of range")
+            dest_parent.insert(dest_key, copy.deepcopy(source_obj))
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
+            dest_parent[dest_key] = copy.deepcopy(source_obj)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
@@ -341,7 +387,7 @@ class OpTest(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        _, obj = self.path.resolve_parent(data)
+        _, _, obj = _locate(self.path, data)
         if obj is UNDEFINED or not json_equal(obj, self.value):
             raise JSONPatchTestFailure
         return data
-- 
2.43.0


From 33e7b7c44e60f1b108bc1725ad768424f9a28705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 28/44] fix: addne differs from add only for existing object
 members

---
 jsonpath/patch.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index e5aca18..57733cf 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -155,12 +155,16 @@ class OpAddNe(OpAdd):
             return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
+            if target > len(parent):
+                raise JSONPatchError("index out of range")
+            parent.insert(target, copy.deepcopy(self.value))
+        elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
-                parent.append(copy.deepcopy(self.value))
-            else:
-                parent.insert(target, copy.deepcopy(self.value))
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = copy.deepcopy(self.value)
+                parent[target] = copy.deepcopy(self.value)
+        else:
+            raise JSONPatchError(
+                f"unexpected operation on {parent.__class__.__name__!r}"
+            )
         return data
 
 
-- 
2.43.0


From 2346024202932ffe5e4e8a1d7603bbc2aef38272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 29/44] fix: reject an index or slice bound that is not an
 integer with a JSONPath error

---
 jsonpath/parse.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 07b4b7c..11e2a0e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -9,12 +9,12 @@ from typing import Callable
 from typing import Dict
 from typing import Iterable
 from typing import List
-from typing import Optional
 from typing import Union
 
 from jsonpath.function_extensions.filter_function import ExpressionType
 from jsonpath.function_extensions.filter_function import FilterFunction
 
+from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
 from .filter import CURRENT_KEY
@@ -354,27 +354,12 @@ class Parser:
         stream.expect(TOKEN_SLICE_STEP)
         step_token = stream.current
 
-        if not start_token.value:
-            start: Optional[int] = None
-        else:
-            start = int(start_token.value)
-
-        if not stop_token.value:
-            stop: Optional[int] = None
-        else:
-            stop = int(stop_token.value)
-
-        if not step_token.value:
-            step: Optional[int] = None
-        else:
-            step = int(step_token.value)
-
         return SliceSelector(
             env=self.env,
             token=start_token,
-            start=start,
-            stop=stop,
-            step=step,
+            start=self._parse_index(start_token) if start_token.value else None,
+            stop=self._parse_index(stop_token) if stop_token.value else None,
+            step=self._parse_index(step_token) if step_token.value else None,
         )
 
     def parse_selector_list(self, stream: TokenStream) -> ListSelector:  # noqa: PLR0912
@@ -404,7 +389,7 @@ class Parser:
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._parse_index(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
@@ -711,6 +696,17 @@ class Parser:
 
         return left
 
+    def _parse_index(self, token: Token) -> int:
+        """Return the array index, or the slice bound or step, held by _token_."""
+        if not token.value.lstrip("-").isdigit():
+            raise JSONPathSyntaxError(
+                f"unexpected {token.value!r}, expected an integer", token=token
+            )
+        try:
+            return int(token.value)
+        except ValueError as err:  # Python limits the length of an integer string.
+            raise JSONPathIndexError("index out of range", token=token) from err
+
     def _decode_string_literal(self, token: Token) -> str:
         if self.env.unicode_escape:
             if token.kind == TOKEN_SINGLE_QUOTE_STRING:
-- 
2.43.0


From 879aceebefef158a442429fa4135f1174457f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 30/44] fix: number literals of any size and exactness compile

---
 jsonpath/parse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 11e2a0e..e491b78 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import json
+import math
 import re
 from typing import TYPE_CHECKING
 from typing import Callable
@@ -512,8 +513,15 @@ class Parser:
         return StringLiteral(value=self._decode_string_literal(stream.current))
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
-        # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        value = stream.current.value
+        try:
+            return IntegerLiteral(value=int(value))
+        except ValueError:
+            # Scientific notation, or more digits than Python converts to an int.
+            number = float(value)
+        if math.isinf(number):
+            return FloatLiteral(value=number)
+        return IntegerLiteral(value=int(number))
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
-- 
2.43.0


From 05ad77b5494468a69e68bee1e91fb63114bf43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 31/44] fix: the text of a float literal is read as the same
 float

---
 jsonpath/filter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 1c98e54..26c63d3 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import math
 import re
 from abc import ABC
 from abc import abstractmethod
@@ -221,6 +222,16 @@ class FloatLiteral(Literal[float]):
 
     __slots__ = ()
 
+    def __str__(self) -> str:
+        if math.isinf(self.value):
+            # Out of range for a float, as read from `1e400`, for example.
+            return "1.0e999" if self.value > 0 else "-1.0e999"
+        digits = repr(self.value)
+        if "." in digits:
+            return digits
+        # Without a fraction part, `1e+16` would be read as an integer.
+        return digits.replace("e", ".0e")
+
 
 class RegexLiteral(Literal[Pattern[str]]):
     """A regex literal."""
-- 
2.43.0


From 39446a921ad005b1dc80fa28a250be8b571d1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 32/44] fix: an invalid regular expression never raises a
 built-in exception

---
 jsonpath/function_extensions/match.py  | 2 +-
 jsonpath/function_extensions/search.py | 2 +-
 jsonpath/parse.py                      | 9 +++++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsonpath/function_extensions/match.py b/jsonpath/function_extensions/match.py
index 7bc8749..242000a 100644
--- a/jsonpath/function_extensions/match.py
+++ b/jsonpath/function_extensions/match.py
@@ -17,5 +17,5 @@ class Match(FilterFunction):
         try:
             # re.fullmatch caches compiled patterns internally
             return bool(re.fullmatch(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
diff --git a/jsonpath/function_extensions/search.py b/jsonpath/function_extensions/search.py
index ed88635..52cf45b 100644
--- a/jsonpath/function_extensions/search.py
+++ b/jsonpath/function_extensions/search.py
@@ -17,5 +17,5 @@ class Search(FilterFunction):
         try:
             # re.search caches compiled patterns internally
             return bool(re.search(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index e491b78..d6037dd 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -610,13 +610,18 @@ class Parser:
         )
 
     def parse_regex(self, stream: TokenStream) -> FilterExpression:
-        pattern = stream.current.value
+        tok = stream.current
         flags = 0
         if stream.peek.kind == TOKEN_RE_FLAGS:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+        try:
+            return RegexLiteral(value=re.compile(tok.value, flags))
+        except (re.error, ValueError, OverflowError, RecursionError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=tok
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 569037327e5d570acdccf4093525c2ee9e41017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 33/44] fix: an ill-typed function call raises a JSONPath type
 error when type checks are off

---
 jsonpath/filter.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 26c63d3..9d32bb8 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -666,7 +666,7 @@ class FunctionExtension(FilterExpression):
         except KeyError:
             return UNDEFINED  # TODO: should probably raise an exception
         args = [arg.evaluate(context) for arg in self.args]
-        return func(*self._unpack_node_lists(func, args))
+        return self._call(context, func, args)
 
     async def evaluate_async(self, context: FilterContext) -> object:
         try:
@@ -674,7 +674,22 @@ class FunctionExtension(FilterExpression):
         except KeyError:
             return UNDEFINED  # TODO: should probably raise an exception
         args = [await arg.evaluate_async(context) for arg in self.args]
-        return func(*self._unpack_node_lists(func, args))
+        return self._call(context, func, args)
+
+    def _call(
+        self, context: FilterContext, func: Callable[..., Any], args: List[object]
+    ) -> object:
+        _args = self._unpack_node_lists(func, args)
+        if context.env.well_typed or not isinstance(func, FilterFunction):
+            return func(*_args)
+
+        # Without compile-time checks, arguments can be of the wrong type.
+        try:
+            return func(*_args)
+        except (AttributeError, LookupError, TypeError) as err:
+            raise JSONPathTypeError(
+                f"{self.name}() got an argument of the wrong type: {err}"
+            ) from err
 
     def _unpack_node_lists(
         self, func: Callable[..., Any], args: List[object]
-- 
2.43.0


From cb3171fc41cf73b439749b4b34d3139e436fd082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 34/44] fix: uncompared literals and value-typed functions are
 refused at any position

---
 jsonpath/parse.py | 60 ++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index d6037dd..7d8fa8f 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -478,23 +478,7 @@ class Parser:
         tok = stream.next_token()
         expr = self.parse_filter_selector(stream)
 
-        if self.env.well_typed and isinstance(expr, FunctionExtension):
-            func = self.env.function_extensions.get(expr.name)
-            if (
-                func
-                and isinstance(func, FilterFunction)
-                and func.return_type == ExpressionType.VALUE
-            ):
-                raise JSONPathTypeError(
-                    f"result of {expr.name}() must be compared", token=tok
-                )
-
-        if isinstance(expr, (Literal, Nil)):
-            raise JSONPathSyntaxError(
-                "filter expression literals outside of "
-                "function expressions must be compared",
-                token=tok,
-            )
+        self._raise_for_uncompared(expr, tok)
 
         return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))
 
@@ -529,10 +513,9 @@ class Parser:
     def parse_prefix_expression(self, stream: TokenStream) -> FilterExpression:
         tok = stream.next_token()
         assert tok.kind == TOKEN_NOT
-        return PrefixExpression(
-            operator="!",
-            right=self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX),
-        )
+        right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
+        self._raise_for_uncompared(right, tok)
+        return PrefixExpression(operator="!", right=right)
 
     def parse_infix_expression(
         self, stream: TokenStream, left: FilterExpression
@@ -547,18 +530,8 @@ class Parser:
             self._raise_for_non_comparable_function(right, tok)
 
         if operator not in self.INFIX_LITERAL_OPERATORS:
-            if isinstance(left, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
-            if isinstance(right, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
+            self._raise_for_uncompared(left, tok)
+            self._raise_for_uncompared(right, tok)
 
         return InfixExpression(left, operator, right)
 
@@ -735,6 +708,25 @@ class Parser:
 
         return token.value
 
+    def _raise_for_uncompared(self, expr: FilterExpression, token: Token) -> None:
+        """Raise an error if _expr_, used as a test expression, must be compared."""
+        if isinstance(expr, (Literal, Nil)):
+            raise JSONPathSyntaxError(
+                "filter expression literals outside of "
+                "function expressions must be compared",
+                token=token,
+            )
+
+        if self.env.well_typed and isinstance(expr, FunctionExtension):
+            func = self.env.function_extensions.get(expr.name)
+            if (
+                isinstance(func, FilterFunction)
+                and func.return_type == ExpressionType.VALUE
+            ):
+                raise JSONPathTypeError(
+                    f"result of {expr.name}() must be compared", token=token
+                )
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
@@ -748,5 +740,5 @@ class Parser:
                 and func.return_type != ExpressionType.VALUE
             ):
                 raise JSONPathTypeError(
-                    f"result of {expr.name}() is not comparable", token
+                    f"result of {expr.name}() is not comparable", token=token
                 )
-- 
2.43.0


From 05d90ad9c437f5cbe2d9e898a8355b707691721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 35/44] fix: a list literal or undefined must be compared too

---
 jsonpath/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 7d8fa8f..0564eae 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -39,6 +39,7 @@ from .filter import RegexLiteral
 from .filter import RootPath
 from .filter import SelfPath
 from .filter import StringLiteral
+from .filter import Undefined
 from .path import JSONPath
 from .selectors import Filter
 from .selectors import IndexSelector
@@ -710,7 +711,7 @@ class Parser:
 
     def _raise_for_uncompared(self, expr: FilterExpression, token: Token) -> None:
         """Raise an error if _expr_, used as a test expression, must be compared."""
-        if isinstance(expr, (Literal, Nil)):
+        if isinstance(expr, (Literal, ListLiteral, Nil, Undefined)):
             raise JSONPathSyntaxError(
                 "filter expression literals outside of "
                 "function expressions must be compared",
-- 
2.43.0


From 81059e2abca0a4b09c3a9d7afc02e5373688f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 36/44] fix: a reserved word that follows a recursive descent
 is a name

---
 jsonpath/lex.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4831850..0e612cd 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -87,17 +87,20 @@ class Lexer:
 
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
+    # What follows ".." is a key/property, even if it is spelled like a reserved word.
+    word_start_pattern = r"(?<!\.\.)"
+
     # A reserved word ends where a key/property of the same spelling would end.
     word_end_pattern = r"(?![\u0080-\U0010FFFFa-zA-Z0-9_-])"
 
     # `not` or !
-    logical_not_pattern = rf"(?:not{word_end_pattern})|!"
+    logical_not_pattern = rf"(?:{word_start_pattern}not{word_end_pattern})|!"
 
     # && or `and`
-    logical_and_pattern = rf"&&|(?:and{word_end_pattern})"
+    logical_and_pattern = rf"&&|(?:{word_start_pattern}and{word_end_pattern})"
 
     # || or `or`
-    logical_or_pattern = rf"\|\||(?:or{word_end_pattern})"
+    logical_or_pattern = rf"\|\||(?:{word_start_pattern}or{word_end_pattern})"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -164,15 +167,20 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, rf"in{self.word_end_pattern}"),
-            (TOKEN_TRUE, rf"[Tt]rue{self.word_end_pattern}"),
-            (TOKEN_FALSE, rf"[Ff]alse{self.word_end_pattern}"),
-            (TOKEN_NIL, rf"[Nn]il{self.word_end_pattern}"),
-            (TOKEN_NULL, rf"[Nn]ull{self.word_end_pattern}"),
-            (TOKEN_NONE, rf"[Nn]one{self.word_end_pattern}"),
-            (TOKEN_CONTAINS, rf"contains{self.word_end_pattern}"),
-            (TOKEN_UNDEFINED, rf"undefined{self.word_end_pattern}"),
-            (TOKEN_MISSING, rf"missing{self.word_end_pattern}"),
+            *[
+                (token, rf"{self.word_start_pattern}{word}{self.word_end_pattern}")
+                for token, word in (
+                    (TOKEN_IN, "in"),
+                    (TOKEN_TRUE, "[Tt]rue"),
+                    (TOKEN_FALSE, "[Ff]alse"),
+                    (TOKEN_NIL, "[Nn]il"),
+                    (TOKEN_NULL, "[Nn]ull"),
+                    (TOKEN_NONE, "[Nn]one"),
+                    (TOKEN_CONTAINS, "contains"),
+                    (TOKEN_UNDEFINED, "undefined"),
+                    (TOKEN_MISSING, "missing"),
+                )
+            ],
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
-- 
2.43.0


From 9b637aaffabda7521ca70436cd6b6c2a653af61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 37/44] fix: every operand of a compound query is intersected,
 on JSON equality, with data loaded once

---
 jsonpath/path.py | 103 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 71 insertions(+), 32 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 8993cf2..b975a57 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -14,6 +14,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import json_equal
 from jsonpath._data import load_data
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
@@ -338,17 +339,9 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        objs = self.path.findall(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = path.findall(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj for match in self.finditer(data, filter_context=filter_context)
+        ]
 
     def finditer(
         self,
@@ -375,16 +368,30 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        matches = self.path.finditer(data, filter_context=filter_context)
+        # Load the data once. A file-like object can't be read again for each path.
+        _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context or {})
+
+    def resolve(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: FilterContextVars,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate matches starting at _obj_, a value in the document _root_.
+
+        Unlike `finditer()`, _obj_ is never loaded as JSON text.
+        """
+        matches = self.path.resolve(obj, root=root, filter_context=filter_context)
 
         for op, path in self.paths:
-            _matches = path.finditer(data, filter_context=filter_context)
+            _matches = path.resolve(obj, root=root, filter_context=filter_context)
             if op == self.env.union_token:
                 matches = itertools.chain(matches, _matches)
             else:
-                assert op == self.env.intersection_token
-                _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                assert op == self.env.intersection_token, op
+                matches = _intersection(matches, [match.obj for match in _matches])
 
         return matches
 
@@ -425,17 +432,12 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
-        objs = await self.path.findall_async(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = await path.findall_async(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj
+            async for match in await self.finditer_async(
+                data, filter_context=filter_context
+            )
+        ]
 
     async def finditer_async(
         self,
@@ -444,16 +446,37 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
-        matches = await self.path.finditer_async(data, filter_context=filter_context)
+        _data = load_data(data)
+        return await self.resolve_async(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    async def resolve_async(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: FilterContextVars,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
+        if isinstance(self.path, CompoundJSONPath):
+            matches = await self.path.resolve_async(
+                obj, root=root, filter_context=filter_context
+            )
+        else:
+            matches = self.path.resolve_async(
+                obj, root=root, filter_context=filter_context
+            )
 
         for op, path in self.paths:
-            _matches = await path.finditer_async(data, filter_context=filter_context)
+            _matches = path.resolve_async(obj, root=root, filter_context=filter_context)
             if op == self.env.union_token:
                 matches = _achain(matches, _matches)
             else:
-                assert op == self.env.intersection_token
-                _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                assert op == self.env.intersection_token, op
+                matches = _aintersection(
+                    matches, [match.obj async for match in _matches]
+                )
 
         return matches
 
@@ -505,3 +528,19 @@ async def _achain(*iterables: AsyncIterable[T]) -> AsyncIterable[T]:
     for it in iterables:
         async for element in it:
             yield element
+
+
+def _intersection(
+    matches: Iterable[JSONPathMatch], objs: List[object]
+) -> Iterable[JSONPathMatch]:
+    for match in matches:
+        if any(json_equal(match.obj, obj) for obj in objs):
+            yield match
+
+
+async def _aintersection(
+    matches: AsyncIterable[JSONPathMatch], objs: List[object]
+) -> AsyncIterable[JSONPathMatch]:
+    async for match in matches:
+        if any(json_equal(match.obj, obj) for obj in objs):
+            yield match
-- 
2.43.0


From e9002e46de16b05124f1a73b4a170041a69b4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 38/44] fix: projection never writes to an object or array of
 the document

---
 jsonpath/fluent_api.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..1d82ad3 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -223,7 +223,7 @@ class Query:
             return None
 
         if projection == Projection.RELATIVE:
-            obj: Dict[Union[int, str], Any] = {}
+            obj: Dict[Union[int, str], Any] = _SparseObject()
             for expr in expressions:
                 path = self._env.compile(expr) if isinstance(expr, str) else expr
                 for rel_match in path.finditer(match.obj):  # type: ignore
@@ -240,7 +240,7 @@ class Query:
             return arr
 
         # Project from the root document
-        obj = {}
+        obj = _SparseObject()
         for expr in expressions:
             path = self._env.compile(expr) if isinstance(expr, str) else expr
             for rel_match in path.finditer(match.obj):  # type: ignore
@@ -249,6 +249,10 @@ class Query:
         return _fix_sparse_arrays(obj)
 
 
+class _SparseObject(Dict[Union[int, str], Any]):
+    """The selected items of an array or object. Never a value from the document."""
+
+
 def _patch_obj(
     parts: Tuple[Union[int, str], ...],
     obj: Mapping[Union[str, int], Any],
@@ -264,9 +268,14 @@ def _patch_obj(
     # We'll fix these "sparse arrays" after the patch has been applied.
     for part in parts[:-1]:
         if part not in _obj:
-            _obj[part] = {}  # type: ignore
+            _obj[part] = _SparseObject()  # type: ignore
         _obj = _obj[part]
 
+        if not isinstance(_obj, _SparseObject):
+            # The whole of this array or object has been selected already. It
+            # belongs to the document, so we must not patch it.
+            return
+
     _obj[parts[-1]] = value  # type: ignore
 
 
-- 
2.43.0


From 89addf5ad41cf506cc9fe4ce0d5501180ae70b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 39/44] fix: read the query from the file given to json path
 --path-file

---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..872332e 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,7 +242,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        query = args.path_file.read().strip()
 
     try:
         path = jsonpath.JSONPathEnvironment(
-- 
2.43.0


From 6a27568b4f1e5ed5f017d37057e323fa0eeb682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 40/44] fix: the command line tool reports every rejected input
 in one line, without a traceback

---
 jsonpath/cli.py | 61 +++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 872332e..47dc372 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -2,17 +2,30 @@
 import argparse
 import json
 import sys
+from typing import NoReturn
 
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
+from jsonpath.exceptions import JSONPathNameError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
 from jsonpath.exceptions import JSONPointerError
 
 INDENT = 2
 
+# JSON text that can't be loaded. `JSONDecodeError` and `UnicodeDecodeError` are
+# value errors, as is an integer with too many digits.
+DECODE_ERRORS = (ValueError, RecursionError)
+
+
+def exit_with_message(message: str) -> NoReturn:
+    """Write _message_ to stderr, on one line, then exit with status 1."""
+    sys.stderr.write(" ".join(message.splitlines()) + "\n")
+    sys.exit(1)
+
 
 def path_sub_command(parser: argparse.ArgumentParser) -> None:  # noqa: D103
     parser.set_defaults(func=handle_path_command)
@@ -252,32 +265,35 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     except JSONPathSyntaxError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path syntax error: {err}\n")
-        sys.exit(1)
+        exit_with_message(f"json path syntax error: {err}")
     except JSONPathTypeError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
+        exit_with_message(f"json path type error: {err}")
     except JSONPathIndexError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path index error: {err}\n")
-        sys.exit(1)
+        exit_with_message(f"json path index error: {err}")
+    except JSONPathNameError as err:
+        if args.debug:
+            raise
+        exit_with_message(f"json path name error: {err}")
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        exit_with_message(f"json path error: {err}")
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        exit_with_message(f"target document json decode error: {err}")
     except JSONPathTypeError as err:
         # Type errors are currently only occurring are compile-time.
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
+        exit_with_message(f"json path type error: {err}")
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
@@ -299,16 +315,14 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        exit_with_message(f"target document json decode error: {err}")
     except JSONPointerError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        exit_with_message(str(err))
 
     indent = INDENT if args.pretty else None
     json.dump(match, args.output, indent=indent)
@@ -318,11 +332,10 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"patch document json decode error: {err}\n")
-        sys.exit(1)
+        exit_with_message(f"patch document json decode error: {err}")
 
     if not isinstance(patch, list):
         sys.stderr.write(
@@ -337,16 +350,14 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
-    except JSONPatchError as err:
+        exit_with_message(f"target document json decode error: {err}")
+    except (JSONPatchError, JSONPointerError) as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        exit_with_message(str(err))
 
     indent = INDENT if args.pretty else None
     json.dump(patched, args.output, indent=indent)
-- 
2.43.0


From d0178124e3d5ace35c951e48b065274d65d60e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 41/44] fix: keep the fake root identifier in a query's string
 form

---
 jsonpath/path.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index b975a57..b6897a5 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -60,9 +60,8 @@ class JSONPath:
         self.fake_root = fake_root
 
     def __str__(self) -> str:
-        return self.env.root_token + "".join(
-            str(selector) for selector in self.selectors
-        )
+        root = self.env.fake_root_token if self.fake_root else self.env.root_token
+        return root + "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From b2bd584058b6330d4da3779dcf0b56d0d85815d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 42/44] fix: keep the scope of negation and grouping of
 operands in string form

---
 jsonpath/filter.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 9d32bb8..5d4edda 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -296,7 +296,7 @@ class PrefixExpression(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        return f"{self.operator}{self.right}"
+        return f"{self.operator}{_operand_string(self.right)}"
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -342,9 +342,9 @@ class InfixExpression(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        if self.logical:
-            return f"({self.left} {self.operator} {self.right})"
-        return f"{self.left} {self.operator} {self.right}"
+        left, right = _operand_string(self.left), _operand_string(self.right)
+        expr = f"{left} {self.operator} {right}"
+        return f"({expr})" if self.logical else expr
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -385,6 +385,14 @@ class InfixExpression(FilterExpression):
         self.right = children[1]
 
 
+def _operand_string(expression: FilterExpression) -> str:
+    """Return a string form of _expression_ suitable for use as an operand."""
+    expr = str(expression)
+    if isinstance(expression, InfixExpression) and not expression.logical:
+        return f"({expr})"
+    return expr
+
+
 PRECEDENCE_LOWEST = 1
 PRECEDENCE_LOGICAL_OR = 3
 PRECEDENCE_LOGICAL_AND = 4
@@ -451,6 +459,9 @@ class BooleanExpression(FilterExpression):
                     f"({expr})" if parent_precedence >= PRECEDENCE_LOGICAL_OR else expr
                 )
 
+            expr = str(expression)
+            return f"({expr})" if parent_precedence >= PRECEDENCE_PREFIX else expr
+
         if isinstance(expression, PrefixExpression):
             operand = self._canonical_string(expression.right, PRECEDENCE_PREFIX)
             expr = f"!{operand}"
-- 
2.43.0


From 2e60f514ac61a1bd9af6bd3abe0f605e3ceaa25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 43/44] fix: spell identifiers in string forms with the
 environment's tokens

---
 jsonpath/filter.py | 12 ++++++------
 jsonpath/parse.py  |  4 ++--
 jsonpath/path.py   |  6 +++++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 5d4edda..94d1db6 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -553,7 +553,7 @@ class SelfPath(Path):
         self.volatile = True
 
     def __str__(self) -> str:
-        return "@" + str(self.path)[1:]
+        return self.path.env.self_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(
@@ -625,8 +625,7 @@ class FilterContextPath(Path):
         self.volatile = False
 
     def __str__(self) -> str:
-        path_repr = str(self.path)
-        return "_" + path_repr[1:]
+        return self.path.env.filter_context_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(
@@ -748,14 +747,15 @@ class FunctionExtension(FilterExpression):
 class CurrentKey(FilterExpression):
     """The key/property or index associated with the current object."""
 
-    __slots__ = ()
+    __slots__ = ("identifier",)
 
-    def __init__(self) -> None:
+    def __init__(self, identifier: str = "#") -> None:
         super().__init__()
+        self.identifier = identifier
         self.volatile = True
 
     def __str__(self) -> str:
-        return "#"
+        return self.identifier
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, CurrentKey)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 0564eae..4c770ac 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -18,12 +18,12 @@ from jsonpath.function_extensions.filter_function import FilterFunction
 from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
-from .filter import CURRENT_KEY
 from .filter import FALSE
 from .filter import NIL
 from .filter import TRUE
 from .filter import UNDEFINED_LITERAL
 from .filter import BooleanExpression
+from .filter import CurrentKey
 from .filter import FilterContextPath
 from .filter import FilterExpression
 from .filter import FloatLiteral
@@ -575,7 +575,7 @@ class Parser:
         )
 
     def parse_current_key(self, _: TokenStream) -> FilterExpression:
-        return CURRENT_KEY
+        return CurrentKey(self.env.key_token)
 
     def parse_filter_context_path(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
diff --git a/jsonpath/path.py b/jsonpath/path.py
index b6897a5..1474e67 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -61,7 +61,11 @@ class JSONPath:
 
     def __str__(self) -> str:
         root = self.env.fake_root_token if self.fake_root else self.env.root_token
-        return root + "".join(str(selector) for selector in self.selectors)
+        return root + self.selectors_string()
+
+    def selectors_string(self) -> str:
+        """Return the string form of this path without its root identifier."""
+        return "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 9959e34d80923c8b0a442d11be60de84246435d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 44/44] fix: a compound query of about a thousand intersections
 exceeded the recursion limit

---
 jsonpath/path.py | 69 ++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 1474e67..7d3417b 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -1,7 +1,6 @@
 # noqa: D100
 from __future__ import annotations
 
-import itertools
 from typing import TYPE_CHECKING
 from typing import Any
 from typing import AsyncIterable
@@ -11,7 +10,6 @@ from typing import Mapping
 from typing import Optional
 from typing import Sequence
 from typing import Tuple
-from typing import TypeVar
 from typing import Union
 
 from jsonpath._data import json_equal
@@ -388,15 +386,19 @@ class CompoundJSONPath:
         """
         matches = self.path.resolve(obj, root=root, filter_context=filter_context)
 
+        # Iterables of matches, each with the number of intersections before it.
+        unions = [(0, matches)]
+        intersections: List[List[object]] = []
+
         for op, path in self.paths:
-            _matches = path.resolve(obj, root=root, filter_context=filter_context)
+            matches = path.resolve(obj, root=root, filter_context=filter_context)
             if op == self.env.union_token:
-                matches = itertools.chain(matches, _matches)
+                unions.append((len(intersections), matches))
             else:
                 assert op == self.env.intersection_token, op
-                matches = _intersection(matches, [match.obj for match in _matches])
+                intersections.append([match.obj for match in matches])
 
-        return matches
+        return _combine(unions, intersections)
 
     def match(
         self,
@@ -471,17 +473,19 @@ class CompoundJSONPath:
                 obj, root=root, filter_context=filter_context
             )
 
+        # Iterables of matches, each with the number of intersections before it.
+        unions = [(0, matches)]
+        intersections: List[List[object]] = []
+
         for op, path in self.paths:
-            _matches = path.resolve_async(obj, root=root, filter_context=filter_context)
+            matches = path.resolve_async(obj, root=root, filter_context=filter_context)
             if op == self.env.union_token:
-                matches = _achain(matches, _matches)
+                unions.append((len(intersections), matches))
             else:
                 assert op == self.env.intersection_token, op
-                matches = _aintersection(
-                    matches, [match.obj async for match in _matches]
-                )
+                intersections.append([match.obj async for match in matches])
 
-        return matches
+        return _acombine(unions, intersections)
 
     def query(
         self,
@@ -524,26 +528,29 @@ class CompoundJSONPath:
         )
 
 
-T = TypeVar("T")
-
-
-async def _achain(*iterables: AsyncIterable[T]) -> AsyncIterable[T]:
-    for it in iterables:
-        async for element in it:
-            yield element
-
-
-def _intersection(
-    matches: Iterable[JSONPathMatch], objs: List[object]
+def _combine(
+    unions: List[Tuple[int, Iterable[JSONPathMatch]]],
+    intersections: List[List[object]],
 ) -> Iterable[JSONPathMatch]:
-    for match in matches:
-        if any(json_equal(match.obj, obj) for obj in objs):
-            yield match
+    """Generate matches from _unions_ that are in all following _intersections_."""
+    for i, matches in unions:
+        following = intersections[i:]
+        for match in matches:
+            if _in_all(match.obj, following):
+                yield match
 
 
-async def _aintersection(
-    matches: AsyncIterable[JSONPathMatch], objs: List[object]
+async def _acombine(
+    unions: List[Tuple[int, AsyncIterable[JSONPathMatch]]],
+    intersections: List[List[object]],
 ) -> AsyncIterable[JSONPathMatch]:
-    async for match in matches:
-        if any(json_equal(match.obj, obj) for obj in objs):
-            yield match
+    """An async version of `_combine()`."""
+    for i, matches in unions:
+        following = intersections[i:]
+        async for match in matches:
+            if _in_all(match.obj, following):
+                yield match
+
+
+def _in_all(obj: object, intersections: List[List[object]]) -> bool:
+    return all(any(json_equal(obj, o) for o in objs) for objs in intersections)
-- 
2.43.0

