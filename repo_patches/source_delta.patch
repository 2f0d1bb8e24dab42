From 1632ab476ac2408a1f2e0aedb54f83b918ee4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 01/83] fix: recover collection sizes exactly when the float
 logarithm rounds up

---
 .../hypothesis/internal/conjecture/choice.py   | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 9cdd278..be41db7 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -209,21 +209,17 @@ def _index_to_size(index: int, alphabet_size: int) -> int:
     # the closed-form inverse of _size_to_index is
     #   size = math.floor(math.log(index * (alphabet_size - 1) + 1, alphabet_size))
     # which is fast, but suffers from float precision errors. As performance is
-    # relatively critical here, we'll use this formula by default, but fall back to
-    # a much slower integer-only logarithm when the calculation is too close for
-    # comfort.
+    # relatively critical here, we'll use this formula by default, but check the
+    # result with exact integer arithmetic when the calculation is too close to an
+    # integer for comfort.
     total = index * (alphabet_size - 1) + 1
     size = math.log(total, alphabet_size)
 
     # if this computation is close enough that it could have been affected by
-    # floating point errors, use a much slower integer-only logarithm instead,
-    # which is guaranteed to be precise.
-    if 0 < math.ceil(size) - size < 1e-7:
-        s = 0
-        while total >= alphabet_size:
-            total //= alphabet_size
-            s += 1
-        return s
+    # floating point errors, the size is either the nearest integer or one less.
+    nearest = round(size)
+    if abs(size - nearest) < 1e-7:
+        return nearest if alphabet_size**nearest <= total else nearest - 1
     return math.floor(size)
 
 
-- 
2.43.0


From 4cb8a972d06cd2c783d4aab856d1ac6ec5b45817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 02/83] fix: let fuzz_one_input reach every integer range and
 negative floats

---
 .../src/hypothesis/internal/conjecture/providers.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
index d877d19..638588b 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
@@ -805,9 +805,9 @@ class BytestringProvider(PrimitiveProvider):
 
         bits = (max_value - min_value).bit_length()
         value = self._draw_bits(bits)
-        while not (min_value <= value <= max_value):
+        while value > max_value - min_value:
             value = self._draw_bits(bits)
-        return value
+        return min_value + value
 
     def draw_float(
         self,
@@ -817,7 +817,7 @@ class BytestringProvider(PrimitiveProvider):
         allow_nan: bool = True,
         smallest_nonzero_magnitude: float,
     ) -> float:
-        n = self._draw_bits(64)
+        n = self._draw_bits(65)
         sign = -1 if n >> 64 else 1
         f = sign * lex_to_float(n & ((1 << 64) - 1))
         clamper = make_float_clamper(
-- 
2.43.0


From f2c269a7ba5508f462f6c4b4733e5f1666bb6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 03/83] fix: read GitHub artifacts whose zip has no directory
 entries

---
 hypothesis-python/src/hypothesis/database.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 8442185..343b9ab 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -776,12 +776,14 @@ class GitHubArtifactDatabase(ExampleDatabase):
                 for filename in namelist:
                     fileinfo = zf.getinfo(filename)
                     if fileinfo.is_dir():
-                        self._access_cache[PurePath(filename)] = set()
+                        self._access_cache.setdefault(PurePath(filename), set())
                     else:
                         # Get the keypath from the filename
                         keypath = PurePath(filename).parent
                         # Add the file to the keypath
-                        self._access_cache[keypath].add(PurePath(filename))
+                        self._access_cache.setdefault(keypath, set()).add(
+                            PurePath(filename)
+                        )
         except BadZipFile:
             warnings.warn(
                 "The downloaded artifact from GitHub is invalid. "
-- 
2.43.0


From 102623ae9c70395eff3716c87cea3a66ff17cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 04/83] fix: save examples when the temporary directory is on
 another filesystem

---
 hypothesis-python/src/hypothesis/database.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 343b9ab..42e1454 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -9,6 +9,7 @@
 # obtain one at https://mozilla.org/MPL/2.0/.
 
 import abc
+import errno
 import json
 import os
 import struct
@@ -390,8 +391,16 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 os.close(fd)
                 try:
                     tmppath.rename(path)
-                except OSError:  # pragma: no cover
+                except OSError as err:  # pragma: no cover
                     tmppath.unlink()
+                    if err.errno == errno.EXDEV:
+                        # We can't rename across filesystem boundaries, so stage
+                        # the file next to the key directories instead.
+                        fd, tmpname = tempfile.mkstemp(dir=self.path)
+                        tmppath = Path(tmpname)
+                        os.write(fd, value)
+                        os.close(fd)
+                        tmppath.rename(path)
                 assert not tmppath.exists()
         except OSError:  # pragma: no cover
             pass
-- 
2.43.0


From 0057e8e3105067ae421abed206fe17eca78ee9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 05/83] fix: save each distinct failure found by fuzz_one_input

---
 hypothesis-python/src/hypothesis/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 0498522..8be114d 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1890,15 +1890,16 @@ def given(
                     state.execute_once(data)
                 except (StopTest, UnsatisfiedAssumption):
                     return None
-                except BaseException:
-                    known = minimal_failures.get(data.interesting_origin)
+                except BaseException as err:
+                    origin = InterestingOrigin.from_exception(err)
+                    known = minimal_failures.get(origin)
                     if settings.database is not None and (
                         known is None or sort_key(data.nodes) <= sort_key(known)
                     ):
                         settings.database.save(
                             database_key, choices_to_bytes(data.choices)
                         )
-                        minimal_failures[data.interesting_origin] = data.nodes
+                        minimal_failures[origin] = data.nodes
                     raise
                 assert isinstance(data.provider, BytestringProvider)
                 return bytes(data.provider.drawn)
-- 
2.43.0


From aec1e1b1313e90779dcffaec45a0df9d7767c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 06/83] fix: name every target of a rule in the printed
 stateful program

---
 hypothesis-python/src/hypothesis/stateful.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 2ade095..5e5a49d 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -391,14 +391,15 @@ class RuleBasedStateMachine(metaclass=StateMachineMeta):
         output_assignment = ""
         if rule.targets:
             if isinstance(result, MultipleResults):
+                names = self._last_names(len(rule.targets) * len(result.values))
                 if len(result.values) == 1:
-                    output_assignment = f"({self._last_names(1)[0]},) = "
+                    for name in names:
+                        output_assignment += f"({name},) = "
                 elif result.values:
-                    number_of_last_names = len(rule.targets) * len(result.values)
-                    output_names = self._last_names(number_of_last_names)
-                    output_assignment = ", ".join(output_names) + " = "
+                    output_assignment = ", ".join(names) + " = "
             else:
-                output_assignment = self._last_names(1)[0] + " = "
+                for name in self._last_names(len(rule.targets)):
+                    output_assignment += f"{name} = "
         args = ", ".join("%s=%s" % kv for kv in data.items())
         return f"{output_assignment}state.{rule.function.__name__}({args})"
 
-- 
2.43.0


From d011cd1a542b01dcae67af6566c3bb0313d7a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 07/83] fix: treat a unique list of too few distinct sampled
 elements as invalid

---
 .../src/hypothesis/strategies/_internal/collections.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index bcdbe7f..98c3aff 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -334,6 +334,8 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
+        if len(result) < self.min_size:
+            data.mark_invalid("Too few distinct elements to satisfy min_size")
         assert self.max_size >= len(result) >= self.min_size
         return result
 
-- 
2.43.0


From 5787adc5422a7cd4947cad7c1f7448b72ba11132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 08/83] fix: keep the average size of nonempty-filtered
 collections within bounds

---
 .../src/hypothesis/strategies/_internal/collections.py        | 1 +
 .../src/hypothesis/strategies/_internal/strings.py            | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 98c3aff..83c6f11 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -219,6 +219,7 @@ class ListStrategy(SearchStrategy[list[Ex]]):
                 return self
             new = copy.copy(self)
             new.min_size = 1
+            new.average_size = min(6, 0.5 * (1 + self.max_size))
             return new
 
         constraints, pred = get_integer_predicate_bounds(condition)
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 4f38627..d543cde 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -287,6 +287,10 @@ def _string_filter_rewrite(self, kind, condition):
     if condition in self._nonempty_and_content_filters and self.max_size >= 1:
         self = copy.copy(self)
         self.min_size = max(1, self.min_size)
+        self.average_size = min(
+            max(self.min_size * 2, self.min_size + 5),
+            0.5 * (self.min_size + self.max_size),
+        )
         return ListStrategy.filter(self, condition)
 
     return None
-- 
2.43.0


From 335a2265eb8e7e4bfe4994a5b9425875b1388cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 09/83] fix: do not print from dates().filter()

---
 .../src/hypothesis/strategies/_internal/datetime.py              | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
index 12f5154..88b84e8 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
@@ -290,7 +290,6 @@ class DateStrategy(SearchStrategy):
             }[condition.func]
             lo = max(lo, self.min_value)
             hi = min(hi, self.max_value)
-            print(lo, hi)
             if hi < lo:
                 return nothing()
             if lo <= self.min_value and self.max_value <= hi:
-- 
2.43.0


From d3213f8cd54c9c25a0ab6da8b46b11a63ba6c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 10/83] fix: share values between shared() strategies with a
 falsey key

---
 hypothesis-python/src/hypothesis/strategies/_internal/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
index 285dbb6..ba25db5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
@@ -34,7 +34,7 @@ class SharedStrategy(SearchStrategy[Ex]):
     # Ideally would be -> Ex, but key collisions with different-typed values are
     # possible. See https://github.com/HypothesisWorks/hypothesis/issues/4301.
     def do_draw(self, data: ConjectureData) -> Any:
-        key = self.key or self
+        key = self if self.key is None else self.key
         if key not in data._shared_strategy_draws:
             data._shared_strategy_draws[key] = data.draw(self.base)
         return data._shared_strategy_draws[key]
-- 
2.43.0


From bbe94ff984b3a95a5ca6c44febde81ddfe83f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 11/83] fix: only reuse results of re-seeded random objects for
 identical arguments

---
 .../src/hypothesis/strategies/_internal/random.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index e28b259..1692db8 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -216,8 +216,10 @@ class ArtificialRandom(HypothesisRandom):
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
             key = (method, len(kwargs["x"]))
+        elif method == "sample":
+            key = (method, len(kwargs["population"]), kwargs["k"])
         else:
-            key = (method, *sorted(kwargs))
+            key = (method, *sorted(kwargs.items()))
 
         try:
             result, self.__state = self.__state.next_states[key]
-- 
2.43.0


From 3e054efcaa4961bc5090a68fa350ae8c33e3d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 12/83] fix: do not over- or under-approximate string filters
 by nonemptiness

---
 .../src/hypothesis/strategies/_internal/strings.py           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index d543cde..fb69edd 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -131,8 +131,6 @@ _nonempty_names = (
     "expandtabs",
     "join",
     "lower",
-    "rsplit",
-    "split",
     "splitlines",
     "swapcase",
     "title",
@@ -143,12 +141,13 @@ _nonempty_and_content_names = (
     "isupper",
     "isalnum",
     "isalpha",
-    "isascii",
     "isdigit",
     "isspace",
     "istitle",
     "lstrip",
+    "rsplit",
     "rstrip",
+    "split",
     "strip",
 )
 
-- 
2.43.0


From d01ff9ddc427fac1b6b295569291095f3a6a513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 13/83] fix: rewrite pattern.match filters to only match at the
 start

---
 .../src/hypothesis/strategies/_internal/strings.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index fb69edd..65f0135 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -247,8 +247,15 @@ def _string_filter_rewrite(self, kind, condition):
 
         if condition.__name__ == "match":
             # Replace with an easier-to-handle equivalent condition
-            caret, close = ("^(?:", ")") if kind is str else (b"^(?:", b")")
-            pattern = re.compile(caret + pattern.pattern + close, flags=pattern.flags)
+            # (inline flags must come first, and a trailing verbose-mode comment would
+            # swallow the closing bracket, so we don't try to handle those here)
+            start, close = (r"\A(?:", ")") if kind is str else (rb"\A(?:", b")")
+            try:
+                pattern = re.compile(
+                    start + pattern.pattern + close, flags=pattern.flags
+                )
+            except re.error:
+                return None
             condition = pattern.search
 
         if condition.__name__ in ("search", "findall", "fullmatch"):
-- 
2.43.0


From b9e4e05d8b6b9698b60c455a1518b1bea7e0f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 14/83] fix: do not pad from_regex() with newlines outside the
 alphabet

---
 .../src/hypothesis/strategies/_internal/regex.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index b51e90e..0973079 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -267,7 +267,10 @@ def regex_strategy(
     if is_unicode:
         base_padding_strategy = st.text(alphabet=alphabet)
         empty = st.just("")
-        newline = st.just("\n")
+        if "\n" in unwrap_strategies(alphabet).intervals:
+            newline = st.just("\n")
+        else:
+            newline = st.nothing()
     else:
         base_padding_strategy = st.binary()
         empty = st.just(b"")
-- 
2.43.0


From 728d0ecf46b563975d0d3fa9dc502fc80346ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 15/83] fix: do not rewrite filters from the source of a
 wrapped predicate

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index f56e9b8..bccf376 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -250,7 +250,10 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     # This section is a little complicated, but stepping through with comments should
     # help to clarify it.  We start by finding the source code for our predicate and
     # parsing it to an abstract syntax tree; if this fails for any reason we bail out
-    # and fall back to standard rejection sampling (a running theme).
+    # and fall back to standard rejection sampling (a running theme).  Note that for
+    # a wrapped function, we'd get the source code of the function it wraps.
+    if hasattr(predicate, "__wrapped__"):
+        return unchanged
     try:
         if predicate.__name__ == "<lambda>":
             source = extract_lambda_source(predicate)
-- 
2.43.0


From 61792bd65673e2035441069316c8744317e38903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 16/83] fix: rewrite numeric filters to exactly the values
 which satisfy them

---
 .../src/hypothesis/internal/filtering.py      | 48 +++++++++++++------
 .../strategies/_internal/numbers.py           |  2 +-
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index bccf376..927cb6e 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -160,13 +160,15 @@ def merge_preds(*con_predicates: ConstructivePredicate) -> ConstructivePredicate
     if has_len == {True}:
         base["len"] = True
 
+    # An explicit infinite bound is a no-op for integers, but excludes nan for floats.
+    specified = {k for kw, _ in con_predicates for k in kw}
     if not base["exclude_min"]:
         del base["exclude_min"]
-        if base["min_value"] == -math.inf:
+        if "min_value" not in specified:
             del base["min_value"]
     if not base["exclude_max"]:
         del base["exclude_max"]
-        if base["max_value"] == math.inf:
+        if "max_value" not in specified:
             del base["max_value"]
     return ConstructivePredicate(base, predicate)
 
@@ -230,7 +232,7 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
         if (
             (isinstance(arg, Decimal) and Decimal.is_snan(arg))
             or not isinstance(arg, (int, float, Fraction, Decimal))
-            or math.isnan(arg)
+            or arg != arg  # math.isnan() could overflow
         ):
             return unchanged
         options = {
@@ -290,7 +292,7 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "min_value" in constraints:
         if constraints["min_value"] == -math.inf:
             del constraints["min_value"]
-        elif math.isinf(constraints["min_value"]):
+        elif constraints["min_value"] == math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["min_value"] != int(constraints["min_value"]):
             constraints["min_value"] = ceil(constraints["min_value"])
@@ -300,7 +302,7 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
             del constraints["max_value"]
-        elif math.isinf(constraints["max_value"]):
+        elif constraints["max_value"] == -math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["max_value"] != int(constraints["max_value"]):
             constraints["max_value"] = floor(constraints["max_value"])
@@ -312,26 +314,42 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     return ConstructivePredicate(constraints, predicate)
 
 
+def _saturating_float(value) -> float:
+    try:
+        return float(value)
+    except OverflowError:
+        return math.inf if value > 0 else -math.inf
+
+
 def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     constraints, predicate = get_numeric_predicate_bounds(predicate)
+    unsatisfiable = ConstructivePredicate(
+        {"min_value": math.inf, "max_value": -math.inf}, None
+    )
 
+    # The nearest float to each bound might be on either side of it; and when moving
+    # past an excluded zero we also have to exclude the zero of the other sign.
     if "min_value" in constraints:
         min_value = constraints["min_value"]
-        constraints["min_value"] = float(constraints["min_value"])
-        if min_value < constraints["min_value"] or (
-            min_value == constraints["min_value"]
-            and constraints.get("exclude_min", False)
+        bound = _saturating_float(min_value)
+        if bound < min_value or (
+            bound == min_value and constraints.get("exclude_min", False)
         ):
-            constraints["min_value"] = next_up(constraints["min_value"])
+            if bound == math.inf:
+                return unsatisfiable
+            bound = next_up(0.0 if bound == 0 else bound)
+        constraints["min_value"] = bound
 
     if "max_value" in constraints:
         max_value = constraints["max_value"]
-        constraints["max_value"] = float(constraints["max_value"])
-        if max_value > constraints["max_value"] or (
-            max_value == constraints["max_value"]
-            and constraints.get("exclude_max", False)
+        bound = _saturating_float(max_value)
+        if bound > max_value or (
+            bound == max_value and constraints.get("exclude_max", False)
         ):
-            constraints["max_value"] = next_down(constraints["max_value"])
+            if bound == -math.inf:
+                return unsatisfiable
+            bound = next_down(-0.0 if bound == 0 else bound)
+        constraints["max_value"] = bound
 
     constraints = {
         k: v for k, v in constraints.items() if k in {"min_value", "max_value"}
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 59bf66e..c80b316 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -231,7 +231,7 @@ class FloatStrategy(SearchStrategy[float]):
         if (
             min_bound > self.min_value
             or self.max_value > max_bound
-            or (self.allow_nan and (-math.inf < min_bound or max_bound < math.inf))
+            or self.allow_nan
         ):
             self = type(self)(
                 min_value=min_bound,
-- 
2.43.0


From 408c4ec3e0997efde8a4ac52148e525d3a8f0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 17/83] fix: do not generate infinite decimals beyond a finite
 bound

---
 hypothesis-python/src/hypothesis/strategies/_internal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 8e35eba..ccc094f 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1743,9 +1743,9 @@ def decimals(
     special: list[Decimal] = []
     if allow_nan or (allow_nan is None and (None in (min_value, max_value))):
         special.extend(map(Decimal, ("NaN", "-NaN", "sNaN", "-sNaN")))
-    if allow_infinity or (allow_infinity is None and max_value is None):
+    if allow_infinity is not False and max_value is None:
         special.append(Decimal("Infinity"))
-    if allow_infinity or (allow_infinity is None and min_value is None):
+    if allow_infinity is not False and min_value is None:
         special.append(Decimal("-Infinity"))
     return strat | (sampled_from(special) if special else nothing())
 
-- 
2.43.0


From 668774e38ffc5aa0bcccacec2c715803a50c731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 18/83] fix: keep constrained complex numbers of every width
 within range

---
 .../hypothesis/strategies/_internal/core.py   | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index ccc094f..e14cea4 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -86,7 +86,7 @@ from hypothesis.internal.conjecture.utils import (
     identity,
 )
 from hypothesis.internal.entropy import get_seeder_and_restorer
-from hypothesis.internal.floats import float_of
+from hypothesis.internal.floats import float_of, next_down
 from hypothesis.internal.reflection import (
     define_function_signature,
     get_pretty_function_description,
@@ -2035,6 +2035,12 @@ def complex_numbers(
             # https://numpy.org/doc/stable/reference/arrays.scalars.html#complex-floating-point-types
         )
     component_width = width // 2
+    max_component = next_down(math.inf, component_width)
+    if max_component < min_magnitude < math.inf:
+        raise InvalidArgument(
+            f"{min_magnitude=} is larger than the largest finite component "
+            f"{max_component} of a complex number with {width=}"
+        )
     allow_kw = {
         "allow_nan": allow_nan,
         "allow_infinity": allow_infinity,
@@ -2051,14 +2057,19 @@ def complex_numbers(
         # imaginary parts.
         return builds(complex, floats(**allow_kw), floats(**allow_kw))  # type: ignore
 
-    @composite
-    def constrained_complex(draw):
+    def downcast(x):
         # We downcast drawn floats to the desired (component) width so we
-        # guarantee the resulting complex values are representable. Note
-        # truncating the mantissa bits with float_of() cannot increase the
-        # magnitude of a float, so we are guaranteed to stay within the allowed
-        # range. See https://github.com/HypothesisWorks/hypothesis/issues/3573
+        # guarantee the resulting complex values are representable. Note that
+        # float_of() rounds to nearest, so we have to truncate towards zero in
+        # order to stay within the allowed range.
+        # See https://github.com/HypothesisWorks/hypothesis/issues/3573
+        if max_component < x < math.inf:
+            return max_component
+        result = float_of(x, component_width)
+        return result if result <= x else next_down(result, component_width)
 
+    @composite
+    def constrained_complex(draw):
         # Draw the imaginary part, and determine the maximum real part given
         # this and the max_magnitude
         if max_magnitude is None:
@@ -2067,17 +2078,17 @@ def complex_numbers(
         else:
             zi = draw(
                 floats(
-                    -float_of(max_magnitude, component_width),
-                    float_of(max_magnitude, component_width),
+                    -downcast(max_magnitude),
+                    downcast(max_magnitude),
                     **allow_kw,
                 )
             )
-            rmax = float_of(cathetus(max_magnitude, zi), component_width)
+            rmax = downcast(cathetus(max_magnitude, zi))
         # Draw the real part from the allowed range given the imaginary part
         if min_magnitude == 0 or math.fabs(zi) >= min_magnitude:
             zr = draw(floats(None if rmax is None else -rmax, rmax, **allow_kw))
         else:
-            rmin = float_of(cathetus(min_magnitude, zi), component_width)
+            rmin = downcast(cathetus(min_magnitude, zi))
             zr = draw(floats(rmin, rmax, **allow_kw))
         # Order of conditions carefully tuned so that for a given pair of
         # magnitude arguments, we always either draw or do not draw the bool
-- 
2.43.0


From 1ebea6e51c02ec9436c12be17a868a2c740c7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 19/83] fix: never round decimals past their bounds

---
 .../src/hypothesis/strategies/_internal/core.py      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index e14cea4..c20a28d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1718,9 +1718,9 @@ def decimals(
         factor = Decimal(10) ** -places
         min_num, max_num = None, None
         if min_value is not None:
-            min_num = ceil(ctx(min_value).divide(min_value, factor))
+            min_num = ceil(Fraction(min_value) * 10**places)
         if max_value is not None:
-            max_num = floor(ctx(max_value).divide(max_value, factor))
+            max_num = floor(Fraction(max_value) * 10**places)
         if min_num is not None and max_num is not None and min_num > max_num:
             raise InvalidArgument(
                 f"There are no decimals with {places} places between "
@@ -1734,9 +1734,15 @@ def decimals(
                 ceil(math.log10(abs(val.numerator) or 1) + math.log10(val.denominator))
                 + 1
             )
-            return Context(prec=precision or 1).divide(
+            result = Context(prec=precision or 1).divide(
                 Decimal(val.numerator), val.denominator
             )
+            # Rounding to this precision must not take us past the bounds
+            if min_value is not None and result < min_value:
+                return min_value
+            if max_value is not None and result > max_value:
+                return max_value
+            return result
 
         strat = fractions(min_value, max_value).map(fraction_to_decimal)
     # Compose with sampled_from for infinities and NaNs as appropriate
-- 
2.43.0


From 429583e31490554faba2f88777bd185cff03ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 20/83] fix: resample to zero when clamped floats would
 otherwise be subnormal

---
 hypothesis-python/src/hypothesis/internal/floats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/floats.py b/hypothesis-python/src/hypothesis/internal/floats.py
index 7083519..7c7a622 100644
--- a/hypothesis-python/src/hypothesis/internal/floats.py
+++ b/hypothesis-python/src/hypothesis/internal/floats.py
@@ -174,12 +174,13 @@ def make_float_clamper(
         # default to smallest_nonzero_magnitude.
         if 0 < abs(f) < smallest_nonzero_magnitude:
             f = smallest_nonzero_magnitude
-            # we must have either -smallest_nonzero_magnitude <= min_value or
-            # smallest_nonzero_magnitude >= max_value, or no values would be
-            # possible. If smallest_nonzero_magnitude is not valid (because it's
-            # larger than max_value), then -smallest_nonzero_magnitude must be valid.
+            # If smallest_nonzero_magnitude is not valid (because it's larger than
+            # max_value), then -smallest_nonzero_magnitude must be valid, unless
+            # only zero is.
             if smallest_nonzero_magnitude > max_value:
                 f *= -1
+                if f < min_value:
+                    f = 0.0
 
         # Re-enforce the bounds (just in case of floating point arithmetic error)
         return clamp(min_value, f, max_value)
-- 
2.43.0


From e0c2245275a5aac57625e2310144612729ee4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 21/83] fix: support case-insensitive negated literals in bytes
 patterns

---
 .../src/hypothesis/strategies/_internal/regex.py         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index 0973079..5381d8d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -428,9 +428,14 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                 # We therefore have to chain .swapcase() calls until a fixpoint.
                 stack = [c.swapcase()]
                 while stack:
-                    for char in stack.pop():
+                    chars = stack.pop()
+                    for char in chars if is_unicode else [chars]:
                         blacklist.add(char)
-                        stack.extend(set(char.swapcase()) - blacklist)
+                        swapped = char.swapcase()
+                        # (iterating over bytes would give us integers)
+                        stack.extend(
+                            set(swapped if is_unicode else [swapped]) - blacklist
+                        )
 
             if is_unicode:
                 return OneCharStringStrategy(
-- 
2.43.0


From 38a0b2bb4e1752de04f74ed49367ff77ff28dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 22/83] fix: respect the alphabet in every part of from_regex()

---
 .../hypothesis/strategies/_internal/regex.py  | 80 ++++++++++---------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index 5381d8d..917f06f 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -109,6 +109,15 @@ def chars_not_in_alphabet(alphabet, string):
     return tuple(c for c in string if c not in intset)
 
 
+def char_strategy(intervals, description):
+    # A strategy for the characters which are allowed by both pattern and alphabet
+    if not intervals:
+        raise IncompatibleWithAlphabet(
+            f"{description} does not match any character in the specified alphabet"
+        )
+    return OneCharStringStrategy(intervals)
+
+
 class Context:
     __slots__ = ["flags"]
 
@@ -145,6 +154,9 @@ class CharactersBuilder:
         # Start by getting the set of all characters allowed by the pattern
         white_chars = self._whitelist_chars - self._blacklist_chars
         multi_chars = {c for c in white_chars if len(c) > 1}
+        allowed_multi_chars = {
+            c for c in multi_chars if not chars_not_in_alphabet(self._alphabet, c)
+        }
         intervals = charmap.query(
             categories=self._categories,
             exclude_characters=self._blacklist_chars,
@@ -153,11 +165,13 @@ class CharactersBuilder:
         # Then take the complement if this is from a negated character class
         if self._negate:
             intervals = charmap.query() - intervals
-            multi_chars.clear()
+            allowed_multi_chars.clear()
         # and finally return the intersection with our alphabet
-        return OneCharStringStrategy(intervals & self._alphabet.intervals) | (
-            st.sampled_from(sorted(multi_chars)) if multi_chars else st.nothing()
-        )
+        intervals &= self._alphabet.intervals
+        if not allowed_multi_chars:
+            return char_strategy(intervals, "Character class")
+        multi = st.sampled_from(sorted(allowed_multi_chars))
+        return OneCharStringStrategy(intervals) | multi if intervals else multi
 
     def add_category(self, category):
         """Update unicode state to match sre_parse object ``category``."""
@@ -392,20 +406,21 @@ def _strategy(codes, context, is_unicode, *, alphabet):
         if code == sre.LITERAL:
             # Regex 'a' (single char)
             c = to_char(value)
-            if chars_not_in_alphabet(alphabet, c):
-                raise IncompatibleWithAlphabet(
-                    f"Literal {c!r} is not in the specified alphabet"
-                )
+            options = [c]
             if (
                 context.flags & re.IGNORECASE
                 and c != c.swapcase()
                 and re.match(re.escape(c), c.swapcase(), re.IGNORECASE) is not None
-                and not chars_not_in_alphabet(alphabet, c.swapcase())
             ):
                 # We do the explicit check for swapped-case matching because
                 # eg 'ß'.upper() == 'SS' and ignorecase doesn't match it.
-                return st.sampled_from([c, c.swapcase()])
-            return st.just(c)
+                options.append(c.swapcase())
+            options = [o for o in options if not chars_not_in_alphabet(alphabet, o)]
+            if not options:
+                raise IncompatibleWithAlphabet(
+                    f"Literal {c!r} is not in the specified alphabet"
+                )
+            return st.sampled_from(options) if len(options) > 1 else st.just(options[0])
 
         elif code == sre.NOT_LITERAL:
             # Regex '[^a]' (negation of a single char)
@@ -438,9 +453,10 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                         )
 
             if is_unicode:
-                return OneCharStringStrategy(
+                return char_strategy(
                     unwrap_strategies(alphabet).intervals
-                    & charmap.query(exclude_characters=blacklist)
+                    & charmap.query(exclude_characters=blacklist),
+                    f"Negated literal {c!r}",
                 )
             else:
                 return binary_char.filter(lambda c: c not in blacklist)
@@ -462,28 +478,13 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                     pass
                 elif charset_code == sre.LITERAL:
                     # Regex '[a]' (single char)
-                    c = builder.code_to_char(charset_value)
-                    if chars_not_in_alphabet(builder._alphabet, c):
-                        raise IncompatibleWithAlphabet(
-                            f"Literal {c!r} is not in the specified alphabet"
-                        )
-                    builder.add_char(c)
+                    # We intersect with the alphabet in builder.strategy
+                    builder.add_char(builder.code_to_char(charset_value))
                 elif charset_code == sre.RANGE:
                     # Regex '[a-z]' (char range)
                     low, high = charset_value
-                    chars = empty.join(map(builder.code_to_char, range(low, high + 1)))
-                    if len(chars) == len(
-                        invalid := set(chars_not_in_alphabet(alphabet, chars))
-                    ):
-                        raise IncompatibleWithAlphabet(
-                            f"Charset '[{chr(low)}-{chr(high)}]' contains characters {invalid!r} "
-                            f"which are not in the specified alphabet"
-                        )
-                    for c in chars:
-                        if isinstance(c, int):
-                            c = int_to_byte(c)
-                        if c not in invalid:
-                            builder.add_char(c)
+                    for code_point in range(low, high + 1):
+                        builder.add_char(builder.code_to_char(code_point))
                 elif charset_code == sre.CATEGORY:
                     # Regex '[\w]' (char category)
                     builder.add_category(charset_value)
@@ -499,9 +500,10 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                 assert alphabet is not None
                 if context.flags & re.DOTALL:
                     return alphabet
-                return OneCharStringStrategy(
+                return char_strategy(
                     unwrap_strategies(alphabet).intervals
-                    & charmap.query(exclude_characters="\n")
+                    & charmap.query(exclude_characters="\n"),
+                    "Any-character wildcard",
                 )
             else:
                 if context.flags & re.DOTALL:
@@ -559,9 +561,15 @@ def _strategy(codes, context, is_unicode, *, alphabet):
             at_least, at_most, subregex = value
             if at_most == sre.MAXREPEAT:
                 at_most = None
+            try:
+                repeated = recurse(subregex)
+            except IncompatibleWithAlphabet:
+                if at_least == 0:
+                    return st.just(empty)
+                raise
             if at_least == 0 and at_most == 1:
-                return st.just(empty) | recurse(subregex)
-            return st.lists(recurse(subregex), min_size=at_least, max_size=at_most).map(
+                return st.just(empty) | repeated
+            return st.lists(repeated, min_size=at_least, max_size=at_most).map(
                 empty.join
             )
 
-- 
2.43.0


From eee65427e35a4efe2f94ef1590fb157baab984c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 23/83] fix: no characters lie between a minimum above the
 maximum codepoint

---
 hypothesis-python/src/hypothesis/internal/charmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/charmap.py b/hypothesis-python/src/hypothesis/internal/charmap.py
index bf6bb59..71719c8 100644
--- a/hypothesis-python/src/hypothesis/internal/charmap.py
+++ b/hypothesis-python/src/hypothesis/internal/charmap.py
@@ -332,8 +332,10 @@ def query(
     base = _query_for_key(catkey)
     result = []
     for u, v in base:
-        if v >= min_codepoint and u <= max_codepoint:
-            result.append((max(u, min_codepoint), min(v, max_codepoint)))
+        # min_codepoint may be larger than max_codepoint, if that was limited by a codec
+        lo, hi = max(u, min_codepoint), min(v, max_codepoint)
+        if lo <= hi:
+            result.append((lo, hi))
     result = (IntervalSet(result) | character_intervals) - exclude_intervals
     if context is None or not context.data.provider.avoid_realization:
         limited_category_index_cache[qkey] = result
-- 
2.43.0


From e95302587a4ead1ab4c847c2898aa059b583d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 24/83] fix: generate time zone keys which only the tzdata
 package has at its top level

---
 .../src/hypothesis/strategies/_internal/datetime.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
index 88b84e8..d2623ea 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
@@ -370,7 +370,7 @@ def _valid_key_cacheable(tzpath, key):
         # but not present on the filesystem, i.e. on Windows with tzdata,
         # and so is never executed by our coverage tests.
         *package_loc, resource_name = key.split("/")
-        package = "tzdata.zoneinfo." + ".".join(package_loc)
+        package = ".".join(("tzdata", "zoneinfo", *package_loc))
         try:
             return (resources.files(package) / resource_name).exists()
         except ModuleNotFoundError:
-- 
2.43.0


From 95e0a7a4ca7395c7b0e962098d78b6431ec957da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 25/83] fix: distinguish type variables of the same name

---
 hypothesis-python/src/hypothesis/strategies/_internal/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/types.py b/hypothesis-python/src/hypothesis/strategies/_internal/types.py
index 5e39696..0054968 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/types.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/types.py
@@ -1061,7 +1061,8 @@ def resolve_Callable(thing):
 @register(typing.TypeVar)
 @register("TypeVar", module=typing_extensions)
 def resolve_TypeVar(thing):
-    type_var_key = f"typevar={thing!r}"
+    # Distinct type variables may well have the same name, and hence repr.
+    type_var_key = ("typevar", thing)
 
     bound = getattr(thing, "__bound__", None)
     default = getattr(thing, "__default__", NoDefaults[0])
-- 
2.43.0


From 64711f79601c2649daaa898bdb02c8b2a8a9354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 26/83] fix: resolve Counter of types with unhashable instances

---
 hypothesis-python/src/hypothesis/strategies/_internal/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/types.py b/hypothesis-python/src/hypothesis/strategies/_internal/types.py
index 0054968..994fb97 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/types.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/types.py
@@ -952,7 +952,7 @@ def resolve_Iterator(thing):
 @register(typing.Counter, st.builds(collections.Counter))
 def resolve_Counter(thing):
     return st.dictionaries(
-        keys=st.from_type(thing.__args__[0]),
+        keys=_from_hashable_type(thing.__args__[0]),
         values=st.integers(),
     ).map(collections.Counter)
 
-- 
2.43.0


From 8befc4e34f68cbb47c3b82a3eb5295592664df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:02 +0000
Subject: [PATCH 27/83] fix: accept None as an argument of builtin generics

---
 hypothesis-python/src/hypothesis/strategies/_internal/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index c20a28d..cd28674 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1339,6 +1339,10 @@ def _from_type(thing: type[Ex]) -> SearchStrategy[Ex]:
             f"Could not resolve {thing!r} to a strategy, "
             f"because there is no such thing as a runtime instance of {thing!r}"
         )
+    if type(thing) is GenericAlias and any(a is None for a in thing.__args__):
+        # Unlike those from `typing`, builtin generics don't convert None to its type
+        args = tuple(type(None) if a is None else a for a in thing.__args__)
+        thing = GenericAlias(get_origin(thing), args)
     # Now that we know `thing` is a type, the first step is to check for an
     # explicitly registered strategy. This is the best (and hopefully most
     # common) way to resolve a type to a strategy.  Note that the value in the
-- 
2.43.0


From e0c4563ad29e68a7da1f5baaf8cd84858bc756c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:09 +0000
Subject: [PATCH 28/83] fix: assign DataFrame columns by position, not index
 label

---
 hypothesis-python/src/hypothesis/extra/pandas/impl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/extra/pandas/impl.py b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
index 9cbf580..39d466d 100644
--- a/hypothesis-python/src/hypothesis/extra/pandas/impl.py
+++ b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
@@ -638,7 +638,7 @@ def data_frames(
                         else:
                             value = draw(c.elements)
                         try:
-                            data[c.name][i] = value
+                            data[c.name].iloc[i] = value
                         except ValueError as err:  # pragma: no cover
                             # This just works in Pandas 1.4 and later, but gives
                             # a confusing error on previous versions.
@@ -679,7 +679,9 @@ def data_frames(
                     (
                         c.name,
                         pandas.Series(
-                            np.zeros(dtype=c.dtype, shape=len(index)), dtype=c.dtype
+                            np.zeros(dtype=c.dtype, shape=len(index)),
+                            index=index,
+                            dtype=c.dtype,
                         ),
                     )
                     for c in rewritten_columns
-- 
2.43.0


From b613de4e56b47748d1ab9bfcf2e3ceac643c20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 29/83] fix: keep tuples and lists intact as elements of pandas
 objects

---
 hypothesis-python/src/hypothesis/extra/pandas/impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/extra/pandas/impl.py b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
index 39d466d..63ce0c4 100644
--- a/hypothesis-python/src/hypothesis/extra/pandas/impl.py
+++ b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
@@ -127,7 +127,11 @@ def elements_and_dtype(elements, dtype, source=None):
                 return None
             name = f"draw({prefix}elements)"
             try:
-                return np.array([value], dtype=dtype)[0]
+                # Assign to an element, because np.array() would unpack sequences
+                # when the dtype is object.
+                result = np.zeros(1, dtype=dtype)
+                result[0] = value
+                return result[0]
             except (TypeError, ValueError, OverflowError):
                 raise InvalidArgument(
                     "Cannot convert %s=%r of type %s to dtype %s"
-- 
2.43.0


From dc2d2ad248a4f6eb04f867d012268c4e106e754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 30/83] fix: assign values of generated rows to DataFrames one
 by one

---
 hypothesis-python/src/hypothesis/extra/pandas/impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/extra/pandas/impl.py b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
index 63ce0c4..0dbd109 100644
--- a/hypothesis-python/src/hypothesis/extra/pandas/impl.py
+++ b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
@@ -755,7 +755,8 @@ def data_frames(
                                 f"complete row {original_row!r}"
                             )
                         row.append(draw(c.fill))
-                    result.iloc[row_index] = row
+                    for column_index, value in enumerate(row):
+                        result.iat[row_index, column_index] = value
                     break
                 else:
                     reject()
-- 
2.43.0


From 571a4cce47418eb3279cbac24c12ab0c876d9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 31/83] fix: detect rounded floats in arrays with NumPy 2

---
 hypothesis-python/src/hypothesis/extra/numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/extra/numpy.py b/hypothesis-python/src/hypothesis/extra/numpy.py
index 1ab322a..6f0573c 100644
--- a/hypothesis-python/src/hypothesis/extra/numpy.py
+++ b/hypothesis-python/src/hypothesis/extra/numpy.py
@@ -242,8 +242,11 @@ class ArrayStrategy(st.SearchStrategy):
                 f"Could not add element={val!r} of {val.dtype!r} to array of "
                 f"{result.dtype!r} - possible mismatch of time units in dtypes?"
             ) from err
+        # From NumPy 2, comparing a Python float to an array element would first
+        # round the float to the dtype of that element, hiding the difference.
+        exact = np.asarray(val) if isinstance(val, (float, complex)) else val
         try:
-            elem_changed = self._check_elements and val != result[idx] and val == val
+            elem_changed = self._check_elements and exact != result[idx] and val == val
         except Exception as err:  # pragma: no cover
             # This branch only exists to help debug weird behaviour in Numpy,
             # such as the string problems we had a while back.
-- 
2.43.0


From a6344ef2ac51d247d9c95ddf402b4a5f7d0df17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 32/83] fix: convert integral bounds to integers when rewriting
 filters

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 927cb6e..1afd6b9 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -298,6 +298,8 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             constraints["min_value"] = ceil(constraints["min_value"])
         elif constraints.get("exclude_min", False):
             constraints["min_value"] = int(constraints["min_value"]) + 1
+        else:  # might be an integer-valued float, Fraction, or Decimal
+            constraints["min_value"] = int(constraints["min_value"])
 
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
@@ -308,6 +310,8 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             constraints["max_value"] = floor(constraints["max_value"])
         elif constraints.get("exclude_max", False):
             constraints["max_value"] = int(constraints["max_value"]) - 1
+        else:
+            constraints["max_value"] = int(constraints["max_value"])
 
     kw_categories = {"min_value", "max_value", "len"}
     constraints = {k: v for k, v in constraints.items() if k in kw_categories}
-- 
2.43.0


From 5000ea46cdbe23fcb5554add2535332dbc903607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:38 +0000
Subject: [PATCH 33/83] fix: do not rewrite filters using a redefined len

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 1afd6b9..1fe3a52 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -199,8 +199,8 @@ def numeric_bounds_from_ast(
         for comp in comparisons:
             try:
                 constraints = comp_to_constraints(*comp, argname=argname)
-                # Because `len` could be redefined in the enclosing scope, we *always*
-                # have to apply the condition as a filter, in addition to rewriting.
+                # Because `len` could be redefined later on, we *always* have to apply
+                # the condition as a filter, in addition to rewriting.
                 pred = fallback.predicate if "len" in constraints else None
                 bounds.append(ConstructivePredicate(constraints, pred))
             except ValueError:
@@ -257,6 +257,12 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if hasattr(predicate, "__wrapped__"):
         return unchanged
     try:
+        # If `len` was redefined, it might not tell us anything about the length.
+        if (
+            "len" in predicate.__code__.co_freevars
+            or predicate.__globals__.get("len", len) is not len
+        ):
+            return unchanged
         if predicate.__name__ == "<lambda>":
             source = extract_lambda_source(predicate)
         else:
-- 
2.43.0


From 3b7087d5f0fb30170df88c98b1bf4417ca32cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:38 +0000
Subject: [PATCH 34/83] fix: fall back to filtering if a pattern needs
 characters outside the alphabet

---
 .../strategies/_internal/strings.py           | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 65f0135..891e0c7 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -243,7 +243,10 @@ def _string_filter_rewrite(self, kind, condition):
         and isinstance(pattern := getattr(condition, "__self__", None), re.Pattern)
         and isinstance(pattern.pattern, kind)
     ):
-        from hypothesis.strategies._internal.regex import regex_strategy
+        from hypothesis.strategies._internal.regex import (
+            IncompatibleWithAlphabet,
+            regex_strategy,
+        )
 
         if condition.__name__ == "match":
             # Replace with an easier-to-handle equivalent condition
@@ -259,11 +262,15 @@ def _string_filter_rewrite(self, kind, condition):
             condition = pattern.search
 
         if condition.__name__ in ("search", "findall", "fullmatch"):
-            s = regex_strategy(
-                pattern,
-                fullmatch=condition.__name__ == "fullmatch",
-                alphabet=self.element_strategy if kind is str else None,
-            )
+            try:
+                s = regex_strategy(
+                    pattern,
+                    fullmatch=condition.__name__ == "fullmatch",
+                    alphabet=self.element_strategy if kind is str else None,
+                )
+            except IncompatibleWithAlphabet:
+                # Part of the pattern can never match, but that might be optional.
+                return None
             if self.min_size > 0:
                 s = s.filter(partial(min_len, self.min_size))
             if self.max_size < 1e999:
-- 
2.43.0


From 8413c92590665077acdf3e0b61865a349da421a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:38 +0000
Subject: [PATCH 35/83] fix: floats that are all infinite are never finite

---
 .../src/hypothesis/strategies/_internal/numbers.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index c80b316..5973fba 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -191,9 +191,13 @@ class FloatStrategy(SearchStrategy[float]):
     def filter(self, condition):
         # Handle a few specific weird cases.
         if condition is math.isfinite:
+            min_value = max(self.min_value, next_up(float("-inf")))
+            max_value = min(self.max_value, next_down(float("inf")))
+            if min_value > max_value:
+                return nothing()
             return FloatStrategy(
-                min_value=max(self.min_value, next_up(float("-inf"))),
-                max_value=min(self.max_value, next_down(float("inf"))),
+                min_value=min_value,
+                max_value=max_value,
                 allow_nan=False,
                 smallest_nonzero_magnitude=self.smallest_nonzero_magnitude,
             )
-- 
2.43.0


From 46a2544f1d7fdbaced2bae9b83282322feba70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 36/83] fix: nonempty filters on lists already filtered to be
 empty

---
 .../src/hypothesis/strategies/_internal/collections.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 83c6f11..e9898cb 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -214,9 +214,11 @@ class ListStrategy(SearchStrategy[list[Ex]]):
 
     def filter(self, condition: Callable[[list[Ex]], Any]) -> SearchStrategy[list[Ex]]:
         if condition in self._nonempty_filters or is_identity_function(condition):
-            assert self.max_size >= 1, "Always-empty is special cased in st.lists()"
             if self.min_size >= 1:
                 return self
+            # st.lists() special-cases max_size=0, but filters can also get us here.
+            if self.max_size < 1:
+                return SearchStrategy.filter(self, condition)
             new = copy.copy(self)
             new.min_size = 1
             new.average_size = min(6, 0.5 * (1 + self.max_size))
-- 
2.43.0


From f866d22c4ef5bbcd6a9e5c28bc872e0afee780ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 37/83] fix: keep the sign of nan when choosing a float by
 index

---
 .../src/hypothesis/internal/conjecture/choice.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index be41db7..5090b69 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -510,8 +510,10 @@ def choice_from_index(
         return "".join(value_s)
     elif choice_type == "float":
         constraints = cast(FloatConstraints, constraints)
-        sign = -1 if index >> 64 else 1
-        result = sign * lex_to_float(index & ((1 << 64) - 1))
+        result = lex_to_float(index & ((1 << 64) - 1))
+        if index >> 64:
+            # negate rather than multiply by -1, which loses the sign of nans
+            result = -result
 
         clamper = make_float_clamper(
             min_value=constraints["min_value"],
-- 
2.43.0


From 8fa09c356752f9170a0ead26d1a28a56611667f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 38/83] fix: exclude subnormal bounds of
 floats(allow_subnormal=False)

---
 .../src/hypothesis/strategies/_internal/core.py   |  9 ++++++++-
 .../hypothesis/strategies/_internal/numbers.py    | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index cd28674..909888c 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -53,6 +53,7 @@ from hypothesis.control import (
     current_build_context,
     deprecate_random_in_strategy,
     note,
+    reject,
     should_note,
 )
 from hypothesis.errors import (
@@ -86,7 +87,7 @@ from hypothesis.internal.conjecture.utils import (
     identity,
 )
 from hypothesis.internal.entropy import get_seeder_and_restorer
-from hypothesis.internal.floats import float_of, next_down
+from hypothesis.internal.floats import float_of, next_down, width_smallest_normals
 from hypothesis.internal.reflection import (
     define_function_signature,
     get_pretty_function_description,
@@ -2099,6 +2100,12 @@ def complex_numbers(
             zr = draw(floats(None if rmax is None else -rmax, rmax, **allow_kw))
         else:
             rmin = downcast(cathetus(min_magnitude, zi))
+            if (
+                allow_subnormal is False
+                and rmax is not None
+                and 0 < rmin <= rmax < width_smallest_normals[component_width]
+            ):
+                reject()
             zr = draw(floats(rmin, rmax, **allow_kw))
         # Order of conditions carefully tuned so that for a given pair of
         # magnitude arguments, we always either draw or do not draw the bool
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 5973fba..36f0541 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -496,6 +496,21 @@ def floats(
     smallest_nonzero_magnitude = (
         SMALLEST_SUBNORMAL if allow_subnormal else smallest_normal
     )
+    if not allow_subnormal:
+        # The bounds may be subnormal themselves, in which case we exclude them too
+        if -smallest_normal < min_value < 0:
+            min_value = -0.0
+        elif 0 < min_value < smallest_normal:
+            min_value = smallest_normal
+        if -smallest_normal < max_value < 0:
+            max_value = -smallest_normal
+        elif 0 < max_value < smallest_normal:
+            max_value = 0.0
+        if min_value > max_value:
+            raise InvalidArgument(
+                f"allow_subnormal=False excludes every {width}-bit floating-point "
+                f"value between min_value={min_arg!r} and max_value={max_arg!r}"
+            )
     result: SearchStrategy = FloatStrategy(
         min_value=min_value,
         max_value=max_value,
-- 
2.43.0


From 067081f2f85132375de168183220a442888fa2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 39/83] fix: register each random object by identity

---
 hypothesis-python/src/hypothesis/internal/entropy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/entropy.py b/hypothesis-python/src/hypothesis/internal/entropy.py
index d7ce146..279dc7c 100644
--- a/hypothesis-python/src/hypothesis/internal/entropy.py
+++ b/hypothesis-python/src/hypothesis/internal/entropy.py
@@ -115,8 +115,9 @@ def register_random(r: RandomLike) -> None:
     if not (hasattr(r, "seed") and hasattr(r, "getstate") and hasattr(r, "setstate")):
         raise InvalidArgument(f"{r=} does not have all the required methods")
 
-    if r in RANDOMS_TO_MANAGE.values():
-        return
+    for managed in RANDOMS_TO_MANAGE.values():
+        if r is managed:
+            return
 
     if not (PYPY or GRAALPY):  # pragma: no branch
         # PYPY and GRAALPY do not have `sys.getrefcount`.
-- 
2.43.0


From a1ea79626b119634222fd1ac69b622a9741490d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 40/83] fix: report a failure that changes on its final replay
 as flaky

---
 hypothesis-python/src/hypothesis/core.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 8be114d..f0ce481 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1384,11 +1384,22 @@ class StateForActualGivenExecution:
             except BaseException as e:
                 # If we have anything for explain-mode, this is the time to report.
                 fragments.extend(explanations[falsifying_example.interesting_origin])
-                errors_to_report.append(
-                    (fragments, e.with_traceback(get_trimmed_traceback()))
-                )
+                err = e.with_traceback(get_trimmed_traceback())
                 tb = format_exception(e, get_trimmed_traceback(e))
                 origin = InterestingOrigin.from_exception(e)
+                if (
+                    isinstance(
+                        e, (*failure_exceptions_to_catch(), *skip_exceptions_to_reraise())
+                    )
+                    and not isinstance(e, HypothesisException)
+                    and origin != falsifying_example.interesting_origin
+                ):
+                    err = FlakyFailure(
+                        "Inconsistent results: An example failed on the first run "
+                        "but failed with another error on a subsequent run.",
+                        [falsifying_example.expected_exception, e],
+                    )
+                errors_to_report.append((fragments, err))
             else:
                 # execute_once() will always raise either the expected error, or Flaky.
                 raise NotImplementedError("This should be unreachable")
-- 
2.43.0


From bff5364d41d3d67fe6e7edc2136e3d2236a26371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 41/83] fix: let interrupts in explicit examples propagate

---
 hypothesis-python/src/hypothesis/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index f0ce481..ef9eae1 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1780,10 +1780,13 @@ def given(
                 # stopped running explicit examples at the first failure.
                 assert len(errors) == 1 or state.settings.report_multiple_bugs
 
-                # If an explicit example raised a 'skip' exception, ensure it's never
+                # If an explicit example raised a 'skip' exception, or something which
+                # isn't a test failure (such as KeyboardInterrupt), ensure it's never
                 # wrapped up in an exception group.  Because we break out of the loop
-                # immediately on finding a skip, if present it's always the last error.
-                if isinstance(errors[-1][1], skip_exceptions_to_reraise()):
+                # immediately on finding one, if present it's always the last error.
+                if isinstance(
+                    errors[-1][1], skip_exceptions_to_reraise()
+                ) or not isinstance(errors[-1][1], failure_exceptions_to_catch()):
                     # Covered by `test_issue_3453_regression`, just in a subprocess.
                     del errors[:-1]  # pragma: no cover
 
-- 
2.43.0


From fb4b2ab96f1655d384dea7b087d265736a8f4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 42/83] fix: do not remove the source directory when moving a
 database entry

---
 hypothesis-python/src/hypothesis/database.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 42e1454..6796132 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -412,13 +412,17 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
 
         src_path = self._value_path(src, value)
         dest_path = self._value_path(dest, value)
-        # if the dest key path does not exist, os.renames will create it for us,
-        # and we will never track its creation in the meta keys entry. Do so now.
+        # if the dest key path does not exist, we create it below, and would never
+        # track its creation in the meta keys entry. Do so now.
         if not self._key_path(dest).exists():
             self.save(self._metakeys_name, dest)
 
         try:
-            os.renames(src_path, dest_path)
+            dest_path.parent.mkdir(exist_ok=True, parents=True)
+            # We deliberately don't use os.renames here: it would remove the source
+            # directory if that is now empty, just as someone else might be saving
+            # to or fetching from it.
+            src_path.rename(dest_path)
         except OSError:
             self.delete(src, value)
             self.save(dest, value)
-- 
2.43.0


From 028dbc2fc65ad7e8c0d13664c0abad159e0eec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 43/83] fix: allow changes to an in-memory database while
 fetching from it

---
 hypothesis-python/src/hypothesis/database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 6796132..d7a95e2 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -279,7 +279,9 @@ class InMemoryExampleDatabase(ExampleDatabase):
         return f"InMemoryExampleDatabase({self.data!r})"
 
     def fetch(self, key: bytes) -> Iterable[bytes]:
-        yield from self.data.get(key, ())
+        # take a copy, so that the caller or another thread may change the
+        # database while we're iterating.
+        yield from tuple(self.data.get(key, ()))
 
     def save(self, key: bytes, value: bytes) -> None:
         value = bytes(value)
-- 
2.43.0


From 4c497866668fd6c96ea3fa22941a4c4e7e314616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 44/83] fix: remove undecodable entries from the secondary
 corpus as well

---
 hypothesis-python/src/hypothesis/internal/conjecture/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 2d9c760..2c4de39 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -866,6 +866,7 @@ class ConjectureRunner:
                 if choices is None:
                     # clear out any keys which fail deserialization
                     self.settings.database.delete(self.database_key, existing)
+                    self.settings.database.delete(self.secondary_key, existing)
                     continue
                 data = self.cached_test_function(choices, extend="full")
                 if data.status != Status.INTERESTING:
-- 
2.43.0


From e6ac82c9fed38fcd4496f706b01569fcfa0ea0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 45/83] fix: let interrupts end the final replay of failing
 examples

---
 hypothesis-python/src/hypothesis/core.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index ef9eae1..da6d3e9 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1344,6 +1344,7 @@ class StateForActualGivenExecution:
             ran_example.slice_comments = falsifying_example.slice_comments
             tb = None
             origin = None
+            interrupted = False
             assert falsifying_example.expected_exception is not None
             assert falsifying_example.expected_traceback is not None
             try:
@@ -1382,16 +1383,19 @@ class StateForActualGivenExecution:
                 )
                 errors_to_report.append((fragments, err))
             except BaseException as e:
+                if not isinstance(
+                    e, (*failure_exceptions_to_catch(), *skip_exceptions_to_reraise())
+                ):
+                    # We've been interrupted, which isn't a failure to report.
+                    interrupted = True
+                    raise
                 # If we have anything for explain-mode, this is the time to report.
                 fragments.extend(explanations[falsifying_example.interesting_origin])
                 err = e.with_traceback(get_trimmed_traceback())
                 tb = format_exception(e, get_trimmed_traceback(e))
                 origin = InterestingOrigin.from_exception(e)
                 if (
-                    isinstance(
-                        e, (*failure_exceptions_to_catch(), *skip_exceptions_to_reraise())
-                    )
-                    and not isinstance(e, HypothesisException)
+                    not isinstance(e, HypothesisException)
                     and origin != falsifying_example.interesting_origin
                 ):
                     err = FlakyFailure(
@@ -1441,7 +1445,8 @@ class StateForActualGivenExecution:
                 # Mostly useful for ``find`` and ensuring that objects that
                 # hold on to a reference to ``data`` know that it's now been
                 # finished and they can't draw more data from it.
-                ran_example.freeze()  # pragma: no branch
+                if not interrupted:  # pragma: no branch
+                    ran_example.freeze()  # pragma: no branch
                 # No branch is possible here because we never have an active exception.
         _raise_to_user(
             errors_to_report,
-- 
2.43.0


From e63000e2483858ccd45d172fea336caaea58a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 46/83] fix: let bundles created with consume=True consume
 their values

---
 hypothesis-python/src/hypothesis/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 5e5a49d..d577ca6 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -483,8 +483,7 @@ class Rule:
             assert not isinstance(v, BundleReferenceStrategy)
             if isinstance(v, Bundle):
                 bundles.append(v)
-                consume = isinstance(v, BundleConsumer)
-                v = BundleReferenceStrategy(v.name, consume=consume)
+                v = BundleReferenceStrategy(v.name, consume=v.consume)
             self.arguments_strategies[k] = v
         self.bundles = tuple(bundles)
 
@@ -543,6 +542,7 @@ class Bundle(SearchStrategy[Ex]):
         self, name: str, *, consume: bool = False, draw_references: bool = True
     ) -> None:
         self.name = name
+        self.consume = consume
         self.__reference_strategy = BundleReferenceStrategy(name, consume=consume)
         self.draw_references = draw_references
 
-- 
2.43.0


From be4dd2e7a36a3cd368f0a923c7b1b929e338c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 47/83] fix: allow flatmap on consumes(bundle)

---
 hypothesis-python/src/hypothesis/stateful.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index d577ca6..e2cd3a9 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -570,7 +570,7 @@ class Bundle(SearchStrategy[Ex]):
 
     def flatmap(self, expand):
         if self.draw_references:
-            return type(self)(
+            return Bundle(
                 self.name,
                 consume=self.__reference_strategy.consume,
                 draw_references=False,
-- 
2.43.0


From a3c77798fe841d0892086a6a6239cba7895806c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 48/83] fix: make IntList and LazySequenceCopy agree with lists
 in all cases

---
 .../internal/conjecture/junkdrawer.py         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 800c2f2..d70ca2e 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -120,7 +120,13 @@ class IntList(Sequence[int]):
         del self.__underlying[i]
 
     def insert(self, i: int, v: int) -> None:
-        self.__underlying.insert(i, v)
+        while True:
+            try:
+                self.__underlying.insert(i, v)
+                return
+            except OverflowError:
+                assert v > 0
+                self.__upgrade()
 
     def __iter__(self) -> Iterator[int]:
         return iter(self.__underlying)
@@ -130,6 +136,9 @@ class IntList(Sequence[int]):
             return True
         if not isinstance(other, IntList):
             return NotImplemented
+        if type(self.__underlying) is not type(other.__underlying):
+            # an array never compares equal to a list
+            return list(self.__underlying) == list(other.__underlying)
         return self.__underlying == other.__underlying
 
     def __ne__(self, other: object) -> bool:
@@ -137,7 +146,7 @@ class IntList(Sequence[int]):
             return False
         if not isinstance(other, IntList):
             return NotImplemented
-        return self.__underlying != other.__underlying
+        return not self == other
 
     def append(self, n: int) -> None:
         i = len(self)
@@ -204,10 +213,9 @@ class LazySequenceCopy(Generic[T]):
             raise IndexError("Cannot pop from empty list")
         i = self.__underlying_index(i)
 
-        v = None
-        if self.__mask is not None:
-            v = self.__mask.pop(i, None)
-        if v is None:
+        if self.__mask is not None and i in self.__mask:
+            v = self.__mask.pop(i)
+        else:
             v = self.__values[i]
 
         if self.__popped_indices is None:
-- 
2.43.0


From ee817f8e9d34856d899895f94dfd343bc9d7939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 49/83] fix: store large deadlines exactly, and reject nan as a
 deadline

---
 hypothesis-python/src/hypothesis/_settings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index f341ecb..0378307 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -336,6 +336,8 @@ def _validate_deadline(
             raise invalid_deadline_error
         try:
             x = duration(milliseconds=x)
+        except ValueError:
+            raise invalid_deadline_error from None  # nan
         except OverflowError:
             raise InvalidArgument(
                 f"deadline={x!r} is invalid, because it is too large to represent "
@@ -347,7 +349,8 @@ def _validate_deadline(
                 f"deadline={x!r} is invalid, because it is impossible to meet a "
                 "deadline <= 0. Use deadline=None to disable deadlines."
             )
-        return duration(seconds=x.total_seconds())
+        # not via total_seconds(), which is inexact for large timedeltas
+        return duration(days=x.days, seconds=x.seconds, microseconds=x.microseconds)
     raise invalid_deadline_error
 
 
-- 
2.43.0


From 0a881034c8455bba34d84f06f02769d9b1a64b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 50/83] fix: do not change the current profile when loading an
 unknown one

---
 hypothesis-python/src/hypothesis/_settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index 0378307..eeddb41 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -869,8 +869,9 @@ class settings(metaclass=settingsMeta):
         defined default for that setting.
         """
         check_type(str, name, "name")
+        profile = settings.get_profile(name)
         settings._current_profile = name
-        default_variable.value = settings.get_profile(name)
+        default_variable.value = profile
 
 
 @contextlib.contextmanager
-- 
2.43.0


From c4d7bdfe924b97a6c76677bcf1021c5d6a426758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 51/83] fix: observability records are valid json for
 non-finite floats and cyclic values

---
 .../hypothesis/strategies/_internal/utils.py    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/utils.py b/hypothesis-python/src/hypothesis/strategies/_internal/utils.py
index ec7e583..bf8b487 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/utils.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/utils.py
@@ -8,6 +8,7 @@
 # v. 2.0. If a copy of the MPL was not distributed with this file, You can
 # obtain one at https://mozilla.org/MPL/2.0/.
 
+import math
 import sys
 import threading
 from functools import partial
@@ -17,7 +18,6 @@ from typing import TYPE_CHECKING, Callable
 import attr
 
 from hypothesis.internal.cache import LRUReusedCache
-from hypothesis.internal.compat import dataclass_asdict
 from hypothesis.internal.floats import clamp, float_to_int
 from hypothesis.internal.reflection import proxies
 from hypothesis.vendor.pretty import pretty
@@ -157,7 +157,9 @@ def defines_strategy(
     return decorator
 
 
-def to_jsonable(obj: object, *, avoid_realization: bool) -> object:
+def to_jsonable(
+    obj: object, *, avoid_realization: bool, _seen: frozenset[int] = frozenset()
+) -> object:
     """Recursively convert an object to json-encodable form.
 
     This is not intended to round-trip, but rather provide an analysis-ready
@@ -172,10 +174,16 @@ def to_jsonable(obj: object, *, avoid_realization: bool) -> object:
                 return "<symbolic>"
             obj = clamp(-sys.float_info.max, obj, sys.float_info.max)
             return float(obj)
+        if isinstance(obj, float) and not (avoid_realization or math.isfinite(obj)):
+            return str(float(obj))  # infinities and nans are not valid json
         return obj
     if avoid_realization:
         return "<symbolic>"
-    recur = partial(to_jsonable, avoid_realization=avoid_realization)
+    if id(obj) in _seen:
+        return pretty(obj)  # this object contains itself
+    recur = partial(
+        to_jsonable, avoid_realization=avoid_realization, _seen=_seen | {id(obj)}
+    )
     if isinstance(obj, (list, tuple, set, frozenset)):
         if isinstance(obj, tuple) and hasattr(obj, "_asdict"):
             return recur(obj._asdict())  # treat namedtuples as dicts
@@ -199,7 +207,8 @@ def to_jsonable(obj: object, *, avoid_realization: bool) -> object:
         and dcs.is_dataclass(obj)
         and not isinstance(obj, type)
     ):
-        return recur(dataclass_asdict(obj))
+        # not dataclasses.asdict(), which would copy the values and follow cycles
+        return {f.name: recur(getattr(obj, f.name)) for f in dcs.fields(obj)}
     if attr.has(type(obj)):
         return recur(attr.asdict(obj, recurse=False))  # type: ignore
     if (pyd := sys.modules.get("pydantic")) and isinstance(obj, pyd.BaseModel):
-- 
2.43.0


From 4dd31686b6cbe91ead6f63de79814c0fe5dde691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 52/83] fix: observability does not modify recorded events

---
 .../src/hypothesis/internal/observability.py           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/observability.py b/hypothesis-python/src/hypothesis/internal/observability.py
index 9449e89..eed27ed 100644
--- a/hypothesis-python/src/hypothesis/internal/observability.py
+++ b/hypothesis-python/src/hypothesis/internal/observability.py
@@ -44,12 +44,14 @@ def make_testcase(
     phase: Optional[str] = None,
     backend_metadata: Optional[dict[str, Any]] = None,
 ) -> dict:
+    from hypothesis.strategies._internal.utils import to_jsonable
+
     if data.interesting_origin:
         status_reason = str(data.interesting_origin)
     elif phase == "shrink" and data.status == Status.OVERRUN:
         status_reason = "exceeded size of current best example"
     else:
-        status_reason = str(data.events.pop("invalid because", ""))
+        status_reason = str(data.events.get("invalid because", ""))
 
     return {
         "type": "test_case",
@@ -71,7 +73,11 @@ def make_testcase(
             **{
                 f"target:{k}".strip(":"): v for k, v in data.target_observations.items()
             },
-            **data.events,
+            **{
+                k: to_jsonable(v, avoid_realization=False)
+                for k, v in data.events.items()
+                if k != "invalid because"
+            },
         },
         "timing": timing,
         "metadata": {
-- 
2.43.0


From 0f117d1764c6814046911ad1ebe7b2a9fededa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 53/83] fix: observability records for explicit examples

---
 hypothesis-python/src/hypothesis/core.py | 27 ++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index da6d3e9..e4d1873 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -543,14 +543,14 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                                 f"Expected a{'n' * vowel} {name} from @example({bits})"
                                 f"{reason}, but no exception was raised."
                             )
-            except UnsatisfiedAssumption:
+            except UnsatisfiedAssumption as err:
                 # Odd though it seems, we deliberately support explicit examples that
                 # are then rejected by a call to `assume()`.  As well as iterative
                 # development, this is rather useful to replay Hypothesis' part of
                 # a saved failure when other arguments are supplied by e.g. pytest.
                 # See https://github.com/HypothesisWorks/hypothesis/issues/2125
                 with contextlib.suppress(StopTest):
-                    empty_data.conclude_test(Status.INVALID)
+                    empty_data.mark_invalid(err.reason)
             except BaseException as err:
                 # In order to support reporting of multiple failing examples, we yield
                 # each of the (report text, error) pairs we find back to the top-level
@@ -574,6 +574,15 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                     err = new
 
                 with contextlib.suppress(StopTest):
+                    if isinstance(err, failure_exceptions_to_catch()) and not (
+                        isinstance(err, skip_exceptions_to_reraise())
+                    ):
+                        empty_data.expected_traceback = format_exception(
+                            err, get_trimmed_traceback(err)
+                        )
+                        empty_data.conclude_test(
+                            Status.INTERESTING, InterestingOrigin.from_exception(err)
+                        )
                     empty_data.conclude_test(Status.INVALID)
                 yield (fragments_reported, err)
                 if (
@@ -597,9 +606,11 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                     data=empty_data,
                     how_generated="explicit example",
                     string_repr=state._string_repr,
+                    arguments=empty_data._observability_args,
                     timing=state._timing_features,
                 )
                 deliver_json_blob(tc)
+                state._timing_features = {}
 
             if fragments_reported:
                 verbose_report(fragments_reported[0].replace("Falsifying", "Trying", 1))
@@ -987,10 +998,14 @@ class StateForActualGivenExecution:
                     avoid_realization=data.provider.avoid_realization,
                 )
                 self._string_repr = printer.getvalue()
-                data._observability_arguments = {
-                    k: to_jsonable(v, avoid_realization=data.provider.avoid_realization)
-                    for k, v in [*enumerate(args), *kwargs.items()]
-                }
+                if example_kwargs is not None:
+                    # nothing was drawn for explicit examples
+                    data._observability_args = {
+                        k: to_jsonable(
+                            v, avoid_realization=data.provider.avoid_realization
+                        )
+                        for k, v in example_kwargs.items()
+                    }
 
             try:
                 return test(*args, **kwargs)
-- 
2.43.0


From 6a71dc7c4f0bdbc4facd14d8b4ae47b6794aa430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 54/83] fix: interrupted and skipped test cases are not
 recorded as passed

---
 hypothesis-python/src/hypothesis/core.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index e4d1873..fcc6dae 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1096,6 +1096,7 @@ class StateForActualGivenExecution:
         ``StopTest`` must be a fatal error, and should stop the entire engine.
         """
         trace: Trace = set()
+        gave_up: Optional[BaseException] = None
         try:
             with Tracer(should_trace=self._should_trace()) as tracer:
                 try:
@@ -1124,16 +1125,21 @@ class StateForActualGivenExecution:
                 # This was unexpected, meaning that the assume was flaky.
                 # Report it as such.
                 raise self._flaky_replay_to_failure(err, e) from None
-        except (StopTest, BackendCannotProceed):
+        except StopTest:
             # The engine knows how to handle this control exception, so it's
             # OK to re-raise it.
             raise
+        except BackendCannotProceed as e:
+            # And this one too.
+            gave_up = e
+            raise
         except (
             FailedHealthCheck,
             *skip_exceptions_to_reraise(),
-        ):
+        ) as e:
             # These are fatal errors or control exceptions that should stop the
             # engine, so we re-raise them.
+            gave_up = e
             raise
         except failure_exceptions_to_catch() as e:
             # If an unhandled (i.e., non-Hypothesis) error was raised by
@@ -1188,6 +1194,10 @@ class StateForActualGivenExecution:
                 except FlakyReplay as err:
                     raise self._flaky_replay_to_failure(err, e) from None
 
+        except BaseException as e:
+            # We've been interrupted.
+            gave_up = e
+            raise
         finally:
             # Conditional here so we can save some time constructing the payload; in
             # other cases (without coverage) it's cheap enough to do that regardless.
@@ -1224,6 +1234,9 @@ class StateForActualGivenExecution:
                     phase=phase,
                     backend_metadata=data.provider.observe_test_case(),
                 )
+                if gave_up is not None and tc["status"] == "passed":
+                    tc["status"] = "gave_up"
+                    tc["status_reason"] = repr(gave_up)
                 deliver_json_blob(tc)
                 for msg in data.provider.observe_information_messages(
                     lifetime="test_case"
-- 
2.43.0


From 9234f6d77827ab5fddc8dfd00b5feb3832f065bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 55/83] fix: status of the final replay in observability
 records

---
 hypothesis-python/src/hypothesis/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index fcc6dae..1afcbe1 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1373,6 +1373,7 @@ class StateForActualGivenExecution:
             tb = None
             origin = None
             interrupted = False
+            status = "failed"
             assert falsifying_example.expected_exception is not None
             assert falsifying_example.expected_traceback is not None
             try:
@@ -1395,6 +1396,7 @@ class StateForActualGivenExecution:
                 # failed until the final non-traced replay, and something was
                 # exhausted? Possibly a FIXME, but sufficiently weird to
                 # ignore for now.
+                status = "gave_up"
                 err = FlakyFailure(
                     "Inconsistent results: An example failed on the "
                     "first run but now succeeds (or fails with another "
@@ -1404,6 +1406,7 @@ class StateForActualGivenExecution:
                 )
                 errors_to_report.append((fragments, err))
             except UnsatisfiedAssumption as e:  # pragma: no cover  # ironically flaky
+                status = "gave_up"
                 err = FlakyFailure(
                     "Unreliable assumption: An example which satisfied "
                     "assumptions on the first run now fails it.",
@@ -1416,6 +1419,7 @@ class StateForActualGivenExecution:
                 ):
                     # We've been interrupted, which isn't a failure to report.
                     interrupted = True
+                    status = "gave_up"
                     raise
                 # If we have anything for explain-mode, this is the time to report.
                 fragments.extend(explanations[falsifying_example.interesting_origin])
@@ -1441,10 +1445,13 @@ class StateForActualGivenExecution:
                     "type": "test_case",
                     "run_start": self._start_timestamp,
                     "property": self.test_identifier,
-                    "status": "passed" if sys.exc_info()[0] else "failed",
+                    "status": status,
                     "status_reason": str(origin or "unexpected/flaky pass"),
                     "representation": self._string_repr,
-                    "arguments": ran_example._observability_args,
+                    "arguments": {
+                        k.removeprefix("generate:"): v
+                        for k, v in ran_example._observability_args.items()
+                    },
                     "how_generated": "minimal failing example",
                     "features": {
                         **{
-- 
2.43.0


From d59df233392429a881494b89327b0eb6013e00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 56/83] fix: event payloads in the record of the final replay

---
 hypothesis-python/src/hypothesis/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 1afcbe1..ca142fb 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1458,7 +1458,11 @@ class StateForActualGivenExecution:
                             f"target:{k}".strip(":"): v
                             for k, v in ran_example.target_observations.items()
                         },
-                        **ran_example.events,
+                        **{
+                            k: to_jsonable(v, avoid_realization=False)
+                            for k, v in ran_example.events.items()
+                            if k != "invalid because"
+                        },
                     },
                     "timing": self._timing_features,
                     "coverage": None,  # Not recorded when we're replaying the MFE
-- 
2.43.0


From ac82cfae6fff80e167aa36127b207138730819cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 57/83] fix: close all spans when an error propagates out of a
 draw

---
 hypothesis-python/src/hypothesis/internal/conjecture/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/data.py b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
index 200ea12..e548fa4 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/data.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
@@ -1130,6 +1130,7 @@ class ConjectureData:
             assert isinstance(strategy.label, int)
             label = strategy.label
         self.start_span(label=label)
+        depth = self.depth
         try:
             if not at_top_level:
                 return strategy.do_draw(self)
@@ -1155,6 +1156,10 @@ class ConjectureData:
                 self._observability_args[key] = to_jsonable(v, avoid_realization=avoid)
             return v
         finally:
+            # If we were interrupted by an error, then there may also be spans within
+            # this one which are still open.
+            while self.depth > depth and not self.frozen:
+                self.stop_span()
             self.stop_span()
 
     def start_span(self, label: int) -> None:
-- 
2.43.0


From 7f69ea6a8be8f3875a02e21c03dbd8daee02a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 58/83] fix: do not explain failures without the explain phase

---
 hypothesis-python/src/hypothesis/internal/scrutineer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/scrutineer.py b/hypothesis-python/src/hypothesis/internal/scrutineer.py
index 1df6a04..f4c7c40 100644
--- a/hypothesis-python/src/hypothesis/internal/scrutineer.py
+++ b/hypothesis-python/src/hypothesis/internal/scrutineer.py
@@ -270,7 +270,10 @@ def make_report(explanations, *, cap_lines_at=5):
 
 
 def explanatory_lines(traces, settings):
-    if Phase.explain in settings.phases and sys.gettrace() and not traces:
+    if Phase.explain not in settings.phases:
+        # We may have traces regardless, if they were needed for observability.
+        return defaultdict(list)
+    if sys.gettrace() and not traces:
         return defaultdict(list)
     # Return human-readable report lines summarising the traces
     explanations = get_explaining_locations(traces)
-- 
2.43.0


From e157ab9c15a130199d739fcf4cc3c2835b9ac47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 59/83] fix: do not tell backends about spans which have
 already ended

---
 hypothesis-python/src/hypothesis/internal/conjecture/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/data.py b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
index e548fa4..942d450 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/data.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
@@ -1163,8 +1163,8 @@ class ConjectureData:
             self.stop_span()
 
     def start_span(self, label: int) -> None:
-        self.provider.span_start(label)
         self.__assert_not_frozen("start_span")
+        self.provider.span_start(label)
         self.depth += 1
         # Logically it would make sense for this to just be
         # ``self.depth = max(self.depth, self.max_depth)``, which is what it used to
@@ -1178,9 +1178,9 @@ class ConjectureData:
         self.labels_for_structure_stack.append({label})
 
     def stop_span(self, *, discard: bool = False) -> None:
-        self.provider.span_end(discard)
         if self.frozen:
             return
+        self.provider.span_end(discard)
         if discard:
             self.has_discards = True
         self.depth -= 1
-- 
2.43.0


From 7462462086b87f8dc703621ebb6f6ca099e9ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 60/83] fix: treat a backend which cannot realize a choice as
 giving up on that test case

---
 .../src/hypothesis/internal/conjecture/engine.py   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 2c4de39..e8822e2 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -473,6 +473,9 @@ class ConjectureRunner:
         interrupted = False
         try:
             self.__stoppable_test_function(data)
+            if self.settings.backend != "hypothesis":
+                data.freeze()
+                realize_choices(data)
         except KeyboardInterrupt:
             interrupted = True
             raise
@@ -496,8 +499,13 @@ class ConjectureRunner:
         except BaseException:
             data.freeze()
             if self.settings.backend != "hypothesis":
-                realize_choices(data)
-            self.save_choices(data.choices)
+                try:
+                    realize_choices(data)
+                except BackendCannotProceed:
+                    # without concrete choices, there is nothing we could save.
+                    interrupted = True
+            if not interrupted:
+                self.save_choices(data.choices)
             raise
         finally:
             # No branch, because if we're interrupted we always raise
@@ -515,8 +523,6 @@ class ConjectureRunner:
                     ),
                 }
                 self.stats_per_test_case.append(call_stats)
-                if self.settings.backend != "hypothesis":
-                    realize_choices(data)
 
                 self._cache(data)
                 if data.misaligned_at is not None:  # pragma: no branch # coverage bug?
-- 
2.43.0


From a74e1a3835969666b2dc678e98859edef7753da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 61/83] fix: shrink integers from below to above a non-zero
 shrink_towards

---
 .../src/hypothesis/internal/conjecture/shrinker.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
index 0aac436..8786c25 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
@@ -1475,7 +1475,9 @@ class Shrinker:
             # we're starting from n = abs(shrink_towards - value). Because the
             # shrinker will not check its starting value, we need to try
             # shrinking to n first.
-            self.try_shrinking_nodes(nodes, abs(shrink_towards - value))
+            self.try_shrinking_nodes(
+                nodes, shrink_towards + abs(shrink_towards - value)
+            )
             Integer.shrink(
                 abs(shrink_towards - value),
                 lambda n: self.try_shrinking_nodes(nodes, shrink_towards + n),
-- 
2.43.0


From c6c51ee5f7e7de631f97176ac99611aa12c720f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 62/83] fix: keep unique data frame columns unique when fill
 completes short rows

---
 .../src/hypothesis/extra/pandas/impl.py       | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/extra/pandas/impl.py b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
index 0dbd109..d7af3c3 100644
--- a/hypothesis-python/src/hypothesis/extra/pandas/impl.py
+++ b/hypothesis-python/src/hypothesis/extra/pandas/impl.py
@@ -729,17 +729,6 @@ def data_frames(
                                     % (row, k, [c.name for c in rewritten_columns])
                                 )
                         row = as_list
-                    if any_unique:
-                        has_duplicate = False
-                        for seen, value in zip(all_seen, row):
-                            if seen is None:
-                                continue
-                            if value in seen:
-                                has_duplicate = True
-                                break
-                            seen.add(value)
-                        if has_duplicate:
-                            continue
                     row = list(try_convert(tuple, row, "draw(rows)"))
 
                     if len(row) > len(rewritten_columns):
@@ -755,6 +744,18 @@ def data_frames(
                                 f"complete row {original_row!r}"
                             )
                         row.append(draw(c.fill))
+                    if any_unique:
+                        has_duplicate = False
+                        for seen, value in zip(all_seen, row):
+                            if seen is None:
+                                continue
+                            # NaN is distinct from every other value
+                            if value in seen and value == value:
+                                has_duplicate = True
+                                break
+                            seen.add(value)
+                        if has_duplicate:
+                            continue
                     for column_index, value in enumerate(row):
                         result.iat[row_index, column_index] = value
                     break
-- 
2.43.0


From 368227aad4bff776dd2eaa892b8e07604e230d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 63/83] fix: never report a negative runtime when a garbage
 collection falls beside the test

---
 hypothesis-python/src/hypothesis/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index ca142fb..e0196e4 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -910,18 +910,20 @@ class StateForActualGivenExecution:
             def test(*args, **kwargs):
                 arg_drawtime = math.fsum(data.draw_times.values())
                 arg_stateful = math.fsum(data._stateful_run_times.values())
-                arg_gctime = gc_cumulative_time()
+                # Collections are only subtracted from the runtime if they happen
+                # within it, so that the runtime is never negative.
                 start = time.perf_counter()
+                arg_gctime = gc_cumulative_time()
                 try:
                     with unwrap_markers_from_group(), ensure_free_stackframes():
                         result = self.test(*args, **kwargs)
                 finally:
+                    in_gctime = gc_cumulative_time() - arg_gctime
                     finish = time.perf_counter()
                     in_drawtime = math.fsum(data.draw_times.values()) - arg_drawtime
                     in_stateful = (
                         math.fsum(data._stateful_run_times.values()) - arg_stateful
                     )
-                    in_gctime = gc_cumulative_time() - arg_gctime
                     runtime = finish - start - in_drawtime - in_stateful - in_gctime
                     self._timing_features = {
                         "execute:test": runtime,
-- 
2.43.0


From d0d157a70fa72ddc295618e1ead2374c3ce053cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 64/83] fix: print dataclass and attrs fields as their
 constructors take them

---
 .../src/hypothesis/vendor/pretty.py           | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index b31404b..5bf84ed 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -63,6 +63,7 @@ Inheritance diagram:
 """
 
 import ast
+import dataclasses
 import datetime
 import re
 import struct
@@ -241,18 +242,20 @@ class RepresentationPrinter:
                                     obj,
                                     self,
                                     cycle,
-                                    [at.name for at in cls.__attrs_attrs__ if at.init],
+                                    {
+                                        at.name: getattr(at, "alias", at.name)
+                                        for at in cls.__attrs_attrs__
+                                        if at.init
+                                    },
                                 )
                             if hasattr(cls, "__dataclass_fields__"):
+                                # n.b. __dataclass_fields__ includes ClassVars and
+                                # InitVars, which dataclasses.fields() leaves out.
                                 return pprint_fields(
                                     obj,
                                     self,
                                     cycle,
-                                    [
-                                        k
-                                        for k, v in cls.__dataclass_fields__.items()
-                                        if v.init
-                                    ],
+                                    [f.name for f in dataclasses.fields(cls) if f.init],
                                 )
                 # Now check for object-specific printers which show how this
                 # object was constructed (a Hypothesis special feature).
@@ -788,8 +791,12 @@ def _repr_pprint(obj: object, p: RepresentationPrinter, cycle: bool) -> None:
 
 
 def pprint_fields(
-    obj: object, p: RepresentationPrinter, cycle: bool, fields: Iterable[str]
+    obj: object,
+    p: RepresentationPrinter,
+    cycle: bool,
+    fields: Union[Iterable[str], dict[str, str]],
 ) -> None:
+    # `fields` may map the name of each attribute to that of the init argument.
     name = get_class_name(obj.__class__)
     if cycle:
         return p.text(f"{name}(...)")
@@ -798,7 +805,7 @@ def pprint_fields(
             if idx:
                 p.text(",")
                 p.breakable()
-            p.text(field)
+            p.text(fields[field] if isinstance(fields, dict) else field)
             p.text("=")
             p.pretty(getattr(obj, field))
 
-- 
2.43.0


From 25ab9b9196b5f256eec67b89a1b04892da19610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 65/83] fix: print members of mixed-in enums, and flags with
 unnamed bits, as code

---
 .../src/hypothesis/vendor/pretty.py              | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index 5bf84ed..e61bd1e 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -74,9 +74,10 @@ from collections import Counter, OrderedDict, defaultdict, deque
 from collections.abc import Generator, Iterable, Sequence
 from contextlib import contextmanager, suppress
 from enum import Enum, Flag
-from functools import partial
+from functools import partial, reduce
 from io import StringIO, TextIOBase
-from math import copysign, isnan
+from math import copysign, isfinite, isnan
+from operator import or_
 from typing import TYPE_CHECKING, Any, Callable, Optional, TypeVar, Union
 
 if TYPE_CHECKING:
@@ -220,7 +221,11 @@ class RepresentationPrinter:
                 # Next walk the mro and check for either:
                 #   1) a registered printer
                 #   2) a _repr_pretty_ method
-                for cls in obj_class.__mro__:
+                mro = obj_class.__mro__
+                if issubclass(obj_class, Enum):
+                    # The members of e.g. an IntEnum are Enums first, and ints second.
+                    mro = tuple(sorted(mro, key=lambda c: not issubclass(c, Enum)))
+                for cls in mro:
                     if cls in self.type_pprinters:
                         # printer registered in self.type_pprinters
                         return self.type_pprinters[cls](obj, self, cycle)
@@ -963,8 +968,11 @@ def _repr_dataframe(
 def _repr_enum(obj: Enum, p: RepresentationPrinter, cycle: bool) -> None:
     tname = get_class_name(type(obj))
     if isinstance(obj, Flag):
+        members = [x for x in type(obj) if x & obj == x]
+        if reduce(or_, (x.value for x in members), 0) != obj.value:
+            members = []  # some bits are not named
         p.text(
-            " | ".join(f"{tname}.{x.name}" for x in type(obj) if x & obj == x)
+            " | ".join(f"{tname}.{x.name}" for x in members)
             or f"{tname}({obj.value!r})"  # if no matching members
         )
     else:
-- 
2.43.0


From caaef16d447de33ea8b5614cb4db555ac845c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 66/83] fix: print complex numbers with infinite or nan parts
 as code

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index e61bd1e..7112471 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -866,10 +866,19 @@ def _repr_float_counting_nans(
     p.text(repr(obj))
 
 
+def _repr_complex(obj: complex, p: RepresentationPrinter, cycle: bool) -> None:
+    if type(obj) is complex and not (isfinite(obj.real) and isfinite(obj.imag)):
+        # The repr, e.g. `(inf+nanj)`, is not an expression with this value.
+        p.repr_call("complex", (obj.real, obj.imag), {})
+    else:
+        p.text(repr(obj))
+
+
 #: printers for builtin types
 _type_pprinters: dict[type, PrettyPrintFunction] = {
     int: _repr_integer,
     float: _repr_float_counting_nans,
+    complex: _repr_complex,
     str: _repr_pprint,
     tuple: _seq_pprinter_factory("(", ")", tuple),
     list: _seq_pprinter_factory("[", "]", list),
-- 
2.43.0


From ee85c13d9d5e4b358bb17f4d54453b0026989d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 67/83] fix: print regular expressions so that they evaluate to
 the same pattern

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index 7112471..ab9f115 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -731,12 +731,11 @@ def _re_pattern_pprint(obj: re.Pattern, p: RepresentationPrinter, cycle: bool) -
     """The pprint function for regular expression patterns."""
     p.text("re.compile(")
     pattern = repr(obj.pattern)
-    if pattern[:1] in "uU":  # pragma: no cover
-        pattern = pattern[1:]
-        prefix = "ur"
-    else:
-        prefix = "r"
-    pattern = prefix + pattern.replace("\\\\", "\\")
+    raw = "r" + pattern.replace("\\\\", "\\")
+    # Raw literals are easier to read, but not every pattern has one.
+    with suppress(SyntaxError, ValueError):
+        if ast.literal_eval(raw) == obj.pattern:
+            pattern = raw
     p.text(pattern)
     if obj.flags:
         p.text(",")
@@ -751,6 +750,7 @@ def _re_pattern_pprint(obj: re.Pattern, p: RepresentationPrinter, cycle: bool) -
             "UNICODE",
             "VERBOSE",
             "DEBUG",
+            "ASCII",
         ):
             if obj.flags & getattr(re, flag, 0):
                 if done_one:
-- 
2.43.0


From 9ba1aaa9b8f7ae1d99043772fb5c28d97f77a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 68/83] fix: print one-element tuple subclasses, int subclasses
 and Decimals as what they are

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index ab9f115..5d4a237 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -624,7 +624,7 @@ def _seq_pprinter_factory(start: str, end: str, basetype: type) -> PrettyPrintFu
                     p.text(",")
                     p.breakable()
                 p.pretty(x)
-            if len(obj) == 1 and type(obj) is tuple:
+            if len(obj) == 1 and basetype is tuple:
                 # Special case for 1-item tuples.
                 p.text(",")
 
@@ -843,7 +843,7 @@ def _exception_pprint(
 
 
 def _repr_integer(obj: int, p: RepresentationPrinter, cycle: bool) -> None:
-    if abs(obj) < 1_000_000_000:
+    if abs(obj) < 1_000_000_000 or type(obj).__repr__ is not int.__repr__:
         p.text(repr(obj))
     elif abs(obj) < 10**640:
         # add underscores for integers over ten decimal digits
@@ -1005,6 +1005,7 @@ for_type_by_name("collections", "OrderedDict", _ordereddict_pprint)
 for_type_by_name("ordereddict", "OrderedDict", _ordereddict_pprint)
 for_type_by_name("collections", "deque", _deque_pprint)
 for_type_by_name("collections", "Counter", _counter_pprint)
+for_type_by_name("decimal", "Decimal", _repr_pprint)
 for_type_by_name("pandas.core.frame", "DataFrame", _repr_dataframe)
 for_type_by_name("enum", "Enum", _repr_enum)
 for_type_by_name("functools", "partial", _repr_partial)
-- 
2.43.0


From 51346a954dbaa3ddf916cfd358e57ef861d678e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 69/83] fix: never fail to print mocks with a spec or
 exceptions which contain themselves

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index 5d4a237..a5e76ec 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -201,6 +201,9 @@ class RepresentationPrinter:
         try:
             with self.group():
                 obj_class = _safe_getattr(obj, "__class__", None) or type(obj)
+                if obj_class not in type(obj).__mro__:
+                    # e.g. a mock, which need not behave like what it stands for.
+                    obj_class = type(obj)
                 # First try to find registered singleton printers for the type.
                 try:
                     printer = self.singleton_pprinters[obj_id]
@@ -833,6 +836,8 @@ def _exception_pprint(
     name = getattr(obj.__class__, "__qualname__", obj.__class__.__name__)
     if obj.__class__.__module__ not in ("exceptions", "builtins"):
         name = f"{obj.__class__.__module__}.{name}"
+    if cycle:
+        return p.text(f"{name}(...)")
     step = len(name) + 1
     with p.group(step, name + "(", ")"):
         for idx, arg in enumerate(getattr(obj, "args", ())):
-- 
2.43.0


From 6d2b8201e03e550f9d7da00ec1a6c8485b28ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 70/83] fix: random objects return values in the range of each
 method for reversed bounds, negative rates and certain outcomes

---
 .../hypothesis/strategies/_internal/random.py | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 1692db8..688979f 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -239,7 +239,8 @@ class ArtificialRandom(HypothesisRandom):
         elif method == "uniform":
             a = normalize_zero(kwargs["a"])
             b = normalize_zero(kwargs["b"])
-            result = self.__data.draw(floats(a, b))
+            # It is valid for the bounds to be given in either order.
+            result = self.__data.draw(floats(min(a, b), max(a, b)))
         elif method in ("weibullvariate", "gammavariate"):
             result = self.__data.draw(floats(min_value=0.0, allow_infinity=False))
         elif method in ("gauss", "normalvariate"):
@@ -274,7 +275,13 @@ class ArtificialRandom(HypothesisRandom):
             result = self.__data.draw_integer(kwargs["a"], kwargs["b"])
         # New in Python 3.12, so not taken by our coverage job
         elif method == "binomialvariate":  # pragma: no cover
-            result = self.__data.draw_integer(0, kwargs["n"])
+            n = kwargs["n"]
+            p = kwargs["p"]
+            if n < 0:
+                raise ValueError("n must be non-negative")
+            if not 0.0 <= p <= 1.0:
+                raise ValueError("p must be in the range 0.0 <= p <= 1.0")
+            result = self.__data.draw_integer(n if p == 1 else 0, 0 if p == 0 else n)
         elif method == "choice":
             seq = kwargs["seq"]
             result = self.__data.draw_integer(0, len(seq) - 1)
@@ -314,13 +321,24 @@ class ArtificialRandom(HypothesisRandom):
             low = normalize_zero(kwargs["low"])
             high = normalize_zero(kwargs["high"])
             mode = normalize_zero(kwargs["mode"])
+            # It is valid for the bounds to be given in either order.
+            low, high = min(low, high), max(low, high)
             if mode is None:
                 result = self.__data.draw(floats(low, high))
             elif self.__data.draw_boolean(0.5):
                 result = self.__data.draw(floats(mode, high))
             else:
                 result = self.__data.draw(floats(low, mode))
-        elif method in ("paretovariate", "expovariate", "lognormvariate"):
+        elif method == "expovariate":
+            lambd = kwargs["lambd"]
+            if lambd == 0:
+                raise ZeroDivisionError("lambd must be nonzero")
+            # Negative rates give negative values.
+            result = self.__data.draw(floats(min_value=0.0))
+            result = -result if lambd < 0 else result
+        elif method == "paretovariate":
+            result = self.__data.draw(floats(min_value=1.0))
+        elif method == "lognormvariate":
             result = self.__data.draw(floats(min_value=0.0))
         elif method == "shuffle":
             result = self.__data.draw(permutations(range(len(kwargs["x"]))))
-- 
2.43.0


From 79a46a2049ae8c7ccde463d45c1aa66ed6b669e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 71/83] fix: respect the weights of choices and the counts of
 samples from random objects

---
 .../hypothesis/strategies/_internal/random.py | 71 +++++++++++++++----
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 688979f..eb48a56 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -11,6 +11,8 @@
 import abc
 import inspect
 import math
+from bisect import bisect_right
+from itertools import accumulate
 from random import Random
 from typing import Any
 
@@ -176,6 +178,42 @@ def normalize_zero(f: float) -> float:
         return f
 
 
+def weighted_indices(population, weights, cum_weights):
+    """The indices with positive weight as a tuple, or None if they all have."""
+    if cum_weights is None:
+        if weights is None:
+            return None
+        if isinstance(weights, int):
+            raise TypeError(
+                f"The number of choices must be a keyword argument: k={weights}"
+            )
+        cum_weights = list(accumulate(weights))
+    elif weights is not None:
+        raise TypeError("Cannot specify both weights and cumulative weights")
+    if len(cum_weights) != len(population):
+        raise ValueError("The number of weights does not match the population")
+    total = cum_weights[-1]
+    if total <= 0:
+        raise ValueError("Total of weights must be greater than zero")
+    if not math.isfinite(total):
+        raise ValueError("Total of weights must be finite")
+    indices = tuple(
+        i for i, w in enumerate(cum_weights) if w > (cum_weights[i - 1] if i else 0)
+    )
+    return None if len(indices) == len(population) else indices
+
+
+def cumulative_counts(population, counts):
+    cum_counts = list(accumulate(counts))
+    if len(cum_counts) != len(population):
+        raise ValueError("The number of counts does not match the population")
+    if not isinstance(cum_counts[-1], int):
+        raise TypeError("Counts must be integers")
+    if cum_counts[-1] <= 0:
+        raise ValueError("Total of counts must be greater than zero")
+    return cum_counts
+
+
 class ArtificialRandom(HypothesisRandom):
     VERSION = 10**6
 
@@ -200,6 +238,10 @@ class ArtificialRandom(HypothesisRandom):
             return kwargs.get("seq")[result]
         if method in ("choices", "sample"):
             seq = kwargs["population"]
+            if kwargs.get("counts") is not None:
+                # result has indices of the population with its elements repeated
+                cum_counts = cumulative_counts(seq, kwargs["counts"])
+                return [seq[bisect_right(cum_counts, i)] for i in result]
             return [seq[i] for i in result]
         if method == "shuffle":
             seq = kwargs["x"]
@@ -211,13 +253,19 @@ class ArtificialRandom(HypothesisRandom):
 
     def _hypothesis_do_random(self, method, kwargs):
         if method == "choices":
-            key = (method, len(kwargs["population"]), kwargs.get("k"))
+            indices = weighted_indices(
+                kwargs["population"], kwargs["weights"], kwargs["cum_weights"]
+            )
+            key = (method, len(kwargs["population"]), kwargs.get("k"), indices)
         elif method == "choice":
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
             key = (method, len(kwargs["x"]))
         elif method == "sample":
-            key = (method, len(kwargs["population"]), kwargs["k"])
+            n = len(kwargs["population"])
+            if kwargs["counts"] is not None:
+                n = cumulative_counts(kwargs["population"], kwargs["counts"])[-1]
+            key = (method, n, kwargs["k"])
         else:
             key = (method, *sorted(kwargs.items()))
 
@@ -287,20 +335,17 @@ class ArtificialRandom(HypothesisRandom):
             result = self.__data.draw_integer(0, len(seq) - 1)
         elif method == "choices":
             k = kwargs["k"]
-            result = self.__data.draw(
-                lists(
-                    integers(0, len(kwargs["population"]) - 1),
-                    min_size=k,
-                    max_size=k,
-                )
-            )
+            if indices is None:
+                elements = integers(0, len(kwargs["population"]) - 1)
+            else:
+                elements = sampled_from(indices)
+            result = self.__data.draw(lists(elements, min_size=k, max_size=k))
         elif method == "sample":
             k = kwargs["k"]
-            seq = kwargs["population"]
 
-            if k > len(seq) or k < 0:
+            if k > n or k < 0:
                 raise ValueError(
-                    f"Sample size {k} not in expected range 0 <= k <= {len(seq)}"
+                    f"Sample size {k} not in expected range 0 <= k <= {n}"
                 )
 
             if k == 0:
@@ -308,7 +353,7 @@ class ArtificialRandom(HypothesisRandom):
             else:
                 result = self.__data.draw(
                     lists(
-                        sampled_from(range(len(seq))),
+                        sampled_from(range(n)),
                         min_size=k,
                         max_size=k,
                         unique=True,
-- 
2.43.0


From bbf41b6f22df2c51917fb72c6580060091eae69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 72/83] fix: raise the usual errors for invalid calls of random
 objects, not AssertionErrors

---
 .../hypothesis/strategies/_internal/random.py | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index eb48a56..8fea006 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -23,6 +23,7 @@ from hypothesis.internal.conjecture.data import ConjectureData
 from hypothesis.internal.reflection import define_function_signature
 from hypothesis.reporting import report
 from hypothesis.strategies._internal.core import lists, permutations, sampled_from
+from hypothesis.strategies._internal.misc import nothing
 from hypothesis.strategies._internal.numbers import floats, integers
 from hypothesis.strategies._internal.strategies import SearchStrategy
 
@@ -307,7 +308,9 @@ class ArtificialRandom(HypothesisRandom):
                 stop = kwargs["stop"]
 
             step = kwargs["step"]
-            if start == stop:
+            if step == 0:
+                raise ValueError("zero step for randrange()")
+            if (stop <= start) if step > 0 else (stop >= start):
                 raise ValueError(f"empty range for randrange({start}, {stop}, {step})")
 
             if step != 1:
@@ -320,6 +323,10 @@ class ArtificialRandom(HypothesisRandom):
             else:
                 result = self.__data.draw_integer(start, stop - 1)
         elif method == "randint":
+            if kwargs["a"] > kwargs["b"]:
+                raise ValueError(
+                    f"empty range for randint({kwargs['a']}, {kwargs['b']})"
+                )
             result = self.__data.draw_integer(kwargs["a"], kwargs["b"])
         # New in Python 3.12, so not taken by our coverage job
         elif method == "binomialvariate":  # pragma: no cover
@@ -332,10 +339,17 @@ class ArtificialRandom(HypothesisRandom):
             result = self.__data.draw_integer(n if p == 1 else 0, 0 if p == 0 else n)
         elif method == "choice":
             seq = kwargs["seq"]
+            if len(seq) == 0:
+                raise IndexError("Cannot choose from an empty sequence")
             result = self.__data.draw_integer(0, len(seq) - 1)
         elif method == "choices":
             k = kwargs["k"]
-            if indices is None:
+            if k <= 0:
+                elements = nothing()
+                k = 0
+            elif len(kwargs["population"]) == 0:
+                raise IndexError("Cannot choose from an empty sequence")
+            elif indices is None:
                 elements = integers(0, len(kwargs["population"]) - 1)
             else:
                 elements = sampled_from(indices)
@@ -361,6 +375,8 @@ class ArtificialRandom(HypothesisRandom):
                 )
 
         elif method == "getrandbits":
+            if kwargs["n"] < 0:
+                raise ValueError("number of bits must be non-negative")
             result = self.__data.draw_integer(0, 2 ** kwargs["n"] - 1)
         elif method == "triangular":
             low = normalize_zero(kwargs["low"])
@@ -389,6 +405,8 @@ class ArtificialRandom(HypothesisRandom):
             result = self.__data.draw(permutations(range(len(kwargs["x"]))))
         elif method == "randbytes":
             n = int(kwargs["n"])
+            if n < 0:
+                raise ValueError("number of bytes must be non-negative")
             result = self.__data.draw_bytes(min_size=n, max_size=n)
         else:
             raise NotImplementedError(method)
-- 
2.43.0


From 01e1e826fe783ecd0a34501ee3cce0b968270b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 73/83] fix: random objects can be seeded without arguments, by
 keyword and with a version like any Random

---
 .../src/hypothesis/strategies/_internal/random.py    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 8fea006..4d5b62b 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -39,7 +39,7 @@ class HypothesisRandom(Random, abc.ABC):
         return self.__copy__()
 
     @abc.abstractmethod
-    def seed(self, seed):
+    def seed(self, a=None, version=2):
         raise NotImplementedError
 
     @abc.abstractmethod
@@ -417,8 +417,8 @@ class ArtificialRandom(HypothesisRandom):
 
         return self.__convert_result(method, kwargs, result)
 
-    def seed(self, seed):
-        self.__state = state_for_seed(self.__data, seed)
+    def seed(self, a=None, version=2):
+        self.__state = state_for_seed(self.__data, a)
 
     def getstate(self):
         if self.__state.state_id is not None:
@@ -504,9 +504,9 @@ class TrueRandom(HypothesisRandom):
     def __repr__(self) -> str:
         return f"Random({self.__seed!r})"
 
-    def seed(self, seed):
-        self.__random.seed(seed)
-        self.__seed = seed
+    def seed(self, a=None, version=2):
+        self.__random.seed(a, version)
+        self.__seed = a
 
     def getstate(self):
         return self.__random.getstate()
-- 
2.43.0


From f6a9bc93624e98bf51a071708e1ba4e5237e1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 74/83] fix: retry a recursive strategy inside of another only
 for its own limit of leaves

---
 .../src/hypothesis/strategies/_internal/recursive.py      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
index 5f63211..09eab7b 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
@@ -56,7 +56,7 @@ class LimitedStrategy(SearchStrategy):
     def do_draw(self, data):
         assert self.currently_capped
         if self.marker <= 0:
-            raise LimitReached
+            raise LimitReached(self)
         self.marker -= 1
         return data.draw(self.base_strategy)
 
@@ -110,7 +110,11 @@ class RecursiveStrategy(SearchStrategy):
             try:
                 with self.limited_base.capped(self.max_leaves):
                     return data.draw(self.strategy)
-            except LimitReached:
+            except LimitReached as err:
+                # Trying again only helps if it was our own limit.  The limit of
+                # an enclosing recursive strategy will still have been reached.
+                if err.args[0] is not self.limited_base:
+                    raise
                 if count == 0:
                     msg = f"Draw for {self!r} exceeded max_leaves and had to be retried"
                     data.events[msg] = ""
-- 
2.43.0


From 6d087274d8ddd39b38873540a27cf9a96dbe4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 75/83] fix: a recursive strategy drawn inside of itself shares
 the limit of leaves

---
 .../src/hypothesis/strategies/_internal/recursive.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
index 09eab7b..a32822a 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
@@ -105,6 +105,10 @@ class RecursiveStrategy(SearchStrategy):
             )
 
     def do_draw(self, data):
+        if self.limited_base.currently_capped:
+            # We are part of a larger value drawn from this very strategy, which
+            # therefore has to share its limit.
+            return data.draw(self.strategy)
         count = 0
         while True:
             try:
-- 
2.43.0


From e7f3cbdd0d38bc5b7ba58de46c3399929d26e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 76/83] fix: a recursive strategy without any possible leaf is
 empty unless it can do without

---
 .../src/hypothesis/strategies/_internal/recursive.py       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
index a32822a..9a61df8 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/recursive.py
@@ -16,6 +16,7 @@ from hypothesis.internal.reflection import get_pretty_function_description
 from hypothesis.internal.validation import check_type
 from hypothesis.strategies._internal.strategies import (
     OneOfStrategy,
+    RecurT,
     SearchStrategy,
     check_strategy,
 )
@@ -53,6 +54,9 @@ class LimitedStrategy(SearchStrategy):
     def do_validate(self) -> None:
         self.base_strategy.validate()
 
+    def calc_is_empty(self, recur: RecurT) -> bool:
+        return recur(self.base_strategy)
+
     def do_draw(self, data):
         assert self.currently_capped
         if self.marker <= 0:
@@ -92,6 +96,9 @@ class RecursiveStrategy(SearchStrategy):
             )
         return self._cached_repr
 
+    def calc_is_empty(self, recur: RecurT) -> bool:
+        return recur(self.strategy)
+
     def do_validate(self) -> None:
         check_strategy(self.base, "base")
         extended = self.extend(self.limited_base)
-- 
2.43.0


From a477118004a0c5af6e087b6aba100b8289a27efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 77/83] fix: functions like classes, builtins and other
 callable objects can be generated

---
 .../src/hypothesis/internal/reflection.py     | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/reflection.py b/hypothesis-python/src/hypothesis/internal/reflection.py
index 6e3de42..bf44f9c 100644
--- a/hypothesis-python/src/hypothesis/internal/reflection.py
+++ b/hypothesis-python/src/hypothesis/internal/reflection.py
@@ -22,7 +22,7 @@ import textwrap
 import types
 import warnings
 from collections.abc import MutableMapping, Sequence
-from functools import partial, wraps
+from functools import WRAPPER_UPDATES, partial, wraps
 from inspect import Parameter, Signature
 from io import StringIO
 from keyword import iskeyword
@@ -643,11 +643,13 @@ def impersonate(target):
     def accept(f):
         # Lie shamelessly about where this code comes from, to hide the hypothesis
         # internals from pytest, ipython, and other runtime introspection.
-        f.__code__ = f.__code__.replace(
-            co_filename=target.__code__.co_filename,
-            co_firstlineno=target.__code__.co_firstlineno,
-        )
-        f.__name__ = target.__name__
+        # Classes, builtins, and other callable objects don't have code of their own.
+        if hasattr(target, "__code__"):
+            f.__code__ = f.__code__.replace(
+                co_filename=target.__code__.co_filename,
+                co_firstlineno=target.__code__.co_firstlineno,
+            )
+        f.__name__ = getattr(target, "__name__", f.__name__)
         f.__module__ = target.__module__
         f.__doc__ = target.__doc__
         f.__globals__["__hypothesistracebackhide__"] = True
@@ -658,13 +660,19 @@ def impersonate(target):
 
 def proxies(target: T) -> Callable[[Callable], T]:
     replace_sig = define_function_signature(
-        target.__name__.replace("<lambda>", "_lambda_"),  # type: ignore
+        getattr(target, "__name__", type(target).__name__).replace(
+            "<lambda>", "_lambda_"
+        ),
         target.__doc__,
         get_signature(target, follow_wrapped=False),
     )
 
     def accept(proxy):
-        return impersonate(target)(wraps(target)(replace_sig(proxy)))
+        # The attributes of a class are not those of the functions made like it.
+        updated = () if inspect.isclass(target) else WRAPPER_UPDATES
+        return impersonate(target)(
+            wraps(target, updated=updated)(replace_sig(proxy))
+        )
 
     return accept
 
-- 
2.43.0


From aa414846343e47fa548fc0df5b2f42954ba53f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 78/83] fix: keep the arguments before a non-empty *args
 positional when calling tests and functions

---
 hypothesis-python/src/hypothesis/core.py         |  8 +++++---
 .../src/hypothesis/internal/reflection.py        | 16 ++++++++++++++--
 .../hypothesis/strategies/_internal/functions.py |  4 +++-
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index e0196e4..043449d 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -653,14 +653,16 @@ def process_arguments_to_given(
     params: dict[str, Parameter],
 ) -> tuple[Sequence[object], dict[str, object], Stuff]:
     selfy = None
-    arguments, kwargs = convert_positional_arguments(wrapped_test, arguments, kwargs)
+    arguments, kwargs = convert_positional_arguments(
+        wrapped_test, arguments, kwargs, move_before_varargs=False
+    )
 
     # If the test function is a method of some kind, the bound object
     # will be the first named argument if there are any, otherwise the
     # first vararg (if any).
     posargs = [p.name for p in params.values() if p.kind is p.POSITIONAL_OR_KEYWORD]
-    if posargs:
-        selfy = kwargs.get(posargs[0])
+    if posargs and posargs[0] in kwargs:
+        selfy = kwargs[posargs[0]]
     elif arguments:
         selfy = arguments[0]
 
diff --git a/hypothesis-python/src/hypothesis/internal/reflection.py b/hypothesis-python/src/hypothesis/internal/reflection.py
index bf44f9c..6f247d8 100644
--- a/hypothesis-python/src/hypothesis/internal/reflection.py
+++ b/hypothesis-python/src/hypothesis/internal/reflection.py
@@ -220,20 +220,32 @@ def convert_keyword_arguments(
 
 
 def convert_positional_arguments(
-    function: Any, args: Sequence[object], kwargs: dict[str, object]
+    function: Any,
+    args: Sequence[object],
+    kwargs: dict[str, object],
+    *,
+    move_before_varargs: bool = True,
 ) -> tuple[tuple[object, ...], dict[str, object]]:
     """Return a tuple (new_args, new_kwargs) where all possible arguments have
     been moved to kwargs.
 
     new_args will only be non-empty if function has pos-only args or *args.
+    The function cannot be called with them if arguments before a non-empty *args
+    were moved too, which is therefore only done if move_before_varargs.
     """
     sig = inspect.signature(function, follow_wrapped=False)
     bound = sig.bind(*args, **kwargs)
     new_args = []
     new_kwargs = dict(bound.arguments)
+    keep_args = not move_before_varargs and any(
+        p.kind is p.VAR_POSITIONAL and p.name in new_kwargs
+        for p in sig.parameters.values()
+    )
     for p in sig.parameters.values():
         if p.name in new_kwargs:
-            if p.kind is p.POSITIONAL_ONLY:
+            if p.kind is p.POSITIONAL_ONLY or (
+                keep_args and p.kind is p.POSITIONAL_OR_KEYWORD
+            ):
                 new_args.append(new_kwargs.pop(p.name))
             elif p.kind is p.VAR_POSITIONAL:
                 new_args.extend(new_kwargs.pop(p.name))
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/functions.py b/hypothesis-python/src/hypothesis/strategies/_internal/functions.py
index a69adf5..63095f4 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/functions.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/functions.py
@@ -45,7 +45,9 @@ class FunctionStrategy(SearchStrategy):
                     "be called within the scope of the @given that created it."
                 )
             if self.pure:
-                args, kwargs = convert_positional_arguments(self.like, args, kwargs)
+                args, kwargs = convert_positional_arguments(
+                    self.like, args, kwargs, move_before_varargs=False
+                )
                 key = (args, frozenset(kwargs.items()))
                 cache = self._cache.setdefault(inner, {})
                 if key not in cache:
-- 
2.43.0


From b2516aac68dba2399cf840f5cc886257a1588b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 79/83] fix: vary only the parts said to be free when deciding
 whether they can be varied together

---
 .../src/hypothesis/internal/conjecture/shrinker.py        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
index 8786c25..6dfa9d2 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
@@ -592,7 +592,12 @@ class Shrinker:
         if len(self.shrink_target.slice_comments) <= 1:
             return
         n_same_failures_together = 0
-        chunks_by_start_index = sorted(chunks.items())
+        chunks_by_start_index = sorted(
+            (arg_slice, ls)
+            for arg_slice, ls in chunks.items()
+            # Parts which matter are tried too, but must stay as they are here.
+            if arg_slice in self.shrink_target.slice_comments
+        )
         for _ in range(500):  # pragma: no branch
             # no-branch here because we don't coverage-test the abort-at-500 logic.
             new_choices: list[ChoiceT] = []
@@ -602,6 +607,7 @@ class Shrinker:
                 new_choices.extend(choices[prev_end:start])
                 new_choices.extend(self.random.choice(ls))
                 prev_end = end
+            new_choices.extend(choices[prev_end:])
 
             result = self.engine.cached_test_function(new_choices)
 
-- 
2.43.0


From 2e59a89e0f6e1bbc237e4e72d342fb3942439786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 80/83] fix: replace variable-length parts with random values
 when explaining which parts matter

---
 .../src/hypothesis/internal/conjecture/shrinker.py    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
index 6dfa9d2..1ef12ff 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
@@ -547,7 +547,16 @@ class Shrinker:
                     len(attempt) == len(result.choices)
                     and endswith(result.nodes, nodes[end:])
                 ):
-                    # Turns out this was a variable-length part, so grab the infix...
+                    # Turns out this was a variable-length part.  So far it has been
+                    # extended by (misreading) the choices for whatever comes next,
+                    # which always gives much the same value; extend it at random
+                    # instead, and grab the infix...
+                    result = self.engine.cached_test_function(
+                        choices[:start] + tuple(replacement), extend="full"
+                    )
+                    if result.status is Status.OVERRUN:
+                        continue  # pragma: no cover
+                    result = cast(ConjectureResult, result)
                     for span1, span2 in zip(shrink_target.spans, result.spans):
                         assert span1.start == span2.start
                         assert span1.start <= start
-- 
2.43.0


From 1f67b83b377cb3cf4061fc34b7e95587d4de4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:36 +0000
Subject: [PATCH 81/83] fix: keep apart the cases of tests which are
 parametrized by fixtures or by a hook

---
 hypothesis-python/src/_hypothesis_pytestplugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/_hypothesis_pytestplugin.py b/hypothesis-python/src/_hypothesis_pytestplugin.py
index 5266c85..b2fb3b5 100644
--- a/hypothesis-python/src/_hypothesis_pytestplugin.py
+++ b/hypothesis-python/src/_hypothesis_pytestplugin.py
@@ -258,7 +258,6 @@ else:
 
             # Check for suspicious use of function-scoped fixtures, but only
             # if the corresponding health check is not suppressed.
-            fixture_params = False
             if not set(settings.suppress_health_check).issuperset(
                 {HealthCheck.function_scoped_fixture, HealthCheck.differing_executors}
             ):
@@ -272,7 +271,6 @@ else:
                     if argnames is None:
                         argnames = frozenset(signature(item.function).parameters)
                     for fx in fx_defs:
-                        fixture_params |= bool(fx.params)
                         if fx.argname in argnames:
                             active_fx = item._request._get_active_fixturedef(fx.argname)
                             if active_fx.scope == "function":
@@ -282,7 +280,9 @@ else:
                                     HealthCheck.function_scoped_fixture,
                                 )
 
-            if fixture_params or (item.get_closest_marker("parametrize") is not None):
+            # `callspec` tells of parametrization by mark, fixture, or generate_tests hook,
+            # whether or not we have already suppressed this check for an earlier item.
+            if hasattr(item, "callspec"):
                 # Disable the differing_executors health check due to false alarms:
                 # see https://github.com/HypothesisWorks/hypothesis/issues/3733
                 from hypothesis import settings as Settings
-- 
2.43.0


From 23a98afdc10393f069a889818c460467ae3ffbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 82/83] fix: patches keep the rest of the file as it is, and
 change the right function

---
 .../src/hypothesis/extra/_patching.py         | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/extra/_patching.py b/hypothesis-python/src/hypothesis/extra/_patching.py
index 0532a35..840aa0e 100644
--- a/hypothesis-python/src/hypothesis/extra/_patching.py
+++ b/hypothesis-python/src/hypothesis/extra/_patching.py
@@ -52,15 +52,6 @@ Subject: [PATCH] {{msg}}
 ---
 """
 FAIL_MSG = "discovered failure"
-_space_only_re = re.compile("^ +$", re.MULTILINE)
-_leading_space_re = re.compile("(^[ ]*)(?:[^ \n])", re.MULTILINE)
-
-
-def dedent(text):
-    # Simplified textwrap.dedent, for valid Python source code only
-    text = _space_only_re.sub("", text)
-    prefix = min(_leading_space_re.findall(text), key=len)
-    return re.sub(r"(?m)^" + prefix, "", text), prefix
 
 
 def indent(text: str, prefix: str) -> str:
@@ -146,6 +137,13 @@ def get_patch_for(func, failing_examples, *, strip_via=()):
         module = sys.modules[func.__module__]
         fname = Path(module.__file__).relative_to(Path.cwd())
         before = inspect.getsource(func)
+        # If there is a copy of this function, e.g. as a method of another class, we
+        # include preceding lines until we know which one is meant.
+        context = ""
+        source, lineno = inspect.findsource(inspect.unwrap(func))
+        while "".join(source).count(context + before) > 1 and lineno > 0:
+            lineno -= 1
+            context = source[lineno] + context
     except Exception:
         return None
 
@@ -219,9 +217,12 @@ def get_patch_for(func, failing_examples, *, strip_via=()):
         decorator_func = "example"
 
     # Do the codemod and return a triple containing location and replacement info.
-    dedented, prefix = dedent(before)
+    # An indented function is parsed as the body of a block, because changing its
+    # indentation could change e.g. empty lines and the contents of its strings.
+    prefix = before[: len(before) - len(before.lstrip(" \t"))]
+    block = "if True:\n" if prefix else ""
     try:
-        node = cst.parse_module(dedented)
+        node = cst.parse_module(block + before)
     except Exception:  # pragma: no cover
         # inspect.getsource() sometimes returns a decorator alone, which is invalid
         return None
@@ -232,7 +233,7 @@ def get_patch_for(func, failing_examples, *, strip_via=()):
         dec=decorator_func,
         width=88 - len(prefix),  # to match Black's default formatting
     ).transform_module(node)
-    return (str(fname), before, indent(after.code, prefix=prefix))
+    return (str(fname), context + before, context + after.code[len(block) :])
 
 
 def make_patch(triples, *, msg="Hypothesis: add explicit examples", when=None):
@@ -246,16 +247,25 @@ def make_patch(triples, *, msg="Hypothesis: add explicit examples", when=None):
 
     diffs = [HEADER.format(msg=msg, when=when)]
     for fname, changes in sorted(by_fname.items()):
-        source_before = source_after = fname.read_text(encoding="utf-8")
+        with fname.open(encoding="utf-8", newline="") as f:
+            source_before = source_after = f.read()
+        newline = "\r\n" if "\r\n" in source_before else "\n"
         for before, after in changes:
-            source_after = source_after.replace(before.rstrip(), after.rstrip(), 1)
+            source_after = source_after.replace(
+                before.rstrip().replace("\n", newline),
+                after.rstrip().replace("\n", newline),
+                1,
+            )
         ud = difflib.unified_diff(
             source_before.splitlines(keepends=True),
             source_after.splitlines(keepends=True),
             fromfile=f"./{fname}",  # git strips the first part of the path by default
             tofile=f"./{fname}",
         )
-        diffs.append("".join(ud))
+        diffs.extend(
+            line if line.endswith("\n") else f"{line}\n\\ No newline at end of file\n"
+            for line in ud
+        )
     return "".join(diffs)
 
 
@@ -266,7 +276,7 @@ def save_patch(patch: str, *, slug: str = "") -> Path:  # pragma: no cover
     hash8 = hashlib.sha1(cleaned.encode()).hexdigest()[:8]
     fname = Path(storage_directory("patches", f"{now}--{slug}{hash8}.patch"))
     fname.parent.mkdir(parents=True, exist_ok=True)
-    fname.write_text(patch, encoding="utf-8")
+    fname.write_bytes(patch.encode())  # keeping the line endings of each file
     return fname.relative_to(Path.cwd())
 
 
-- 
2.43.0


From f2fb64b1199aa8a5639200d4e62dadaff06ec465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 83/83] fix: codemods leave alone what they cannot resolve or
 did not understand

---
 .../src/hypothesis/extra/codemods.py          | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/extra/codemods.py b/hypothesis-python/src/hypothesis/extra/codemods.py
index f39ad34..21e2ecb 100644
--- a/hypothesis-python/src/hypothesis/extra/codemods.py
+++ b/hypothesis-python/src/hypothesis/extra/codemods.py
@@ -77,8 +77,9 @@ def match_qualname(name):
         cst.metadata.QualifiedNameProvider,
         # If there are multiple possible qualnames, e.g. due to conditional imports,
         # be conservative.  Better to leave the user to fix a few things by hand than
-        # to break their code while attempting to refactor it!
-        lambda qualnames: all(n.name == name for n in qualnames),
+        # to break their code while attempting to refactor it!  Likewise if there are
+        # none, i.e. for names and attributes which we cannot resolve.
+        lambda qualnames: {n.name for n in qualnames} == {name},
     )
 
 
@@ -94,15 +95,15 @@ class HypothesisFixComplexMinMagnitude(VisitorBasedCodemodCommand):
     DESCRIPTION = "Fix a deprecated min_magnitude=None argument for complex numbers."
     METADATA_DEPENDENCIES = (cst.metadata.QualifiedNameProvider,)
 
-    @m.call_if_inside(
-        m.Call(metadata=match_qualname("hypothesis.strategies.complex_numbers"))
-    )
-    def leave_Arg(self, original_node, updated_node):
-        if m.matches(
-            updated_node, m.Arg(keyword=m.Name("min_magnitude"), value=m.Name("None"))
-        ):
-            return updated_node.with_changes(value=cst.Integer("0"))
-        return updated_node
+    @m.leave(m.Call(metadata=match_qualname("hypothesis.strategies.complex_numbers")))
+    def fix_min_magnitude(self, original_node, updated_node):
+        none = m.Arg(keyword=m.Name("min_magnitude"), value=m.Name("None"))
+        return updated_node.with_changes(
+            args=[
+                a.with_changes(value=cst.Integer("0")) if m.matches(a, none) else a
+                for a in updated_node.args
+            ]
+        )
 
 
 @functools.lru_cache
@@ -206,6 +207,10 @@ class HypothesisFixPositionalKeywonlyArgs(VisitorBasedCodemodCommand):
         if len(updated_node.args) > len(params):
             return updated_node
 
+        # We can't tell which parameters get the positional arguments after *args.
+        if any(arg.star == "*" for arg in updated_node.args):
+            return updated_node
+
         # Create new arg nodes with the newly required keywords
         assign_nospace = cst.AssignEqual(
             whitespace_before=cst.SimpleWhitespace(""),
@@ -271,10 +276,13 @@ class HypothesisFixCharactersArguments(VisitorBasedCodemodCommand):
         # Update to the new names
         newargs = []
         for arg in updated_node.args:
-            kw = self._replacements.get(arg.keyword.value, arg.keyword.value)
-            newargs.append(arg.with_changes(keyword=cst.Name(kw)))
+            if arg.keyword is not None and arg.keyword.value in self._replacements:
+                kw = self._replacements[arg.keyword.value]
+                arg = arg.with_changes(keyword=cst.Name(kw))
+            newargs.append(arg)
         # Drop redundant exclude_categories, which is now an error
-        if any(m.matches(arg, m.Arg(keyword=m.Name("categories"))) for arg in newargs):
+        categories = m.Arg(keyword=m.Name("categories"), value=~m.Name("None"))
+        if any(m.matches(arg, categories) for arg in newargs):
             ex = m.Arg(keyword=m.Name("exclude_categories"))
             newargs = [a for a in newargs if m.matches(a, ~ex)]
         return updated_node.with_changes(args=newargs)
-- 
2.43.0

