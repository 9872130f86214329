From 3b9cc818968cd406d775136d34596dbbd023aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 01/40] fix: match a trailing shape fragment at the end of the
 shape after '...'

---
 asta/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..c385537 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -90,8 +90,15 @@ def shapecheck(
         ishape = inst_shape
         for i, frag in enumerate(frags):
 
+            # The last fragment can only be found at the end of ``ishape`` if
+            # '...' is not the last element of ``cls_shape``.
+            start = 0
+            if i == len(frags) - 1 and not right_bookend:
+                start = max(len(ishape) - len(frag), 0)
+
             # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
+            is_sub, index, equations = is_subtuple(frag, ishape[start:], equations)
+            index += start
 
             # Must have ``frag`` contained in ``ishape``.
             if not is_sub:
-- 
2.43.0


From 3e85931cd1f84fa3384a82d740d0057fbb9b5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 02/40] fix: support symbols next to wildcards and ellipses in
 a shape

The shape was split through strings of integers, so an annotation such as
Array[X, ...] or Array[-1, X] raised an AssertionError in isinstance(), and
the equations of rejected alignments were kept.
---
 asta/utils.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index c385537..54a24f6 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -222,9 +222,10 @@ def is_subtuple(
     assert isinstance(sub, tuple)
     assert isinstance(tup, tuple)
     for i in range(len(tup) - len(sub) + 1):
-        equal, equations = check_equal(sub, tup[i : i + len(sub)], equations)
-        if equal:
-            return True, i, equations
+        # Don't keep the equations of an alignment which turns out not to match.
+        equal, candidate = check_equal(sub, tup[i : i + len(sub)], set(equations))
+        if equal and astasolver(candidate)[0]:
+            return True, i, candidate
     return False, -1, equations
 
 
@@ -233,24 +234,16 @@ def split(
     elem: Union[int, EllipsisType],  # type: ignore[valid-type]
 ) -> List[Tuple[int, ...]]:
     """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
-        if num == elem:
-            tokens.append("@")
-        else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
-
     result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
+    frag: List[int] = []
+    for num in shape:
+        if num != elem:
+            frag.append(num)
+        elif frag:
+            result.append(tuple(frag))
+            frag = []
+    if frag:
+        result.append(tuple(frag))
 
     return result
 
-- 
2.43.0


From 4da7052db6b8325c0bc6456afe5fda991c619214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 03/40] fix: accept attribute dictionaries in subscripts

Dictionaries are not hashable, so hashing the subscript to recognise Scalar
raised a TypeError for every annotation with attributes, like
Array[int, 3, {'timestep': 1}].
---
 asta/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index f2b65d4..799491f 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -43,7 +43,7 @@ def parse_subscript(
     shape: Optional[Tuple] = cls.shape
     kwattrs: Optional[Dict[str, Any]] = cls.kwattrs
 
-    isscalar = hash(item) == hash(Scalar)
+    isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
         shape = None
@@ -68,7 +68,7 @@ def parse_subscript(
     elif item:
 
         # Case where generic type is specified.
-        isscalar = hash(item[0]) == hash(Scalar)
+        isscalar = item[0] is Scalar
         if isinstance(item[0], (type, dtype_metaclass)) and not isscalar:
             dtype, kind = cls.get_dtype(item[0])
             item = item[1:]
-- 
2.43.0


From 0a1a933051849e5ebfc2df06f549a7b0568d0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 04/40] fix: keep the shape of an alias when a dtype or
 attributes are added

Array[3][int] dropped the shape, although subscripting an alias combines the
subscripts (see README).
---
 asta/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index 799491f..7c6da9c 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -46,12 +46,10 @@ def parse_subscript(
     isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
-        shape = None
 
     # Adding support for kwargs.
     elif isinstance(item, dict):
         kwattrs = item
-        shape = None
 
     # Case where dtype is Any and shape is scalar.
     elif item in (Scalar, ()):
-- 
2.43.0


From 01ccd945e9eca61aa0479f2cf5421b3208646ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 05/40] fix: check attributes and unsized dtypes of decorated
 parameters

refresh() rebuilt annotations from their dtype and shape alone, so that
@typechecked rejected every argument for Array[str] and Array[bytes], and never
looked at attribute dictionaries.
---
 asta/origins.py | 38 +++++++-------------------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..05a9528 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -23,9 +23,7 @@ from typing import (
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.array import Array
 from asta.utils import attrcheck, shapecheck
-from asta._array import _ArrayMeta
 from asta.classes import SubscriptableMeta
 from asta.display import (
     fail_io,
@@ -57,23 +55,9 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
-from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
+from asta.constants import NoneType, tf, torch
 from asta.substitution import substitute
 
-METAMAP: Dict[type, SubscriptableMeta] = {_ArrayMeta: Array}
-
-if _TORCH_IMPORTED:
-    from asta.tensor import Tensor
-    from asta._tensor import _TensorMeta
-
-    METAMAP[_TensorMeta] = Tensor
-
-if _TENSORFLOW_IMPORTED:
-    from asta.tftensor import TFTensor
-    from asta._tftensor import _TFTensorMeta
-
-    METAMAP[_TFTensorMeta] = TFTensor
-
 try:
     from typing import Literal  # type: ignore[attr-defined]
 except ImportError:
@@ -86,7 +70,6 @@ def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
     """ Load an asta type annotation containing classical placeholders. """
-    dtype = annotation.dtype
     shape = annotation.shape
     dimvars: List[Any] = []
     initialized = True
@@ -105,19 +88,11 @@ def refresh(
         dimvars = unpacked
 
         shape = tuple(dimvars)
-    # Note we're guaranteed that ``annotation`` has type ``SubscriptableMeta``.
-    subscriptable_class = METAMAP[type(annotation)]
 
-    refreshed_annotation: SubscriptableMeta
+    # Subscripting ``annotation`` keeps its dtype and attributes.
+    refreshed_annotation: SubscriptableMeta = annotation
     if shape is not None:
-        if dtype is not None:
-            refreshed_annotation = subscriptable_class[dtype, shape]  # type: ignore
-        else:
-            refreshed_annotation = subscriptable_class[shape]  # type: ignore
-    elif dtype is not None:
-        refreshed_annotation = subscriptable_class[dtype]
-    else:
-        refreshed_annotation = annotation
+        refreshed_annotation = annotation[shape]
 
     return refreshed_annotation, initialized
 
@@ -159,9 +134,10 @@ def check_asta(
 
             # Grab equations from shapecheck call.
             shape_match, shape_equations = shapecheck(value_shape, annotation.shape)
-            attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
-            assert shape_match and attr_match
+            assert shape_match
 
+        attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
+        assert attr_match
         equations = equations.union(shape_equations, attr_equations)
 
     return equations
-- 
2.43.0


From f1716e4aee608159be374e6058d09395d4e6ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 06/40] fix: make annotation equality agree with what
 annotations check

A subscripted class inherited the cached hash of the class it was made from, and
numpy considers np.dtype('float64') == None, so that Array[float] == Array, and
List[Array[float]] could be served from typing's cache as List[Array].
Attributes and unsized dtypes now count for equality too.
---
 asta/_array.py    | 5 +++++
 asta/_tensor.py   | 2 ++
 asta/_tftensor.py | 3 ++-
 asta/classes.py   | 4 +++-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..578d6c4 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -43,8 +43,13 @@ class _ArrayMeta(SubscriptableMeta):
         """ If the dtypes and shapes match, they should be equal. """
         if not isinstance(other, _ArrayMeta):
             return False
+        # Note that numpy considers ``np.dtype("float64") == None``.
+        if (cls.dtype is None) != (other.dtype is None) or cls.kind != other.kind:
+            return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if (cls.kwattrs or {}) != (other.kwattrs or {}):
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tensor.py b/asta/_tensor.py
index dffe415..7332202 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -38,6 +38,8 @@ class _TensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if (cls.kwattrs or {}) != (other.kwattrs or {}):
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 3eda61a..4abf428 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -32,13 +32,14 @@ class _TFTensorMeta(SubscriptableMeta):
         """ Defer to the metaclass which calls ``cls._after_subscription()``. """
         return SubscriptableMeta.__getitem__(cls, item)
 
-    # TODO: Include kwattrs for each of these classes.
     def __eq__(cls, other: Any) -> bool:
         """ If the dtypes and shapes match, they should be equal. """
         if not isinstance(other, _TFTensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if (cls.kwattrs or {}) != (other.kwattrs or {}):
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..98df318 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -81,6 +81,7 @@ class SubscriptableMeta(GenericMeta):
             **cls.__dict__,
             "__args__": item,
             "__origin__": cls,
+            "_hash": 0,
         }
         bases = cls, *cls.__bases__
         result: GenericMeta = type(cls.__name__, bases, body)  # type: ignore
@@ -109,7 +110,8 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
         if not getattr(cls, "_hash", None):
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{cls.kwattrs}")
+            attrs = sorted(cls.kwattrs) if cls.kwattrs else []
+            cls._hash = hash(f"{cls.shape}{cls.dtype}{attrs}")
         return cls._hash
 
     def __repr__(cls) -> str:
-- 
2.43.0


From fe4e6812842ee3e26f5e70a6d5490cb408bf8ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 07/40] fix: accept bare generics such as List and Dict as
 annotations

Since Python 3.9 they have no __args__, so calling a function with such a
parameter raised an AttributeError.
---
 asta/origins.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 05a9528..a4cd367 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -292,6 +292,12 @@ def check_tuple(
     return equations
 
 
+def is_parametrized(annotation: Any) -> bool:
+    """ Whether a generic has arguments to check (a bare ``List`` has none). """
+    args = getattr(annotation, "__args__", None)
+    return args not in (None, getattr(annotation, "__parameters__", None))
+
+
 def check_list(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
@@ -301,7 +307,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -325,7 +331,7 @@ def check_sequence(
         fail_sequence(name, annotation, qualified_name(value), ox)
 
     # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    if is_parametrized(annotation):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -350,7 +356,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -375,7 +381,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
-- 
2.43.0


From 85e6476b9c3c59489409164f5446854d8f4281b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 08/40] fix: dispatch annotations whose origin has no asta
 checker

---
 asta/origins.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index a4cd367..536c41e 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -527,12 +527,11 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
-        if ox.check_non_asta_types:
-            checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
+        checker_fn: Callable = ORIGIN_TYPE_CHECKERS.get(origin)  # type: ignore
         if checker_fn:
             equations = checker_fn(name, value, annotation, equations, ox)
+        elif ox.check_non_asta_types and origin in NON_ASTA_CHECKERS:
+            NON_ASTA_CHECKERS[origin](name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
     elif inspect.isclass(annotation):
-- 
2.43.0


From ddffb40e237cc79e1d22496fae19acffb62d6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 09/40] fix: don't treat every dict subclass as a TypedDict

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 536c41e..167f716 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -541,7 +541,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From 779a669973509c092f9c4a4fd6c82549d9606edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:09 +0000
Subject: [PATCH 10/40] fix: accept any value for a parameter annotated with
 Any

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 167f716..c16d3e1 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -526,6 +526,10 @@ def check_annotation(
     if isinstance(annotation, SubscriptableMeta):
         equations = check_asta(name, value, annotation, equations, ox)
 
+    # Anything goes (note that ``Any`` is a class on Python 3.11+).
+    elif annotation is Any:
+        return equations
+
     elif origin is not None:
         checker_fn: Callable = ORIGIN_TYPE_CHECKERS.get(origin)  # type: ignore
         if checker_fn:
-- 
2.43.0


From 47744755d4e146745ba72427f6e49e6e2676cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 11/40] fix: accept bare Callable and callables with optional
 parameters

---
 asta/origins.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index c16d3e1..72422ea 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -181,7 +181,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
@@ -208,16 +208,21 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
                 # NOTE: Should this output a warning?
                 return
 
+            positional_params = [
+                param
+                for param in signature.parameters.values()
+                if param.kind
+                in (
+                    inspect.Parameter.POSITIONAL_ONLY,
+                    inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                )
+            ]
+            num_positional_args = len(positional_params)
             num_mandatory_args = len(
                 [
                     param.name
-                    for param in signature.parameters.values()
-                    if param.kind
-                    in (
-                        inspect.Parameter.POSITIONAL_ONLY,
-                        inspect.Parameter.POSITIONAL_OR_KEYWORD,
-                    )
-                    and param.default is inspect.Parameter.empty
+                    for param in positional_params
+                    if param.default is inspect.Parameter.empty
                 ]
             )
             has_varargs = any(
@@ -229,8 +234,8 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
             # NOTE: Consider adding true recursive checking.
             if num_mandatory_args > len(argument_types):
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
-            elif not has_varargs and num_mandatory_args < len(argument_types):
-                fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
+            elif not has_varargs and num_positional_args < len(argument_types):
+                fail_too_few_args(name, len(argument_types), num_positional_args, ox)
     return
 
 
-- 
2.43.0


From 16fad804ccf436316c671714156625fe0ed4521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 12/40] fix: check Type of non-classes and subclasses of float
 correctly

---
 asta/origins.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 72422ea..1fbd3e5 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -430,8 +430,12 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     if annotation is Type:
         return
 
+    # Only a class can be compared (not ``Any``, a type variable, ...).
     expected_class = annotation.__args__[0] if annotation.__args__ else None
-    if expected_class and not issubclass(value, expected_class):
+    if expected_class is Any or not inspect.isclass(expected_class):
+        return
+
+    if not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
 
@@ -555,7 +559,7 @@ def check_annotation(
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
         elif ox.check_non_asta_types:
-            if issubclass(annotation, (float, complex)):
+            if annotation in (float, complex):
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-- 
2.43.0


From 9f7897eadac9ad51539b04f401c90ed1c46524c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 13/40] fix: check the fields of a NamedTuple

---
 asta/origins.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 1fbd3e5..35c19d4 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -245,14 +245,18 @@ def check_tuple(
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if hasattr(annotation, "_fields"):
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
-        # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
+        # Note that ``_field_types`` was removed in Python 3.9.
+        field_types: Dict[str, Any] = {}
+        for cls in reversed(annotation.__mro__):
+            field_types.update(vars(cls).get("__annotations__", {}))
+        for subname in annotation._fields:
+            field_type = field_types.get(subname, Any)
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
-- 
2.43.0


From d0023375a98b3501f805ff1bcd602584c735777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 14/40] fix: reject nonempty tuples for Tuple[()] and report
 lengths the right way round

---
 asta/origins.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 35c19d4..ad7e4d7 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -264,6 +264,11 @@ def check_tuple(
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
+    # Note that ``Tuple[()]`` has no arguments on Python 3.11+.
+    elif annotation is not Tuple and getattr(annotation, "__args__", None) == ():
+        if value != ():
+            fail_empty_tuple(name, qualified_name(value), ox)
+
     elif not getattr(annotation, "__args__", None):
         # Unparametrized Tuple or plain tuple.
         pass
@@ -290,7 +295,7 @@ def check_tuple(
         else:
             if len(value) != len(tuple_params):
                 ann_rep = qualified_name(annotation)
-                fail_tuple_length(name, len(tuple_params), ann_rep, len(value), ox)
+                fail_tuple_length(name, len(value), ann_rep, len(tuple_params), ox)
                 return equations
 
             for i, (elem, elem_type) in enumerate(zip(value, tuple_params)):
@@ -469,7 +474,7 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
     if not issubclass(type(value), annotation):
-        fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
+        fail_protocol(name, annotation.__qualname__, type(value).__qualname__, ox)
 
 
 def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
-- 
2.43.0


From 5af9e3b946ae6bdbba83350aa813a6afb6a3985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 15/40] fix: stop checking a value of the wrong container type
 when errors are printed

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index ad7e4d7..7022819 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -180,6 +180,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     """ Check an argument with annotation ``callable`` or ``Callable[]``. """
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
+        return
 
     if getattr(annotation, "__args__", None):
         try:
@@ -318,6 +319,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -343,6 +345,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Consider removing this test or even just figuring out what it does?
     if is_parametrized(annotation):
@@ -392,6 +395,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
@@ -434,6 +438,7 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return
 
     # Needed on Python 3.7+
     if annotation is Type:
-- 
2.43.0


From c946f744f4cff4b8d09ce20658107a8af5bcec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 16/40] fix: don't report failures for union alternatives when
 another one matches

---
 asta/origins.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 7022819..381f52d 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -422,12 +422,16 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
+    # An alternative which doesn't match is not a failure: find the first match
+    # with errors raised and nothing printed, whatever the configuration says.
+    settings = {key: val for key, val in ox.settings.items() if key != "decorated"}
+    trial = Oxentiel({**settings, "raise_errors": True, "print_passes": False})
     for type_ in union_params:
         try:
-            equations = check_annotation(name, value, type_, equations, ox)
-            return equations
+            check_annotation(name, value, type_, equations, trial)
         except TypeError as _err:
-            pass
+            continue
+        return check_annotation(name, value, type_, equations, ox)
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From 9479c903097d067f1072bed1dfad7b66d01aec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 17/40] fix: skip union alternatives which contradict the sizes
 inferred so far

---
 asta/origins.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 381f52d..a907ae2 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -23,7 +23,7 @@ from typing import (
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.classes import SubscriptableMeta
 from asta.display import (
     fail_io,
@@ -428,9 +428,13 @@ def check_union(
     trial = Oxentiel({**settings, "raise_errors": True, "print_passes": False})
     for type_ in union_params:
         try:
-            check_annotation(name, value, type_, equations, trial)
+            trial_equations = check_annotation(name, value, type_, equations, trial)
         except TypeError as _err:
             continue
+
+        # It must also agree with the sizes inferred so far.
+        if not astasolver(set(trial_equations))[0]:
+            continue
         return check_annotation(name, value, type_, equations, ox)
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
-- 
2.43.0


From f2badb8e438237963dd83b0b8ae4f90bcd5a3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 18/40] fix: read ASTA_TYPECHECK for each decoration instead of
 switching off for good

---
 asta/decorators.py | 5 +++--
 asta/warning.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..62bf7ad 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -83,9 +83,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         The decorated version of ``decorated``.
     """
     ox: Oxentiel = get_ox()
+    on: bool = ox.on
     if "ASTA_TYPECHECK" in os.environ:
-        ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-    if not ox.on:
+        on = on and os.environ["ASTA_TYPECHECK"] == "1"
+    if not on:
         return decorated
 
     # Treat classes.
diff --git a/asta/warning.py b/asta/warning.py
index c04496e..768e5b6 100644
--- a/asta/warning.py
+++ b/asta/warning.py
@@ -11,9 +11,10 @@ from asta.constants import Color
 # pylint: disable=invalid-name
 
 ox: Oxentiel = get_ox()
+on: bool = ox.on
 if "ASTA_TYPECHECK" in os.environ:
-    ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-if ox.on and not ox.print_passes:
+    on = on and os.environ["ASTA_TYPECHECK"] == "1"
+if on and not ox.print_passes:
     BORDER = "#" * 100
     BORDER = f"{Color.BOLD}{BORDER}{Color.END}"
     INNER = "-" * 100
-- 
2.43.0


From 112c4c7b69188287feecf7b0d144d11bc19e4afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 19/40] fix: read the configuration from setup.cfg and
 pyproject.toml

---
 asta/config.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..10506fd 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -70,17 +70,16 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 
 def find_astarc() -> Optional[str]:
-    """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
+    """ Look for a config file. Return it if found, else return ``None``. """
     for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
+        return config_file
     return None
 
 
 # pylint: disable=protected-access
 def read_config(config_path: str) -> configparser.ConfigParser:
     """ Parse a config file from ``config_path``, given a file exists there. """
-    parser = configparser.ConfigParser()
+    parser = configparser.ConfigParser(interpolation=None)
     if config_path.endswith(".toml"):
         with open(config_path, "r") as toml_file:
             content = toml.load(toml_file)
@@ -91,6 +90,11 @@ def read_config(config_path: str) -> configparser.ConfigParser:
             pass
         else:
             for section, values in sections_values.items():
+                if not isinstance(values, dict):
+                    continue
+                for key, val in values.items():
+                    if isinstance(val, bool):
+                        values[key] = "yes" if val else "no"
                 parser._sections[section.upper()] = values  # type: ignore[attr-defined]
     else:
         # Use this encoding in order to strip the BOM marker, if any.
@@ -98,10 +102,11 @@ def read_config(config_path: str) -> configparser.ConfigParser:
             parser.read_file(config_file)
 
         # Normalize sections' titles.
-        for sect, values in list(parser._sections.items()):  # type: ignore
+        for title, values in list(parser._sections.items()):  # type: ignore
+            sect = title
             if sect.startswith("asta."):
                 sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
+            if sect.upper() != title and values:
                 parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
     return parser
 
-- 
2.43.0


From 1326995e97e25e6a5daacdfefd699479d3d4a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 20/40] fix: support a tuple to the left of a shape placeholder
 in a sum

---
 asta/placeholder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..f945802 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -56,3 +56,10 @@ class Placeholder:
         result.contents = sum_contents
         result.composite = True
         return result
+
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation when the left operand is a tuple. """
+        result = self + summand
+        own_contents = self.contents if self.contents else [self]
+        result.contents = [summand] + own_contents
+        return result
-- 
2.43.0


From 460ba7249ea8fdd9ce80cf3498440952cde51f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 21/40] fix: bind arguments to parameters the way Python does

---
 asta/decorators.py | 50 +++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 62bf7ad..875ac98 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -22,39 +22,25 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     args other than class references (self, cls, mcs), and keyword arguments in
     kwargs with defaults filled in.
     """
-    num_annots = len(annotations)
-    num_non_return_annots = num_annots
-    if "return" in annotations:
-        num_non_return_annots -= 1
-
-    # Get the parameter list from the function signature.
+    # Raises a TypeError if the arguments don't fit the signature.
     sig = inspect.signature(decorated)
-    paramlist = list(sig.parameters)
-
-    # Get a list of kwargs with defaults filled-in.
-    defaults: Dict[str, Any] = {}
-    for k, v in sig.parameters.items():
-        if v.default is not inspect.Parameter.empty:
-            defaults[k] = v.default
+    bound = sig.bind(*args, **kwargs)
+    bound.apply_defaults()
 
-    checkable_args: Dict[str, Any] = defaults.copy()
-    checkable_args.update(kwargs)
+    checkable_args: Dict[str, Any] = dict(bound.arguments)
 
     # Remove unannotated instance/class/metaclass reference.
-    pure_args = args
     refs = ("self", "cls", "mcs")
-
-    if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
-        pure_args = pure_args[1:]  # type: ignore[assignment]
-    for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
-        checkable_args[name] = arg
+    paramlist = list(sig.parameters)
+    if paramlist and paramlist[0] in refs and paramlist[0] not in annotations:
+        del checkable_args[paramlist[0]]
 
     # Check for mismatch between lengths of arguments/annotations.
-    if num_non_return_annots != len(checkable_args):
+    num_annots = len([name for name in checkable_args if name in annotations])
+    if num_annots != len(checkable_args):
         num_annot_err = f"Mismatch between number of annotated "
         num_annot_err += f"non-(self / cls / mcs) parameters "
-        num_annot_err += f"'({num_non_return_annots})' and number of arguments "
+        num_annot_err += f"'({num_annots})' and number of arguments "
         num_annot_err += f"'({len(checkable_args)})'. "
         num_annot_err += f"Possible causes: wrong number of arguments, or missing"
         num_annot_err += f"type hint."
@@ -64,6 +50,20 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     return checkable_args
 
 
+def get_annotations(decorated) -> Dict[str, Any]:  # type: ignore[no-untyped-def]
+    """ The annotations of the value bound to each parameter of ``decorated``. """
+    annotations: Dict[str, Any] = dict(decorated.__annotations__)
+
+    # ``*args: T`` and ``**kwargs: T`` annotate each of the arguments collected.
+    for name, param in inspect.signature(decorated).parameters.items():
+        if name in annotations and param.kind is inspect.Parameter.VAR_POSITIONAL:
+            annotations[name] = Tuple[annotations[name], ...]
+        if name in annotations and param.kind is inspect.Parameter.VAR_KEYWORD:
+            annotations[name] = Dict[str, annotations[name]]  # type: ignore[misc]
+
+    return annotations
+
+
 def typechecked(decorated):  # type: ignore[no-untyped-def]
     """
     Typecheck a function annotated with ``asta`` type objects. This decorator
@@ -133,7 +133,7 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         handle_pass(header, ox)
 
         equations: Set[Expr] = set()
-        annotations: Dict[str, Any] = decorated.__annotations__
+        annotations: Dict[str, Any] = get_annotations(decorated)
         checkable_args: Dict[str, Any] = validate_annotations(
             decorated,
             annotations,
-- 
2.43.0


From 6b523a57d264ffd03bb8a49eba896d6f695c1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 22/40] fix: keep the signature and documentation of decorated
 functions

---
 asta/decorators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 875ac98..3783cc8 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -3,6 +3,7 @@
 """ Defines the ``@typechecked`` decorator. """
 import os
 import inspect
+import functools
 from typing import Any, Set, Dict, Tuple
 
 from oxentiel import Oxentiel
@@ -124,6 +125,7 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
 
         return decorated
 
+    @functools.wraps(decorated)
     def _wrapper(*args: Tuple[Any], **kwargs: Dict[str, Any]) -> Any:
         """ Decorated/typechecked function. """
 
@@ -169,7 +171,4 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
 
         return ret
 
-    _wrapper.__module__ = decorated.__module__
-    _wrapper.__name__ = decorated.__name__
-
     return _wrapper
-- 
2.43.0


From 4769adc53567d9af60ef61aa06a426d223a302b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 23/40] fix: decorate nested classes and classmethod or
 staticmethod objects

---
 asta/decorators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 3783cc8..82aad5e 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -90,6 +90,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
     if not on:
         return decorated
 
+    # Treat ``@typechecked`` above ``@classmethod`` or ``@staticmethod``.
+    if isinstance(decorated, (classmethod, staticmethod)):
+        return type(decorated)(typechecked(decorated.__func__))
+
     # Treat classes.
     if inspect.isclass(decorated):
 
@@ -105,9 +109,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
                 or inspect.ismethod(attr)
                 or inspect.isclass(attr)
             ):
-                # If the name prefix matches and it has annotations.
-                if attr.__qualname__.startswith(prefix) and getattr(
-                    attr, "__annotations__", None
+                # If the name prefix matches and it has annotations. Nested classes
+                # needn't have any for their methods to have some.
+                if attr.__qualname__.startswith(prefix) and (
+                    inspect.isclass(attr) or getattr(attr, "__annotations__", None)
                 ):
 
                     # Decorate the method/function/class.
-- 
2.43.0


From 7d38b41479382e2ca06aecc82f21576da3126e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 24/40] fix: verify the dimensions in a shape tuple

---
 asta/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/parser.py b/asta/parser.py
index 7c6da9c..2b30184 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -28,6 +28,8 @@ def verify_dimensions(cls: SubscriptableMeta, item: Any) -> None:
             err = f"Invalid dimension '{dim}' of type '{type(dim)}'. "
             err += f"Valid dimension types: {cls.DIM_TYPES}"
             raise TypeError(err)
+        elif isinstance(dim, tuple):
+            verify_dimensions(cls, dim)
 
 
 def parse_subscript(
-- 
2.43.0


From 15c59dee6abe664a8e66cf901344998b811acdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 25/40] fix: accept a TensorShape next to a dtype

---
 asta/_tftensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 4abf428..15f121a 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -123,6 +123,11 @@ class _TFTensor(metaclass=_TFTensorMeta):
         """ Set class attributes based on the passed dtype/dim data. """
         if isinstance(item, tf.TensorShape):
             item = tuple(item)
+        elif isinstance(item, tuple):
+            item = tuple(
+                tuple(elem) if isinstance(elem, tf.TensorShape) else elem
+                for elem in item
+            )
         dtype, shape, kwattrs, _ = parse_subscript(cls, item, tf.dtypes.DType)
         cls.dtype = dtype
         cls.shape = shape
-- 
2.43.0


From c169a300677621ffbd925b2af1a3b3adb33852f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 26/40] fix: match datetime and timedelta arrays of any unit

---
 asta/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index 578d6c4..7100a85 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -116,8 +116,10 @@ class _Array(metaclass=_ArrayMeta):
                 kind = NP_UNSIZED_TYPE_KINDS[item]
             elif item == datetime.datetime:
                 generic_type = np.datetime64
+                kind = "M"  # Any unit will do.
             elif item == datetime.timedelta:
                 generic_type = np.timedelta64
+                kind = "m"
             else:
                 generic_type = item
             dtype = np.dtype(generic_type)
-- 
2.43.0


From 2dd4e9c7d5cfb4f371c47e23154fe8c9a5a3876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 27/40] fix: refuse arrays as subscripts with a TypeError

---
 asta/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/parser.py b/asta/parser.py
index 2b30184..53e4e0e 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -54,7 +54,8 @@ def parse_subscript(
         kwattrs = item
 
     # Case where dtype is Any and shape is scalar.
-    elif item in (Scalar, ()):
+    # Not every item can be compared with ``()`` (e.g. an ``np.ndarray``).
+    elif isscalar or (isinstance(item, tuple(cls.DIM_TYPES)) and item == ()):
         shape = ()
 
     # Case where dtype is not passed in, and there's one input.
-- 
2.43.0


From bcd890eb5b0789d4b57db1baf19999b3a76beb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 28/40] fix: compare arrays with literals without a ValueError

---
 asta/origins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index a907ae2..49de5ef 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -55,7 +55,7 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
-from asta.constants import NoneType, tf, torch
+from asta.constants import ARRAY_TYPES, NoneType, tf, torch
 from asta.substitution import substitute
 
 try:
@@ -492,7 +492,9 @@ def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
 
 def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck a value annotated with ``Literal[*]``. """
-    if value not in annotation.__args__:
+    # Arrays are never literals, and comparing them gives no single truth value.
+    is_array = isinstance(value, tuple(ARRAY_TYPES))
+    if is_array or value not in annotation.__args__:
         fail_literal(name, annotation.__args__, value, ox)
 
 
-- 
2.43.0


From 9cd8049433436f4404590c97f8533cfe2bc01f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:10 +0000
Subject: [PATCH 29/40] fix: equal Tensor annotations hash equally with a
 torch.Size

---
 asta/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asta/classes.py b/asta/classes.py
index 98df318..658136b 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -111,7 +111,9 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "kwattrs")
         if not getattr(cls, "_hash", None):
             attrs = sorted(cls.kwattrs) if cls.kwattrs else []
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{attrs}")
+            # A ``torch.Size`` is equal to a tuple, but printed differently.
+            shape = None if cls.shape is None else tuple(cls.shape)
+            cls._hash = hash(f"{shape}{cls.dtype}{attrs}")
         return cls._hash
 
     def __repr__(cls) -> str:
-- 
2.43.0


From c46775652e77ffb7bde415b7d314285396f10297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 30/40] fix: compare array-valued attributes without a
 ValueError

---
 asta/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asta/utils.py b/asta/utils.py
index 54a24f6..e8bc6d9 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -5,6 +5,7 @@ import random
 import functools
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
+import numpy as np
 from sympy import solvers, simplify
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
@@ -12,6 +13,7 @@ from sympy.core.symbol import Symbol
 from asta.constants import (
     _TORCH_IMPORTED,
     _TENSORFLOW_IMPORTED,
+    ARRAY_TYPES,
     EllipsisType,
     GenericArray,
     NonInstanceType,
@@ -182,6 +184,11 @@ def attrcheck(
             break
         if isinstance(value, Expr):
             equations.add(value - attr)
+        # Comparing arrays gives no single truth value.
+        elif isinstance(attr, tuple(ARRAY_TYPES)):
+            if not np.array_equal(attr, value):
+                match = False
+                break
         elif attr != value:
             match = False
             break
-- 
2.43.0


From 90841d610adf8230ff4c78b96b246d5cca8d2798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 31/40] fix: check the first element of sequences that cannot
 be sliced

---
 asta/origins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 49de5ef..62b4098 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
 import inspect
+import itertools
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
 from typing import (
@@ -352,9 +353,10 @@ def check_sequence(
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
+            # Not every sequence can be sliced.
             value_iterable = value
             if not ox.check_all_sequence_elements:
-                value_iterable = value_iterable[:1]
+                value_iterable = itertools.islice(value, 1)
             for i, v in enumerate(value_iterable):
                 element_equations = check_annotation(
                     f"{name}[{i}]", v, value_type, equations, ox
-- 
2.43.0


From 7761ef8670a73915a14621760f9e95ac2aadcb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 32/40] fix: check annotations written with the | operator

---
 asta/origins.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 62b4098..d813e46 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -63,6 +63,10 @@ try:
     from typing import Literal  # type: ignore[attr-defined]
 except ImportError:
     Literal = None
+try:
+    from types import UnionType  # type: ignore[attr-defined]
+except ImportError:
+    UnionType = None
 
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
@@ -557,6 +561,10 @@ def check_annotation(
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
+    # ``X | Y`` has no origin (Python 3.10+).
+    if UnionType is not None and isinstance(annotation, UnionType):
+        origin = Union
+
     # Treat asta types.
     if isinstance(annotation, SubscriptableMeta):
         equations = check_asta(name, value, annotation, equations, ox)
-- 
2.43.0


From 04e7d42b08e221446ceeaf72e95c76d6cde1d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 33/40] fix: respect required and optional keys of TypedDicts

---
 asta/origins.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index d813e46..662c7a2 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -70,6 +70,9 @@ except ImportError:
 
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
+# Say whether a key of a ``TypedDict`` is required (Python 3.11+).
+QUALIFIERS = ("typing.Required", "typing.NotRequired")
+
 
 def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
@@ -165,14 +168,18 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # Inherited keys, and those marked as (not) required, needn't follow
+    # ``__total__`` (``__required_keys__`` was added in Python 3.9).
+    total_keys = expected_keys if annotation.__total__ else frozenset()
+    missing_keys = getattr(annotation, "__required_keys__", total_keys) - existing_keys
+    if missing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
     for key, argtype in annotation.__annotations__.items():
+        if str(getattr(argtype, "__origin__", "")) in QUALIFIERS:
+            argtype = argtype.__args__[0]
         argvalue = value.get(key, MISSING_VALUE)
         if argvalue is not MISSING_VALUE:
             equations = check_annotation(
-- 
2.43.0


From c3ee544a1febcaba3595a9476cfda998b0294c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 34/40] fix: accept keyword arguments named like
 positional-only parameters

---
 asta/decorators.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 82aad5e..15c8f87 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -23,10 +23,24 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     args other than class references (self, cls, mcs), and keyword arguments in
     kwargs with defaults filled in.
     """
-    # Raises a TypeError if the arguments don't fit the signature.
     sig = inspect.signature(decorated)
-    bound = sig.bind(*args, **kwargs)
+
+    # ``**kwargs`` may collect names of positional-only parameters, which
+    # ``Signature.bind()`` refuses (before Python 3.13) if these have defaults.
+    kinds = {param.kind: name for name, param in sig.parameters.items()}
+    collector = kinds.get(inspect.Parameter.VAR_KEYWORD)
+    collected: Dict[str, Any] = {}
+    if collector is not None:
+        for name, param in sig.parameters.items():
+            if param.kind is inspect.Parameter.POSITIONAL_ONLY and name in kwargs:
+                collected[name] = kwargs[name]
+
+    # Raises a TypeError if the arguments don't fit the signature.
+    fitted = {name: arg for name, arg in kwargs.items() if name not in collected}
+    bound = sig.bind(*args, **fitted)
     bound.apply_defaults()
+    if collected:
+        bound.arguments[collector] = {**bound.arguments[collector], **collected}
 
     checkable_args: Dict[str, Any] = dict(bound.arguments)
 
-- 
2.43.0


From ba2e2228c99c9e754aa41e69592d1832276fdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 35/40] fix: protocols with attributes, and those which aren't
 runtime checkable, raised for every value

---
 asta/origins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 662c7a2..d4c294f 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -499,7 +499,11 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
-    if not issubclass(type(value), annotation):
+    # Other protocols cannot be checked, nor all of them with ``issubclass()``.
+    if not getattr(annotation, "_is_runtime_protocol", False):
+        return
+
+    if not isinstance(value, annotation):
         fail_protocol(name, annotation.__qualname__, type(value).__qualname__, ox)
 
 
-- 
2.43.0


From 6b0d3a3b9f2b0c3089a593a574e862e74d5873f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 36/40] fix: Type of a union accepted every class

---
 asta/origins.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index d4c294f..6ad3a1a 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -465,12 +465,17 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     if annotation is Type:
         return
 
-    # Only a class can be compared (not ``Any``, a type variable, ...).
     expected_class = annotation.__args__[0] if annotation.__args__ else None
-    if expected_class is Any or not inspect.isclass(expected_class):
+    if expected_class is Any:
         return
 
-    if not issubclass(value, expected_class):
+    # Only classes can be compared, and unions of them (not a type variable, ...).
+    try:
+        is_subclass = issubclass(value, expected_class)
+    except TypeError:
+        return
+
+    if not is_subclass:
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
 
-- 
2.43.0


From 70e6b8887c3cf39d0d770f7bd968d081ba956e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 37/40] fix: Annotations written as strings were not checked

---
 asta/decorators.py |  6 ++++--
 asta/origins.py    |  6 ++++--
 asta/utils.py      | 24 +++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 15c8f87..560b81f 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -9,7 +9,7 @@ from typing import Any, Set, Dict, Tuple
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.utils import astasolver
+from asta.utils import resolve, astasolver
 from asta.config import get_ox
 from asta.display import get_header, fail_system, handle_pass
 from asta.origins import check_annotation
@@ -67,7 +67,9 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
 def get_annotations(decorated) -> Dict[str, Any]:  # type: ignore[no-untyped-def]
     """ The annotations of the value bound to each parameter of ``decorated``. """
-    annotations: Dict[str, Any] = dict(decorated.__annotations__)
+    annotations: Dict[str, Any] = {}
+    for name, annotation in decorated.__annotations__.items():
+        annotations[name] = resolve(annotation, inspect.unwrap(decorated))
 
     # ``*args: T`` and ``**kwargs: T`` annotate each of the arguments collected.
     for name, param in inspect.signature(decorated).parameters.items():
diff --git a/asta/origins.py b/asta/origins.py
index 6ad3a1a..505ac89 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -24,7 +24,7 @@ from typing import (
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.utils import attrcheck, astasolver, shapecheck
+from asta.utils import resolve, attrcheck, astasolver, shapecheck
 from asta.classes import SubscriptableMeta
 from asta.display import (
     fail_io,
@@ -180,6 +180,7 @@ def check_typed_dict(
     for key, argtype in annotation.__annotations__.items():
         if str(getattr(argtype, "__origin__", "")) in QUALIFIERS:
             argtype = argtype.__args__[0]
+        argtype = resolve(argtype, annotation)
         argvalue = value.get(key, MISSING_VALUE)
         if argvalue is not MISSING_VALUE:
             equations = check_annotation(
@@ -267,7 +268,8 @@ def check_tuple(
         # Note that ``_field_types`` was removed in Python 3.9.
         field_types: Dict[str, Any] = {}
         for cls in reversed(annotation.__mro__):
-            field_types.update(vars(cls).get("__annotations__", {}))
+            for subname, field_type in vars(cls).get("__annotations__", {}).items():
+                field_types[subname] = resolve(field_type, cls)
         for subname in annotation._fields:
             field_type = field_types.get(subname, Any)
             equations = check_annotation(
diff --git a/asta/utils.py b/asta/utils.py
index e8bc6d9..6a12e23 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -1,9 +1,11 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 """ Typechecking utilities. """
+import sys
 import random
 import functools
-from typing import Any, Set, Dict, List, Tuple, Union, Optional
+from types import SimpleNamespace
+from typing import Any, Set, Dict, List, Tuple, Union, Optional, get_type_hints
 
 import numpy as np
 from sympy import solvers, simplify
@@ -24,6 +26,26 @@ from asta.constants import (
 # pylint: disable=too-many-boolean-expressions, too-many-branches
 
 
+def resolve(annotation: Any, owner: Any) -> Any:
+    """ What an annotation of ``owner`` with strings (see PEP 563) stands for. """
+    if annotation is None or isinstance(annotation, str) and annotation == "None":
+        return None
+
+    # The names which ``owner``, a function or class, can use.
+    scope: Dict[str, Any] = getattr(owner, "__globals__", None)
+    if scope is None:
+        scope = vars(sys.modules.get(owner.__module__, SimpleNamespace()))
+
+    # Forward references are shared between modules, and keep what they stand for
+    # unless there are local names. Some names may be missing, e.g. those imported
+    # for static type checkers only.
+    holder = SimpleNamespace(__annotations__={"annotation": annotation})
+    try:
+        return get_type_hints(holder, scope, {})["annotation"]  # type: ignore[arg-type]
+    except Exception:  # pylint: disable=broad-except
+        return Any if isinstance(annotation, str) else annotation
+
+
 def shapecheck(
     inst_shape: Tuple[int, ...],
     cls_shape: Optional[Tuple[Union[int, EllipsisType], ...]],  # type: ignore[valid-type]
-- 
2.43.0


From b5271a7b4ff1fa8786d86246efcee4e8e58ef526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 38/40] fix: an attribute that is no number does not match an
 expression

Subtracting it from the expression raised TypeError from isinstance, and
from calls even with raise-errors=no.
---
 asta/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index 6a12e23..baa7380 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -205,7 +205,12 @@ def attrcheck(
             match = False
             break
         if isinstance(value, Expr):
-            equations.add(value - attr)
+            # Not every attribute is a number.
+            try:
+                equations.add(value - attr)
+            except TypeError:
+                match = False
+                break
         # Comparing arrays gives no single truth value.
         elif isinstance(attr, tuple(ARRAY_TYPES)):
             if not np.array_equal(attr, value):
-- 
2.43.0


From c4e53c701c3808fc5ed40a54a6d9f9c863923c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 39/40] fix: comparing an attribute to a NumPy scalar or array
 raised

---
 asta/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index baa7380..f10ee3d 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -196,6 +196,7 @@ def attrcheck(
     match = True
     equations: Set[Expr] = set()
     kwattrs = {} if kwattrs is None else kwattrs
+    numeric = (*ARRAY_TYPES, np.generic)
 
     assert isinstance(kwattrs, dict)
 
@@ -212,7 +213,7 @@ def attrcheck(
                 match = False
                 break
         # Comparing arrays gives no single truth value.
-        elif isinstance(attr, tuple(ARRAY_TYPES)):
+        elif isinstance(attr, numeric) or isinstance(value, numeric):
             if not np.array_equal(attr, value):
                 match = False
                 break
-- 
2.43.0


From 24ce8bff308e3c4fd215a576a87de91a84232b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 40/40] fix: annotations with arrays as attributes could not be
 compared

---
 asta/_array.py    |  4 ++--
 asta/_tensor.py   |  4 ++--
 asta/_tftensor.py |  4 ++--
 asta/utils.py     | 33 ++++++++++++++++++++++++++-------
 4 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 7100a85..27ffd68 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, sameattrs, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -48,7 +48,7 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        if (cls.kwattrs or {}) != (other.kwattrs or {}):
+        if not sameattrs(cls.kwattrs, other.kwattrs):
             return False
         return True
 
diff --git a/asta/_tensor.py b/asta/_tensor.py
index 7332202..1d668ec 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, sameattrs, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -38,7 +38,7 @@ class _TensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        if (cls.kwattrs or {}) != (other.kwattrs or {}):
+        if not sameattrs(cls.kwattrs, other.kwattrs):
             return False
         return True
 
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 15f121a..6fd02c1 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, sameattrs, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -38,7 +38,7 @@ class _TFTensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        if (cls.kwattrs or {}) != (other.kwattrs or {}):
+        if not sameattrs(cls.kwattrs, other.kwattrs):
             return False
         return True
 
diff --git a/asta/utils.py b/asta/utils.py
index f10ee3d..9020e1b 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -189,6 +189,31 @@ def shapecheck(
     return match, equations
 
 
+def sameattr(attr: Any, value: Any) -> bool:
+    """ Check if two attributes are equal. """
+    # Comparing arrays gives no single truth value.
+    numeric = (*ARRAY_TYPES, np.generic)
+    if isinstance(attr, numeric) or isinstance(value, numeric):
+        return bool(np.array_equal(attr, value))
+    return not attr != value
+
+
+def sameattrs(
+    kwattrs: Optional[Dict[str, Any]], others: Optional[Dict[str, Any]]
+) -> bool:
+    """ Check if two annotations require the same attributes. """
+    kwattrs, others = kwattrs or {}, others or {}
+    if kwattrs.keys() != others.keys():
+        return False
+    for key, value in kwattrs.items():
+        other = others[key]
+        # Lists with the numbers of an array are required differently.
+        kinds = {isinstance(attr, tuple(ARRAY_TYPES)) for attr in (value, other)}
+        if value is not other and (len(kinds) > 1 or not sameattr(value, other)):
+            return False
+    return True
+
+
 def attrcheck(
     inst: GenericArray, kwattrs: Optional[Dict[str, Any]]
 ) -> Tuple[bool, Set[Expr]]:
@@ -196,7 +221,6 @@ def attrcheck(
     match = True
     equations: Set[Expr] = set()
     kwattrs = {} if kwattrs is None else kwattrs
-    numeric = (*ARRAY_TYPES, np.generic)
 
     assert isinstance(kwattrs, dict)
 
@@ -212,12 +236,7 @@ def attrcheck(
             except TypeError:
                 match = False
                 break
-        # Comparing arrays gives no single truth value.
-        elif isinstance(attr, numeric) or isinstance(value, numeric):
-            if not np.array_equal(attr, value):
-                match = False
-                break
-        elif attr != value:
+        elif not sameattr(attr, value):
             match = False
             break
 
-- 
2.43.0

