From 91694b652adc67bfb98c29ae98f90c61e150da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 01/60] fix: bind the forwarded arguments at every handled call

A bare fwd() in a handler without parameters, or in a handler installed by
interpreter()/evaluate(intp=...), forwarded the arguments of an enclosing
handler (or none) instead of those of the call being handled.
---
 effectful/ops/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 65e31de..fd72869 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -505,7 +505,11 @@ class Operation[**Q, V]:
             return self
 
     def __call__(self, *args: Q.args, **kwargs: Q.kwargs) -> V:
-        from effectful.internals.runtime import _restore_args, get_interpretation
+        from effectful.internals.runtime import (
+            _get_args,
+            _restore_args,
+            get_interpretation,
+        )
         from effectful.ops.semantics import fwd, handler
 
         intp = get_interpretation()
@@ -517,6 +521,10 @@ class Operation[**Q, V]:
             fwd_intp = typing.cast(
                 Interpretation, {fwd: _restore_args(self.__default_rule__)}
             )
+            if self is not fwd and self is not _get_args:
+                # a bare fwd() in this handler forwards the arguments of this
+                # call, not those of an enclosing handler
+                fwd_intp = {**fwd_intp, _get_args: lambda: (args, kwargs)}
             with handler(fwd_intp):
                 return self_handler(*args, **kwargs)
         elif args and isinstance(args[0], Operation) and self is args[0].__apply__:
-- 
2.43.0


From 1b0ec67ab14a123c481b9fb191e6b2e572aa504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 02/60] fix: create the runtime at import

Two threads making the first call to get_runtime concurrently could each
create a Runtime; a handler installed in the discarded one was lost.
---
 effectful/internals/runtime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/effectful/internals/runtime.py b/effectful/internals/runtime.py
index 4c9ebd7..02a42a8 100644
--- a/effectful/internals/runtime.py
+++ b/effectful/internals/runtime.py
@@ -18,6 +18,11 @@ def get_runtime() -> Runtime:
     return Runtime(interpretation={})
 
 
+# Create the runtime at import: two threads making the first call at the same time
+# would otherwise each get a runtime of their own, and one of them would be lost.
+get_runtime()
+
+
 def get_interpretation():
     return get_runtime().interpretation
 
-- 
2.43.0


From 1b2eade80019bccb7343cadc172a2088e66242b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 03/60] fix: keep an overridden classmethod operation apart
 from its parent's

Both were stored on the subclass under the same name, so super().op() inside
the override called the override again, without end.
---
 effectful/ops/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index fd72869..c8397b6 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -49,7 +49,7 @@ class _ClassMethodOpDescriptor(classmethod):
 
     def __set_name__(self, owner, name):
         assert not hasattr(self, "_name_on_owner"), "should only be called once"
-        self._name_on_owner = f"_descriptorop_{name}"
+        self._name_on_owner = f"_descriptorop_{owner.__name__}_{name}"
 
     def __get__(self, instance, owner: type | None = None):
         owner = owner if owner is not None else type(instance)
-- 
2.43.0


From 5679aaf97d626d72eafae7ec416404b6c72553c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 04/60] fix: give a copied instance operations of its own

copy.copy carries over the operations cached in the instance's __dict__, which
are bound to the original: calls through the copy acted on the original.
---
 effectful/ops/types.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index c8397b6..ad29132 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -463,12 +463,20 @@ class Operation[**Q, V]:
                 f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}"
             )
 
+    def _instance_op_of(self, instance) -> "Operation | None":
+        # A shallow copy of an instance has the original's operations in its
+        # __dict__; those are bound to the original and must not be used for it.
+        op = instance.__dict__.get(self._name_on_instance)
+        bound_to = getattr(getattr(op, "__default__", None), "__self__", None)
+        return op if bound_to is instance else None
+
     def __get__[T](self, instance: T | None, owner: type[T] | None = None):
         if hasattr(instance, "__dict__") and hasattr(self, "_name_on_instance"):
             from effectful.ops.semantics import fvsof
 
-            if self._name_on_instance in instance.__dict__:
-                return instance.__dict__[self._name_on_instance]
+            instance_op = self._instance_op_of(instance)
+            if instance_op is not None:
+                return instance_op
             elif isinstance(instance, Term) or fvsof(instance):
                 return types.MethodType(self, instance)
             else:
-- 
2.43.0


From 504a8364a3102fe21e38b5f0fc29abc485acb6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 05/60] fix: create the operation of an instance or class only
 once

Two threads accessing it for the first time at the same time each got an
operation of their own, so a handler installed for one missed the other.
---
 effectful/ops/types.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index ad29132..22a6bd3 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -2,6 +2,7 @@ import abc
 import collections.abc
 import functools
 import inspect
+import threading
 import types
 import typing
 from collections.abc import Callable, Mapping, Sequence
@@ -53,16 +54,21 @@ class _ClassMethodOpDescriptor(classmethod):
 
     def __get__(self, instance, owner: type | None = None):
         owner = owner if owner is not None else type(instance)
-        try:
-            return owner.__dict__[self._name_on_owner]
-        except KeyError:
-            bound_op = self._define(super().__get__(instance, owner))
-            setattr(owner, self._name_on_owner, bound_op)
-            return bound_op
+        with _descriptor_lock:
+            try:
+                return owner.__dict__[self._name_on_owner]
+            except KeyError:
+                bound_op = self._define(super().__get__(instance, owner))
+                setattr(owner, self._name_on_owner, bound_op)
+                return bound_op
 
 
 INSTANCE_OP_PREFIX = "__instanceop"
 
+# Held while the operation of an instance or class is created on first access, so
+# that concurrent first accesses agree on it.
+_descriptor_lock = threading.RLock()
+
 
 class Operation[**Q, V]:
     """An abstract class representing an effect that can be implemented by an effect handler.
@@ -504,9 +510,14 @@ class Operation[**Q, V]:
                     else:
                         return default_result
 
-                instance_op = self.define(types.MethodType(_instance_op, instance))
-                instance.__dict__[self._name_on_instance] = instance_op
-                return instance_op
+                with _descriptor_lock:
+                    instance_op = self._instance_op_of(instance)
+                    if instance_op is None:
+                        instance_op = self.define(
+                            types.MethodType(_instance_op, instance)
+                        )
+                        instance.__dict__[self._name_on_instance] = instance_op
+                    return instance_op
         elif instance is not None:
             return types.MethodType(self, instance)
         else:
-- 
2.43.0


From 81ba1d31f9c442767f68b24e886aa2d630f65ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 06/60] fix: publish an agent's template only once it is
 complete

A second thread could obtain the instance's template before its context and
history were attached, and two threads could each create the agent's history.
---
 effectful/handlers/llm/template.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/effectful/handlers/llm/template.py b/effectful/handlers/llm/template.py
index cffda38..b663f55 100644
--- a/effectful/handlers/llm/template.py
+++ b/effectful/handlers/llm/template.py
@@ -9,7 +9,7 @@ from collections import ChainMap, OrderedDict
 from collections.abc import Callable, Mapping, MutableMapping
 from typing import Annotated, Any
 
-from effectful.ops.types import Annotation, Operation
+from effectful.ops.types import Annotation, Operation, _descriptor_lock
 
 
 class _IsRecursiveAnnotation(Annotation):
@@ -231,10 +231,16 @@ class Template[**P, T](Tool[P, T]):
         return result
 
     def __get__[S](self, instance: S | None, owner: type[S] | None = None):
-        if hasattr(self, "_name_on_instance") and hasattr(
-            instance, self._name_on_instance
-        ):
-            return getattr(instance, self._name_on_instance)
+        # The lock keeps other threads from seeing the instance's template before
+        # its context and history are attached.
+        with _descriptor_lock:
+            return self._get_locked(instance, owner)
+
+    def _get_locked[S](self, instance: S | None, owner: type[S] | None = None):
+        if hasattr(self, "_name_on_instance") and hasattr(instance, "__dict__"):
+            instance_op = self._instance_op_of(instance)
+            if instance_op is not None:
+                return instance_op
 
         result = super().__get__(instance, owner)
         self_param_name = list(self.__signature__.parameters.keys())[0]
@@ -367,7 +373,9 @@ class Agent(abc.ABC):
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
         if not hasattr(cls, "__history__"):
-            prop = functools.cached_property(lambda _: OrderedDict())
+            prop = functools.cached_property(
+                lambda self: self.__dict__.setdefault("__history__", OrderedDict())
+            )
             prop.__set_name__(cls, "__history__")
             cls.__history__ = prop
         if not hasattr(cls, "__system_prompt__"):
-- 
2.43.0


From 6495f2f83132e99bee132084931d94e9fe6f0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 07/60] fix: collect the implementations of a handler class on
 that class

They were gathered in one dict shared by all classes, so a definition that
failed midway, was nested in another or ran in another thread left its
implementations to the next class defined. Inheritance now follows the method
resolution order, also in a diamond.
---
 effectful/ops/syntax.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 6349e10..a53f429 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -937,25 +937,20 @@ class ObjectInterpretation[T, V](collections.abc.Mapping):
 
     """
 
-    # This is a weird hack to get around the fact that
-    # the default meta-class runs __set_name__ before __init__subclass__.
-    # We basically store the implementations here temporarily
-    # until __init__subclass__ is called.
-    # This dict is shared by all `Implementation`s,
-    # so we need to clear it when we're done.
-    _temporary_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
+    # The implementations that a class declares itself are collected in its own
+    # __dict__ by __set_name__, which runs before __init_subclass__.
+    _own_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
     implementations: dict[Operation[..., T], Callable[..., V]] = dict()
 
     @classmethod
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
-        cls.implementations = ObjectInterpretation._temporary_implementations.copy()
+        cls.implementations = {}
 
         for sup in cls.mro():
             if issubclass(sup, ObjectInterpretation):
-                cls.implementations = {**sup.implementations, **cls.implementations}
-
-        ObjectInterpretation._temporary_implementations.clear()
+                own = sup.__dict__.get("_own_implementations", {})
+                cls.implementations = {**own, **cls.implementations}
 
     def __iter__(self):
         return iter(self.implementations)
@@ -989,7 +984,10 @@ class _ImplementedOperation[**P, **Q, T, V]:
     def __set_name__(self, owner: ObjectInterpretation[T, V], name):
         assert self.impl is not None
         assert self.op is not None
-        owner._temporary_implementations[self.op] = self.impl
+        own = owner._own_implementations
+        if "_own_implementations" not in owner.__dict__:
+            owner._own_implementations = own = {}
+        own[self.op] = self.impl
 
 
 def implements[**P, V](op: Operation[P, V]):
-- 
2.43.0


From d7703482289d8e0935d427fff655d9f0202b31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 08/60] fix: create the term class of a dataclass only once

Concurrent first uses of a dataclass in a term either failed an assertion or
left the threads with different term classes and field operations; a stale
singledispatch cache entry could make every later use fail.
---
 effectful/ops/syntax.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index a53f429..195ec94 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -4,6 +4,7 @@ import functools
 import inspect
 import numbers
 import operator
+import threading
 import typing
 from collections.abc import Callable, Iterable, Mapping
 from typing import Annotated, Any
@@ -549,21 +550,28 @@ def defdata[T](
     return _unpack(result, cast)
 
 
+_dataclass_term_lock = threading.RLock()
+
+
 def _construct_dataclass_term[T](
     cls: type[T], op: Operation[..., T], *args: Expr, **kwargs: Expr
 ) -> Term[T]:
     """
     Constructs a term wrapping an operation that returns a dataclass.
     """
-    assert cls not in defdata._registry.registry.keys(), (
+    # Another thread may have registered the term class since this one looked.
+    with _dataclass_term_lock:
+        term_cls = defdata._registry.registry.get(cls)
+        if term_cls is None:
+            name = cls.__name__
+            term_name = f"_{name}Term"
+            bases = (Term, cls)
+            term_cls = _DataclassTermMeta(term_name, bases, {})
+
+            defdata.register(cls)(term_cls)
+    assert isinstance(term_cls, _DataclassTermMeta), (
         "Use defdata(op, *args, **kwargs) to construct terms of this type."
     )
-    name = cls.__name__
-    term_name = f"_{name}Term"
-    bases = (Term, cls)
-    term_cls = _DataclassTermMeta(term_name, bases, {})
-
-    defdata.register(cls)(term_cls)
     return term_cls(cls, op, *args, **kwargs)
 
 
-- 
2.43.0


From 31bc00024626f274ddc80c39d235a12eed4bb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 09/60] fix: share one operation between concurrent first uses
 of a function or name

functools.cache lets concurrent first calls each compute and return a result of
their own, so two threads could use different operations for the same torch or
jax function, named index or distribution.
---
 effectful/handlers/indexed.py       |  3 ++-
 effectful/handlers/jax/_handlers.py |  5 +++--
 effectful/handlers/pyro.py          |  4 ++--
 effectful/handlers/torch.py         |  3 ++-
 effectful/internals/cache.py        | 20 ++++++++++++++++++++
 5 files changed, 29 insertions(+), 6 deletions(-)
 create mode 100644 effectful/internals/cache.py

diff --git a/effectful/handlers/indexed.py b/effectful/handlers/indexed.py
index 2e97b8b..1d9bcc2 100644
--- a/effectful/handlers/indexed.py
+++ b/effectful/handlers/indexed.py
@@ -6,6 +6,7 @@ from typing import Any
 import torch
 
 from effectful.handlers.torch import sizesof
+from effectful.internals.cache import locked_cache
 from effectful.ops.syntax import deffn, defop
 from effectful.ops.types import Operation
 
@@ -159,7 +160,7 @@ def indices_of(value: Any) -> IndexSet:
     )
 
 
-@functools.cache
+@locked_cache
 def name_to_sym(name: str) -> Operation[[], torch.Tensor]:
     return defop(torch.Tensor, name=name)
 
diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 308cdb7..2d64bc2 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -10,6 +10,7 @@ try:
 except ImportError:
     raise ImportError("JAX is required to use effectful.handlers.jax")
 
+from effectful.internals.cache import locked_cache
 from effectful.internals.runtime import interpreter
 from effectful.ops.semantics import apply, evaluate, fvsof, typeof
 from effectful.ops.syntax import (
@@ -120,7 +121,7 @@ def _partial_eval(t: Expr[jax.Array]) -> Expr[jax.Array]:
     return result
 
 
-@functools.cache
+@locked_cache
 def _register_jax_op[**P, T](jax_fn: Callable[P, T]):
     if getattr(jax_fn, "__name__", None) == "__getitem__":
         return jax_getitem
@@ -156,7 +157,7 @@ def _register_jax_op[**P, T](jax_fn: Callable[P, T]):
     return _jax_op
 
 
-@functools.cache
+@locked_cache
 def _register_jax_op_no_partial_eval[**P, T](jax_fn: Callable[P, T]):
     # FIXME: Presumably not all jax ops return arrays. In other cases, we won't
     # get the right kind of term.
diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 2e79242..d72dcc1 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -1,4 +1,3 @@
-import functools
 import typing
 from collections.abc import Collection, Mapping
 from typing import Any
@@ -26,6 +25,7 @@ from effectful.handlers.torch import (
     sizesof,
     unbind_dims,
 )
+from effectful.internals.cache import locked_cache
 from effectful.internals.runtime import interpreter
 from effectful.ops.semantics import apply, evaluate, handler, typeof
 from effectful.ops.syntax import defdata, defop
@@ -420,7 +420,7 @@ def _bind_dims_distribution(
     return new_d
 
 
-@functools.cache
+@locked_cache
 def _register_distribution_op(
     dist_constr: type[TorchDistribution],
 ) -> Operation[Any, TorchDistribution]:
diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index c9b8f64..caca608 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -11,6 +11,7 @@ except ImportError:
 
 import torch.utils._pytree as pytree
 
+from effectful.internals.cache import locked_cache
 from effectful.internals.runtime import interpreter
 from effectful.internals.tensor_utils import _desugar_tensor_index
 from effectful.ops.semantics import apply, evaluate, fvsof, handler, typeof
@@ -225,7 +226,7 @@ def _unbind_dims_tensor[A, B](
     return value[tuple(n() for n in names)]
 
 
-@functools.cache
+@locked_cache
 def _register_torch_op[**P, T](torch_fn: Callable[P, T]):
     if torch_fn is torch._C.TensorBase.__getitem__:
         return torch_getitem
diff --git a/effectful/internals/cache.py b/effectful/internals/cache.py
new file mode 100644
index 0000000..931665f
--- /dev/null
+++ b/effectful/internals/cache.py
@@ -0,0 +1,20 @@
+import functools
+import threading
+from collections.abc import Callable
+
+
+def locked_cache[**P, T](fn: Callable[P, T]) -> Callable[P, T]:
+    """:func:`functools.cache` for functions whose results are compared by identity.
+
+    With plain :func:`functools.cache`, concurrent first calls each compute and
+    return a result of their own; here all of them get the same one.
+    """
+    lock = threading.RLock()
+    cached = functools.cache(fn)
+
+    @functools.wraps(fn)
+    def wrapper(*args: P.args, **kwargs: P.kwargs) -> T:
+        with lock:
+            return cached(*args, **kwargs)
+
+    return wrapper
-- 
2.43.0


From 1dd7d25332ac3da776bf723991370385f3963702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 10/60] fix: keep dataclass term classes out of the dispatch
 registry

Registering one while another thread dispatched could fail with 'dictionary
changed size during iteration', and a symbolic value of a subclass got the term
class of its base when that had been used first.
---
 effectful/ops/syntax.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 195ec94..b9d8570 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -550,7 +550,11 @@ def defdata[T](
     return _unpack(result, cast)
 
 
+# Term classes of dataclasses are kept apart from the registry of defdata: adding to
+# that while another thread dispatches on it can fail or leave a stale entry, and
+# a subclass would be given the term class of its base.
 _dataclass_term_lock = threading.RLock()
+_dataclass_term_classes: dict[type, "_DataclassTermMeta"] = {}
 
 
 def _construct_dataclass_term[T](
@@ -559,19 +563,17 @@ def _construct_dataclass_term[T](
     """
     Constructs a term wrapping an operation that returns a dataclass.
     """
-    # Another thread may have registered the term class since this one looked.
     with _dataclass_term_lock:
-        term_cls = defdata._registry.registry.get(cls)
+        term_cls = _dataclass_term_classes.get(cls)
         if term_cls is None:
+            assert cls not in defdata._registry.registry.keys(), (
+                "Use defdata(op, *args, **kwargs) to construct terms of this type."
+            )
             name = cls.__name__
             term_name = f"_{name}Term"
             bases = (Term, cls)
             term_cls = _DataclassTermMeta(term_name, bases, {})
-
-            defdata.register(cls)(term_cls)
-    assert isinstance(term_cls, _DataclassTermMeta), (
-        "Use defdata(op, *args, **kwargs) to construct terms of this type."
-    )
+            _dataclass_term_classes[cls] = term_cls
     return term_cls(cls, op, *args, **kwargs)
 
 
-- 
2.43.0


From 6e50a8cf56f53be97e2656465a6bd50d9093b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 11/60] fix: show the traceback of the decoding error in retry
 feedback

Retry feedback is built after the exception has been handled, so
traceback.format_exc() only ever gave 'NoneType: None'.
---
 effectful/handlers/llm/completions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 4e9f03d..dbd676b 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -123,7 +123,7 @@ class ToolCallDecodingError[E: Exception](DecodingError[E]):
     def to_feedback_message(self, include_traceback: bool) -> Message:
         error_message = f"{self}"
         if include_traceback:
-            tb = traceback.format_exc()
+            tb = "".join(traceback.format_exception(self))
             error_message = f"{error_message}\n\nTraceback:\n```\n{tb}```"
         return _make_message(
             {
@@ -147,7 +147,7 @@ class ResultDecodingError[E: Exception](DecodingError[E]):
     def to_feedback_message(self, include_traceback: bool) -> Message:
         error_message = f"{self}"
         if include_traceback:
-            tb = traceback.format_exc()
+            tb = "".join(traceback.format_exception(self))
             error_message = f"{error_message}\n\nTraceback:\n```\n{tb}```"
         return _make_message(
             {"role": "user", "content": error_message},
@@ -167,7 +167,7 @@ class ToolCallExecutionError[E: Exception, T](DecodingError[E]):
     def to_feedback_message(self, include_traceback: bool) -> Message:
         error_message = f"{self}"
         if include_traceback:
-            tb = traceback.format_exc()
+            tb = "".join(traceback.format_exception(self))
             error_message = f"{error_message}\n\nTraceback:\n```\n{tb}```"
         return _make_message(
             {
-- 
2.43.0


From a533bffd6cf3fa899ea03108b7ffbe884ad7457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 12/60] fix: answer every tool call of a rejected message in
 the retry request

---
 effectful/handlers/llm/completions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index dbd676b..31a88cd 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -606,6 +606,22 @@ class RetryLLMHandler(ObjectInterpretation):
         assert isinstance(e, (ToolCallDecodingError, ResultDecodingError))
         append_message(e.raw_message)
         append_message(e.to_feedback_message(self.include_traceback))
+        if isinstance(e, ToolCallDecodingError):
+            # A request must answer every tool call of the messages it contains.
+            for raw_tool_call in typing.cast(
+                list[dict[str, typing.Any]], e.raw_message.get("tool_calls") or []
+            ):
+                if raw_tool_call["id"] != e.raw_tool_call.id:
+                    append_message(
+                        _make_message(
+                            {
+                                "role": "tool",
+                                "tool_call_id": raw_tool_call["id"],
+                                "content": "Not executed because another tool call "
+                                "in the same message could not be decoded.",
+                            }
+                        )
+                    )
         if self._user_before_sleep is not None:
             self._user_before_sleep(retry_state)
 
-- 
2.43.0


From b8fb9bcd093ccf9ef8e66479836b6aaf752c812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 13/60] fix: run restricted code in the given namespace itself

Bindings made before an exception, deletions, and rebindings seen by
functions of an earlier snippet were lost, because the code ran in a copy.
---
 effectful/handlers/llm/evaluation.py | 71 +++++++++++++---------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 729d818..cd755c5 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -526,43 +526,40 @@ class RestrictedEvalProvider(ObjectInterpretation):
         bytecode: CodeType,
         env: dict[str, Any],
     ) -> None:
-        # Build restricted globals from RestrictedPython's defaults
-        rglobals: dict[str, Any] = safe_globals.copy()
-
-        # Enable class definitions (required for Python 3)
-        rglobals["__metaclass__"] = type
-        rglobals["__name__"] = "restricted"
-
-        # Layer `env` on top (without letting callers replace the restricted builtins).
-        rglobals.update({k: v for k, v in env.items() if k != "__builtins__"})
-
-        # Enable for loops and comprehensions
-        rglobals["_getiter_"] = Eval.default_guarded_getiter
-        # Enable sequence unpacking in comprehensions and for loops
-        rglobals["_iter_unpack_sequence_"] = Guards.guarded_iter_unpack_sequence
-
-        rglobals["getattr"] = Guards.safer_getattr
-        rglobals["setattr"] = Guards.guarded_setattr
-        rglobals["_write_"] = lambda x: x
-
-        # RestrictedPython rewrites `print(...)` into its `_print_` collector
-        # protocol; route it to the real stdout so output-capturing callers
-        # (e.g. redirect_stdout) see it instead of a discarded collector.
-        rglobals["_print_"] = _StdoutPrintCollector
-
-        # Snapshot value identities before execution so we can copy back every
-        # *binding effect* — both new names and rebindings of seeded names.
-        before = dict(rglobals)
-        builtins.exec(bytecode, rglobals, rglobals)
-
-        sentinel = object()
-        env.update(
-            {
-                key: value
-                for key, value in rglobals.items()
-                if key != "__builtins__" and before.get(key, sentinel) is not value
-            }
-        )
+        # Hand the restricted builtins and guards to the code as its `__builtins__`,
+        # so that it runs in `env` itself: every binding effect -- new names,
+        # rebindings and deletions, also those made before an exception -- is an
+        # effect on `env`, and functions keep seeing later rebindings.
+        rbuiltins: dict[str, Any] = {
+            **safe_globals["__builtins__"],
+            # Enable class definitions (required for Python 3)
+            "__metaclass__": type,
+            "__name__": "restricted",
+        }
+        guards: dict[str, Any] = {
+            # Enable for loops and comprehensions
+            "_getiter_": Eval.default_guarded_getiter,
+            # Enable sequence unpacking in comprehensions and for loops
+            "_iter_unpack_sequence_": Guards.guarded_iter_unpack_sequence,
+            "getattr": Guards.safer_getattr,
+            "setattr": Guards.guarded_setattr,
+            "_write_": lambda x: x,
+            # RestrictedPython rewrites `print(...)` into its `_print_` collector
+            # protocol; route it to the real stdout so output-capturing callers
+            # (e.g. redirect_stdout) see it instead of a discarded collector.
+            "_print_": _StdoutPrintCollector,
+        }
+        rbuiltins.update(guards)
+
+        # Don't let `env` replace the restricted builtins or shadow the guards.
+        shadowed = {k: env.pop(k) for k in ("__builtins__", *guards) if k in env}
+        env["__builtins__"] = rbuiltins
+        try:
+            builtins.exec(bytecode, env, env)
+        finally:
+            env.pop("__builtins__", None)
+            for key, value in shadowed.items():
+                env.setdefault(key, value)
 
 
 class _OpCommandCompiler(codeop.CommandCompiler):
-- 
2.43.0


From cb6bf3e126ce2e4472eac6dbfb69b077eda532b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 14/60] fix: capture a session's output without touching other
 threads

Sessions in several threads captured each other's output and could leave
the process without its standard output for good.
---
 effectful/handlers/llm/evaluation.py | 48 ++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index cd755c5..3513595 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -14,8 +14,9 @@ import shutil
 import subprocess
 import sys
 import tempfile
+import threading
 import typing
-from collections.abc import MutableMapping
+from collections.abc import Iterator, MutableMapping
 from types import CodeType
 from typing import Any
 
@@ -580,6 +581,47 @@ class _OpCommandCompiler(codeop.CommandCompiler):
         return compile(parse(source, filename), filename)
 
 
+class _ThreadStream:
+    """Stands in for `sys.stdout` or `sys.stderr` while sessions run: what a thread
+    writes goes to the session it is running, if any, else to the original stream.
+
+    `contextlib.redirect_stdout` swaps the stream of the whole process, so sessions in
+    several threads would capture each other's output and, leaving in another order
+    than they entered, never put the original stream back.
+    """
+
+    _lock = threading.Lock()
+
+    def __init__(self, original: typing.Any):
+        self._original = original
+        self._local = threading.local()
+        self._users = 0
+
+    def __getattr__(self, name: str) -> Any:
+        return getattr(getattr(self._local, "target", self._original), name)
+
+    @classmethod
+    @contextlib.contextmanager
+    def redirect(cls, name: str, target: io.StringIO) -> Iterator[None]:
+        """Send what this thread writes to `sys.<name>` to `target`."""
+        with cls._lock:
+            stream = getattr(sys, name)
+            if not isinstance(stream, cls):
+                stream = cls(stream)
+                setattr(sys, name, stream)
+            stream._users += 1
+        previous = getattr(stream._local, "target", stream._original)
+        stream._local.target = target
+        try:
+            yield
+        finally:
+            stream._local.target = previous
+            with cls._lock:
+                stream._users -= 1
+                if stream._users == 0 and getattr(sys, name) is stream:
+                    setattr(sys, name, stream._original)
+
+
 class ReplSession(code.InteractiveInterpreter):
     """A persistent, output-capturing Python session seeded from a lexical
     context.
@@ -678,8 +720,8 @@ class ReplSession(code.InteractiveInterpreter):
         # not here -- this session only runs code.
         self._prior_snippets.append("".join(linecache.getlines(code.co_filename)))
         with (
-            contextlib.redirect_stdout(self.stdout),
-            contextlib.redirect_stderr(self.stderr),
+            _ThreadStream.redirect("stdout", self.stdout),
+            _ThreadStream.redirect("stderr", self.stderr),
         ):
             self.runcode(code)
         return self.stdout.getvalue()[out_start:] + self.stderr.getvalue()[err_start:]
-- 
2.43.0


From a55c9d74bd650e43f97f2b9a9424e73c386abe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 15/60] fix: accept generated code only when the type checker
 really checked it

---
 effectful/handlers/llm/evaluation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 3513595..eb84a4a 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -179,7 +179,7 @@ def _region_errors(stdout: str, lo: int | None, hi: int | None) -> list[dict[str
     ``--output=json`` emits one JSON object per diagnostic carrying mypy's own
     ``severity`` and ``line`` fields, so we filter on those directly rather than
     parsing (and risking mis-parsing) its human-readable format.  Only reached
-    for exit status < 2; a fatal status emits text, not JSON, and is handled by
+    for exit status 0 or 1; any other emits text, not JSON, and is handled by
     the caller before this runs.
     """
     errors: list[dict[str, Any]] = []
@@ -397,10 +397,12 @@ def _mypy_check_region(
         stdout, stderr, status = proc.stdout, proc.stderr, proc.returncode
     finally:
         shutil.rmtree(tmpdir, ignore_errors=True)
-    # Exit status >= 2 means mypy itself failed (fatal/usage/internal/syntax) -- a
-    # tool failure, not a type error -- and it emits text rather than JSON, so
-    # raise `RuntimeError` rather than parse or silently pass.
-    if status >= 2:
+    # mypy exits with 0 when it has nothing to report and with 1 when it reports
+    # diagnostics.  Anything else means that it did not check the source -- it failed
+    # (fatal/usage/internal/syntax, emitting text rather than JSON), was killed (a
+    # negative status) or could not be started by the interpreter (1, but without any
+    # diagnostic) -- so raise `RuntimeError` rather than parse or silently pass.
+    if status not in (0, 1) or (status == 1 and not (stdout or "").strip()):
         raise RuntimeError(
             f"mypy could not check the source:\n{(stdout or '') + (stderr or '')}"
         )
-- 
2.43.0


From f14f9c20869081f8bc2698908e45a15132df233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 16/60] fix: never reuse the file name of a generated function

---
 effectful/handlers/llm/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 4ccc8fd..1ffa006 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -582,7 +582,7 @@ def _pydantic_callable(callable_type: Any) -> Any:
             )
 
         ctx = info.context or {}
-        filename = f"<synthesis:{id(encoded)}>"
+        filename = f"<synthesis:{uuid.uuid4()}>"
         module: ast.AST = evaluation.parse(encoded.module_code, filename)
 
         if not isinstance(module, ast.Module) or not module.body:
-- 
2.43.0


From c0fe2ed3342a17e9a0c27ad08fd51bdc9b61072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 17/60] fix: ignore type errors of other files when checking
 generated code

---
 effectful/handlers/llm/evaluation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index eb84a4a..7c4f815 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -171,10 +171,14 @@ def _find_def_at_lineno(
     return None
 
 
-def _region_errors(stdout: str, lo: int | None, hi: int | None) -> list[dict[str, Any]]:
-    """mypy ``--output=json`` diagnostics of severity ``error`` whose reported
-    line falls within ``[lo, hi]`` -- the spliced region. An open bound (``None``)
-    is unbounded on that side, so ``lo=hi=None`` reports every error.
+def _region_errors(
+    stdout: str, path: str, lo: int | None, hi: int | None
+) -> list[dict[str, Any]]:
+    """mypy ``--output=json`` diagnostics of severity ``error`` about the file
+    ``path`` whose reported line falls within ``[lo, hi]`` -- the spliced region. An
+    open bound (``None``) is unbounded on that side, so ``lo=hi=None`` reports every
+    error. mypy also reports errors in the modules that the file imports; their line
+    numbers have nothing to do with the region.
 
     ``--output=json`` emits one JSON object per diagnostic carrying mypy's own
     ``severity`` and ``line`` fields, so we filter on those directly rather than
@@ -187,7 +191,7 @@ def _region_errors(stdout: str, lo: int | None, hi: int | None) -> list[dict[str
         if not line.strip():
             continue
         diag = json.loads(line)
-        if diag["severity"] != "error":
+        if diag["severity"] != "error" or os.path.realpath(diag["file"]) != path:
             continue
         if (lo is None or lo <= diag["line"]) and (hi is None or diag["line"] <= hi):
             errors.append(diag)
@@ -406,7 +410,7 @@ def _mypy_check_region(
         raise RuntimeError(
             f"mypy could not check the source:\n{(stdout or '') + (stderr or '')}"
         )
-    errors = _region_errors(stdout or "", lo, hi)
+    errors = _region_errors(stdout or "", os.path.realpath(tf_path), lo, hi)
     if errors:
         # Not the source: it's large and the model already has the generated code.
         report = "\n".join(json.dumps(e) for e in errors)
-- 
2.43.0


From e1cb33548e0e102c6b7695c6c1d4ae3585c2ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 18/60] fix: encode functions whose annotations were never
 evaluated

---
 effectful/internals/unification.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 0ebd029..692e9e8 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -1021,6 +1021,16 @@ def _(value: collections.abc.Callable):
 
     if sig.return_annotation is inspect.Signature.empty:
         return Box(type(value))
+    elif any(
+        isinstance(annotation, str)
+        for annotation in (
+            sig.return_annotation,
+            *(p.annotation for p in sig.parameters.values()),
+        )
+    ):
+        # An annotation that was never evaluated (e.g. under `from __future__ import
+        # annotations`) is not a type: widen likewise.
+        return Box(type(value))
     elif any(
         p.annotation is inspect.Parameter.empty
         or p.kind
-- 
2.43.0


From 6f6147126d178de7ac901ab3d056ce4fd58af81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 19/60] fix: keep default rules of operations another analysis
 handles in productN

---
 effectful/internals/product_n.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 4b8bd2a..5861c3a 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -124,10 +124,15 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
     }
 
     # For every prompt, build an isolated interpretation that binds all operations.
+    # Operations that only other interpretations handle keep their default rule,
+    # unless the interpretation has a handler for every operation.
     isolated_intps = {
         prompt: {
-            renaming[(prompt, op)]: handler(translation_intps[prompt])(func)
-            for op, func in intp.items()
+            renaming[(prompt, op)]: handler(translation_intps[prompt])(
+                intp[op] if op in intp else op.__default_rule__
+            )
+            for op in result_ops
+            if op in intp or apply not in intp
         }
         for prompt, intp in intps.items()
     }
-- 
2.43.0


From a8bce59fcfae938dfcd994408983f6226537f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 20/60] fix: argsof drops the first argument of an analysis
 with a catch-all rule

---
 effectful/internals/product_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 5861c3a..f4ec577 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -152,7 +152,7 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
             return result_intp[prompt].args, result_intp[prompt].kwargs
 
         def argsof_apply(prompt):
-            return result_intp[prompt].args[2:], result_intp[prompt].kwargs
+            return result_intp[prompt].args[1:], result_intp[prompt].kwargs
 
         # Every prompt gets an argsof implementation. The implementation is
         # either for a direct call to a handler or for a call to an apply
-- 
2.43.0


From 8b67debd05edc4e7a16cfb0dd7dedcde8ca44608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 21/60] fix: vjp takes cotangents with their named dimensions
 in any order

---
 effectful/handlers/torch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index caca608..f86c031 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -704,8 +704,11 @@ def vjp(func, *indexed_primals, **kwargs):
     _, vjpfunc = torch.func.vjp(wrapper, *unindexed_primals, **kwargs)
 
     def vjpfunc_wrapper(*tangents):
+        # the tangents may have their named dimensions in any order
         unindexed_tangents = pytree.tree_map(
-            lambda t: bind_dims(t, *list(sizesof(t).keys())), tangents
+            lambda t, r: bind_dims(t, *list(sizesof(r).keys())),
+            tangents,
+            (indexed_result,),
         )
         grads = vjpfunc(*unindexed_tangents)
         return repack_primals(grads)
-- 
2.43.0


From 78fb101b6ca49c8e621c5060f65341fc8e2d6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 22/60] fix: transformed torch functions pass keyword arguments
 on

---
 effectful/handlers/torch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index f86c031..d0e84b3 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -643,28 +643,28 @@ def grad(func, *args, **kwargs):
     """
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     f = _register_torch_op(torch.func.grad(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(f(*a, *k))
+    return lambda *a, **k: reindex(f(*a, **k))
 
 
 @functools.wraps(torch.func.jacfwd)
 def jacfwd(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacfwd(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.jacrev)
 def jacrev(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacrev(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.hessian)
 def hessian(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     h = _register_torch_op(torch.func.hessian(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(h(*a, *k))
+    return lambda *a, **k: reindex(h(*a, **k))
 
 
 @functools.wraps(torch.func.jvp)
@@ -723,7 +723,7 @@ def vmap(func, *args, **kwargs):
     # vmap_func returns tensors of shape [vmap_dim, indexed_dim_1, ...,
     # indexed_dim_n, pos_dim_1, ..., pos_dim_m], so we reapply indexes starting
     # at dim 1
-    return lambda *a, **k: reindex(vmap_func(*a, *k), starting_dim=1)
+    return lambda *a, **k: reindex(vmap_func(*a, **k), starting_dim=1)
 
 
 @syntactic_eq.register
-- 
2.43.0


From d31282686f5606f95b4d5b317555c970c31d844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 23/60] fix: transformed torch functions keep names of results
 apart between threads

---
 effectful/handlers/torch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index d0e84b3..e98c9e5 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -1,4 +1,5 @@
 import functools
+import threading
 import typing
 from collections.abc import Callable, Mapping, Sequence
 from types import EllipsisType
@@ -594,8 +595,9 @@ class _EagerTensorTerm(torch.Tensor):
 def _indexed_func_wrapper[**P, S, T](
     func: Callable[P, T],
 ) -> tuple[Callable[P, S], Callable[[S], T]]:
-    # index expressions for the result of the function
-    indexes = None
+    # index expressions for the result of the function, per thread because a
+    # transformed function may be called from several threads at once
+    state = threading.local()
 
     # hide index lists from pytree.tree_map
     class Indexes:
@@ -605,8 +607,6 @@ def _indexed_func_wrapper[**P, S, T](
 
     # strip named indexes from the result of the function and store them
     def deindexed(*args, **kwargs):
-        nonlocal indexes
-
         def deindex_tensor(t, i):
             t_ = bind_dims(t, *i.sizes.keys())
             assert all(t_.shape[j] == i.sizes[v] for j, v in enumerate(i.sizes))
@@ -614,11 +614,14 @@ def _indexed_func_wrapper[**P, S, T](
 
         ret = func(*args, **kwargs)
         indexes = pytree.tree_map(lambda t: Indexes(sizesof(t)), ret)
+        state.indexes = indexes
         tensors = pytree.tree_map(lambda t, i: deindex_tensor(t, i), ret, indexes)
         return tensors
 
     # reapply the stored indexes to a result
     def reindex(ret, starting_dim=0):
+        indexes = state.indexes
+
         def index_expr(i):
             return (slice(None),) * (starting_dim) + tuple(x() for x in i.indexes)
 
-- 
2.43.0


From 2e73d8a0f246e2d5131b30fae6d49ed6f39c558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 24/60] fix: jit keeps the names of a cached call's own result

---
 effectful/handlers/jax/_handlers.py | 52 +++++++++++++++--------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 2d64bc2..5634a58 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -1,3 +1,4 @@
+import dataclasses
 import functools
 import typing
 from collections.abc import Callable, Mapping, Sequence
@@ -233,40 +234,41 @@ def jit(f, *args, **kwargs):
     return lambda *args, **kwargs: f_reindex(f_noindex_jitted(*args, **kwargs))
 
 
+@functools.partial(
+    jax.tree_util.register_dataclass, data_fields=["array"], meta_fields=["names"]
+)
+@dataclasses.dataclass
+class _Deindexed:
+    """An array stripped of its named dimensions, which come first, in this order."""
+
+    array: jax.Array
+    names: tuple[Operation[[], jax.Array], ...]
+
+
 def _indexed_func_wrapper[**P, S, T](
     func: Callable[P, T], getitem, sizesof
 ) -> tuple[Callable[P, S], Callable[[S], T]]:
-    # index expressions for the result of the function
-    indexes = None
-
-    # hide index lists from jax.tree.mapping
-    class Indexes:
-        def __init__(self, sizes):
-            self.sizes = sizes
-            self.indexes = list(sizes.keys())
-
-    # strip named indexes from the result of the function and store them
+    # strip named indexes from the result of the function. The names are kept
+    # in the structure of the result, where jax caches them with the trace.
     def deindexed(*args, **kwargs):
-        nonlocal indexes
-
-        def deindex_tensor(t, i):
-            t_ = bind_dims(t, *i.sizes.keys())
-            assert all(t_.shape[j] == i.sizes[v] for j, v in enumerate(i.sizes))
-            return t_
+        def deindex_tensor(t):
+            sizes = sizesof(t)
+            t_ = bind_dims(t, *sizes.keys())
+            assert all(t_.shape[j] == size for j, size in enumerate(sizes.values()))
+            return _Deindexed(t_, tuple(sizes.keys()))
 
-        ret = func(*args, **kwargs)
-        indexes = jax.tree.map(lambda t: Indexes(sizesof(t)), ret)
-        tensors = jax.tree.map(lambda t, i: deindex_tensor(t, i), ret, indexes)
-        return tensors
+        return jax.tree.map(deindex_tensor, func(*args, **kwargs))
 
-    # reapply the stored indexes to a result
+    # reapply the names to a result
     def reindex(ret, starting_dim=0):
         def index_expr(i):
-            return (slice(None),) * (starting_dim) + tuple(x() for x in i.indexes)
+            return (slice(None),) * (starting_dim) + tuple(x() for x in i.names)
 
-        indexed_ret = jax.tree.map(lambda t, i: getitem(t, index_expr(i)), ret, indexes)
-
-        return indexed_ret
+        return jax.tree.map(
+            lambda i: getitem(i.array, index_expr(i)),
+            ret,
+            is_leaf=lambda i: isinstance(i, _Deindexed),
+        )
 
     return deindexed, reindex
 
-- 
2.43.0


From d9b617127b5b23c07a2bc3c0c9c2e077057f8833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 25/60] fix: errors in the decorators of generated code count
 as its own

---
 effectful/handlers/llm/evaluation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 7c4f815..38c545c 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -153,6 +153,13 @@ def _def_nodes(
     ]
 
 
+def _first_lineno(stmt: ast.stmt) -> int:
+    """The first line of ``stmt``, which for a decorated definition is that of its
+    first decorator rather than its ``lineno``."""
+    decorators = getattr(stmt, "decorator_list", None)
+    return decorators[0].lineno if decorators else stmt.lineno
+
+
 def _find_def_at_lineno(
     module: ast.Module, lineno: int
 ) -> ast.FunctionDef | ast.AsyncFunctionDef | None:
@@ -257,7 +264,7 @@ def splice_into_source(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[0].lineno  # first generated statement (body is non-empty)
+    lo = _first_lineno(spliced.body[0])  # first generated statement (body is non-empty)
     hi = spliced.end_lineno or lo
     return checked_source, lo, hi
 
@@ -337,7 +344,7 @@ def _splice_repl(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[-n_current].lineno
+    lo = _first_lineno(spliced.body[-n_current])
     hi = spliced.body[-1].end_lineno or lo
     return checked_source, lo, hi
 
-- 
2.43.0


From e2b5b2e92bd99f65e10089ed0293c4d514ceebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 26/60] fix: operations of a class and its base are distinct
 even if both have the same name

---
 effectful/ops/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 22a6bd3..24f8895 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -50,7 +50,8 @@ class _ClassMethodOpDescriptor(classmethod):
 
     def __set_name__(self, owner, name):
         assert not hasattr(self, "_name_on_owner"), "should only be called once"
-        self._name_on_owner = f"_descriptorop_{owner.__name__}_{name}"
+        # a class and its base may have the same name
+        self._name_on_owner = f"_descriptorop_{owner.__name__}_{name}_{id(owner):x}"
 
     def __get__(self, instance, owner: type | None = None):
         owner = owner if owner is not None else type(instance)
@@ -465,8 +466,9 @@ class Operation[**Q, V]:
     def __set_name__[T](self, owner: type[T], name: str) -> None:
         if not issubclass(owner, Term):
             assert not hasattr(self, "_name_on_instance"), "should only be called once"
+            # a class and its base may have the same name
             self._name_on_instance: str = (
-                f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}"
+                f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}_{id(owner):x}"
             )
 
     def _instance_op_of(self, instance) -> "Operation | None":
-- 
2.43.0


From d981dac84ca91af194f034b06062a88f532ff5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 27/60] fix: indexing with bounded slices, lists or arrays next
 to named dimensions agrees with torch

---
 effectful/handlers/torch.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index e98c9e5..3acd054 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -296,28 +296,24 @@ def torch_getitem(x: torch.Tensor, key: tuple[IndexElement, ...]) -> torch.Tenso
     # handle None, Ellipsis, and missing dimensions
     x, key = _getitem_ellipsis_and_none(x, key)
 
+    # Slices do not interact with the indices of other dimensions, so apply them first.
+    x = x[tuple(k if isinstance(k, slice) else slice(None) for k in key)]
+
     # Convert non-tensor args to tensors
     key_l = list(key)
     for i, arg in list(enumerate(key)):
         if isinstance(arg, slice):
-            if arg == slice(None):
-                key_l[i] = None
-            else:
-                # Convert slices to torch.arange()s.
-                start = arg.start if arg.start is not None else 0
-                stop = arg.stop if arg.stop is not None else x.shape[i]
-                step = arg.step if arg.step is not None else 1
-                flat_arg = torch.arange(
-                    start, stop, step, dtype=torch.long, device=x.device
-                )
-                key_l[i] = flat_arg.reshape((-1,) + (1,) * i)
-        elif isinstance(arg, int):
+            key_l[i] = None
+        elif isinstance(arg, int | list | tuple):
             key_l[i] = torch.tensor(arg, dtype=torch.long, device=x.device)
-        elif isinstance(arg, list | tuple):
-            flat_arg = torch.tensor(arg, dtype=torch.long, device=x.device)
-            key_l[i] = flat_arg.reshape(flat_arg.shape + (1,) * i)
 
-    return torch.ops.aten.index(x, tuple(key_l))
+    # Scalar indices select from their dimensions before the others apply.
+    scalars = tuple(k if k is not None and k.ndim == 0 else None for k in key_l)
+    others = tuple(k for k in key_l if k is None or k.ndim > 0)
+    for indices in (scalars, others):
+        if any(k is not None for k in indices):
+            x = torch.ops.aten.index(x, indices)
+    return x
 
 
 @defdata.register(torch.Tensor)
-- 
2.43.0


From e3903c84164cd10b5ef9808126d1b05a8361e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 28/60] fix: bind_dims takes the diagonal of dimensions that
 have the same name

---
 effectful/handlers/torch.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 3acd054..58c1531 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -190,6 +190,15 @@ def _bind_dims_tensor(
     if not names_set <= set(a.op for a in dims if isinstance(a, Term)):
         raise NotHandled
 
+    # a name that is used for several dimensions refers to their diagonal
+    for name in names:
+        first, *rest = [
+            i for i, k in enumerate(dims) if isinstance(k, Term) and k.op is name
+        ]
+        for i in reversed(rest):
+            tensor = tensor.diagonal(dim1=first, dim2=i).movedim(-1, first)
+            dims = [k for j, k in enumerate(dims) if j != i]
+
     # permute the inner tensor so that the leading dimensions are in the order
     # specified and the trailing dimensions are the remaining named dimensions
     # (or slices)
-- 
2.43.0


From e3c53059fedf90c473a6256033e24f428217de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 29/60] fix: sizes of named dimensions next to None or an
 ellipsis in jax indexing

---
 effectful/handlers/jax/_handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 5634a58..2408e85 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -13,6 +13,7 @@ except ImportError:
 
 from effectful.internals.cache import locked_cache
 from effectful.internals.runtime import interpreter
+from effectful.internals.tensor_utils import _desugar_tensor_index
 from effectful.ops.semantics import apply, evaluate, fvsof, typeof
 from effectful.ops.syntax import (
     Scoped,
@@ -67,9 +68,10 @@ def sizesof(value) -> Mapping[Operation[[], jax.Array], int]:
 
     def _getitem_sizeof(x: jax.Array, key: tuple[Expr[IndexElement], ...]):
         if is_eager_array(x):
-            for i, k in enumerate(key):
+            shape, key_ = _desugar_tensor_index(x.shape, key)
+            for i, k in enumerate(key_):
                 if isinstance(k, Term) and len(k.args) == 0 and len(k.kwargs) == 0:
-                    update_sizes(sizes, k.op, x.shape[i])
+                    update_sizes(sizes, k.op, shape[i])
         return defdata(jax_getitem, x, key)
 
     def _apply(op, *args, **kwargs):
-- 
2.43.0


From c5d2bc961691645bf2f9c833d4a974eadb0bce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 30/60] fix: an empty ellipsis between array and named indices
 in jax indexing

---
 effectful/handlers/jax/_terms.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/jax/_terms.py b/effectful/handlers/jax/_terms.py
index 8120629..a2e0c8a 100644
--- a/effectful/handlers/jax/_terms.py
+++ b/effectful/handlers/jax/_terms.py
@@ -408,7 +408,19 @@ class _ArrayTerm(Term[jax.Array]):
 class _EagerArrayTerm(_ArrayTerm):
     def __init__(self, op, tensor, key):
         new_shape, new_key = _desugar_tensor_index(tensor.shape, key)
-        super().__init__(op, jax.numpy.reshape(tensor, new_shape), new_key)
+        tensor = jax.numpy.reshape(tensor, new_shape)
+
+        # an ellipsis separates the indices around it even if it is empty: the
+        # dimensions indexed by arrays or names then come first in the result
+        i = next((i for i, k in enumerate(key) if k is Ellipsis), None)
+        if i is not None and len(new_key) == len(key) - 1:
+            indexed = [not isinstance(k, slice) for k in new_key]
+            if any(indexed[:i]) and any(indexed[i:]):
+                order = sorted(range(len(new_key)), key=lambda j: not indexed[j])
+                tensor = jax.numpy.transpose(tensor, order)
+                new_key = [new_key[j] for j in order]
+
+        super().__init__(op, tensor, new_key)
 
     def __iter__(self):
         for i in range(len(self)):
-- 
2.43.0


From 38bb4eee0e1439118d3222357c97d85e9f22dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 31/60] fix: an agent's template is not offered to itself as a
 tool unless it is recursive

---
 effectful/handlers/llm/completions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 31a88cd..a825e48 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -688,7 +688,17 @@ class LiteLLMProvider(ObjectInterpretation):
         )  # type: ignore
         history_copy = history.copy()
 
-        with handler({_get_history: lambda: history_copy}):
+        def _collect(env_: collections.abc.Mapping[str, typing.Any]):
+            # an agent in scope also offers its templates, maybe this one
+            return {
+                k: t
+                for k, t in fwd().items()
+                if env_ is not env
+                or t is not template
+                or _is_recursive_signature(template.__signature__)
+            }
+
+        with handler({_get_history: lambda: history_copy, collect_tools: _collect}):
             if (
                 not _get_history()
                 or next(iter(_get_history().values()))["role"] != "system"
-- 
2.43.0


From 7f2772c0530cef5729885f9a1d4e2eb1572031de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 32/60] fix: LexicalReaders reads neither tools visible under
 two names nor agents

---
 effectful/handlers/llm/completions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index a825e48..d2b5199 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -274,6 +274,8 @@ class LexicalReaders(ObjectInterpretation):
         for name, obj in env.items():
             if name in result or not name.isidentifier():
                 continue
+            if isinstance(obj, Tool | Agent):  # maybe offered under another name
+                continue
             try:
                 result[name] = _LexicalVariableTool.define(obj, name=name)
             # `TypeError` joins the three Pydantic errors because the
-- 
2.43.0


From 5a50826fa6289e849b0c1f5396018f5bf81c33e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 33/60] fix: a template hidden from itself is not read as a
 variable either

---
 effectful/handlers/llm/completions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index d2b5199..fb1fd8b 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -682,8 +682,10 @@ class LiteLLMProvider(ObjectInterpretation):
         bound_args.apply_defaults()
         env = template.__context__.new_child(bound_args.arguments)
 
+        hidden: dict[str, None] = {}
         if not _is_recursive_signature(template.__signature__):
-            env = env.new_child({k: None for k, v in env.items() if v is template})
+            hidden = {k: None for k, v in env.items() if v is template}
+            env = env.new_child(hidden)
 
         history: collections.OrderedDict[str, Message] = getattr(
             template, "__history__", collections.OrderedDict()
@@ -691,13 +693,15 @@ class LiteLLMProvider(ObjectInterpretation):
         history_copy = history.copy()
 
         def _collect(env_: collections.abc.Mapping[str, typing.Any]):
-            # an agent in scope also offers its templates, maybe this one
+            tools = fwd()
+            if env_ is not env or _is_recursive_signature(template.__signature__):
+                return tools
+            # an agent in scope also offers its templates, maybe this one; and the
+            # names hidden above are not variables to read
             return {
                 k: t
-                for k, t in fwd().items()
-                if env_ is not env
-                or t is not template
-                or _is_recursive_signature(template.__signature__)
+                for k, t in tools.items()
+                if t is not template and not (k in hidden and env[k] is None)
             }
 
         with handler({_get_history: lambda: history_copy, collect_tools: _collect}):
-- 
2.43.0


From 76cc7a9f5bdc881fbbaa4d6f7fca8ed04a155e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:17 +0000
Subject: [PATCH 34/60] fix: listing a template's tools does not put a
 session's scope into its context

---
 effectful/handlers/llm/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/template.py b/effectful/handlers/llm/template.py
index b663f55..b54c2ca 100644
--- a/effectful/handlers/llm/template.py
+++ b/effectful/handlers/llm/template.py
@@ -219,7 +219,8 @@ class Template[**P, T](Tool[P, T]):
         readers for other lexical symbols. Auto-captured from lexical context."""
         from effectful.handlers.llm.completions import collect_tools
 
-        result = dict(collect_tools(self.__context__))
+        # a session that is listed as a tool adds its own scope to the context it is given
+        result = dict(collect_tools(self.__context__.new_child()))
 
         # We remove the template itself from the tool map unless it is explicitly
         # marked as recursive (see test_template_method, test_template_method_nested_class).
-- 
2.43.0


From a2a964f92fe251628a4bbead4df5010572e45eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 35/60] fix: compare numbers of different types in the default
 rules of comparison operations

The default rules of __eq__, __lt__, __gt__, __le__ and __ge__ called the
left operand's method directly, which returns NotImplemented when the
operands have different numeric types (3 < 1.5 is answered by
float.__gt__). Evaluating x() < 1.5 with x bound to 3 gave NotImplemented.
Use the operators, as the arithmetic rules do.
---
 effectful/ops/syntax.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index b9d8570..4cbadbe 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1133,35 +1133,35 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __eq__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__eq__(other)
+            return operator.__eq__(self, other)
         else:
             return syntactic_eq(self, other)
 
     @defop
     def __lt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__lt__(other)
+            return operator.__lt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __gt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__gt__(other)
+            return operator.__gt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __le__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__le__(other)
+            return operator.__le__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __ge__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__ge__(other)
+            return operator.__ge__(self, other)
         else:
             raise NotHandled
 
-- 
2.43.0


From 587092d654d57e6ed082bfdd5c772d9e9dcc52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 36/60] fix: round integers in the default rule of __round__

round(x()) builds __round__(x(), None), whose default rule called
int.__round__(None): a TypeError for every integer. Use round, which takes
None for either type.
---
 effectful/ops/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 4cbadbe..0e18ac4 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1112,7 +1112,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __round__(self, ndigits: int | None = None) -> numbers.Real:
         if not isinstance(self, Term) and not isinstance(ndigits, Term):
-            return self.__round__(ndigits)
+            return round(self, ndigits)
         else:
             raise NotHandled
 
-- 
2.43.0


From df5d99b58b406d3b2cf4052979c4f850aa398b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 37/60] fix: make real, imag, numerator and denominator of a
 number term operations

On a number term these properties raised NotHandled, the signal by which a
default rule asks for a term, to the caller instead of building one. Make
them operations as the other members of the numeric protocol are.
---
 effectful/ops/syntax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 0e18ac4..18623c2 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1032,6 +1032,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
         raise ValueError("Cannot convert term to bool")
 
     @property
+    @defop
     def real(self) -> float:
         if not isinstance(self, Term):
             return self.real
@@ -1039,6 +1040,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def imag(self) -> float:
         if not isinstance(self, Term):
             return self.imag
@@ -1053,6 +1055,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def numerator(self) -> int:
         if not isinstance(self, Term):
             return self.numerator
@@ -1060,6 +1063,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def denominator(self) -> int:
         if not isinstance(self, Term):
             return self.denominator
-- 
2.43.0


From 4e336644deb392a9883b1f1ae461d4ec8be81130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 38/60] fix: accept a range as an argument of an operation

Evaluating a sequence rebuilds it from a generator of its items, which
range does not take: an unhandled call with a range among its arguments,
and evaluating a term that holds one, raised a TypeError. A range holds
only numbers; treat it as a value, as nested_type does.
---
 effectful/internals/product_n.py | 2 +-
 effectful/ops/semantics.py       | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index f4ec577..8cccef8 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -69,7 +69,7 @@ def map_structure(func, expr):
         else:
             return type(expr)(map_structure(func, tuple(expr.items())))
     elif isinstance(expr, collections.abc.Sequence):
-        if isinstance(expr, str | bytes):
+        if isinstance(expr, str | bytes | range):
             return expr
         elif (
             isinstance(expr, tuple)
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index de041b6..e54729b 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -151,6 +151,7 @@ def evaluate[T](
 @evaluate.register(object)
 @evaluate.register(str)
 @evaluate.register(bytes)
+@evaluate.register(range)
 def _evaluate_object[T](expr: T, **kwargs) -> T:
     if dataclasses.is_dataclass(expr) and not isinstance(expr, type):
         return typing.cast(
-- 
2.43.0


From b26c5ea85ebfb3b50da08de5ca55a42bdb0c27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 39/60] fix: keep the contents of a Counter passed to an
 operation

A mapping was rebuilt by calling its type with a tuple of its items. A
Counter counts what it is called with, so a Counter passed to an unhandled
operation silently became a Counter of key and value pairs, and a ChainMap
became one that cannot be used. Rebuild every mapping from a dict.
---
 effectful/internals/product_n.py | 5 +----
 effectful/ops/semantics.py       | 7 +------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 8cccef8..418222b 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -1,7 +1,6 @@
 import collections.abc
 import dataclasses
 import functools
-import types
 from collections.abc import Callable, Mapping
 from typing import Any
 
@@ -64,10 +63,8 @@ def map_structure(func, expr):
             return type(expr)(
                 expr.default_factory, map_structure(func, tuple(expr.items()))
             )
-        elif isinstance(expr, types.MappingProxyType):
-            return type(expr)(dict(map_structure(func, tuple(expr.items()))))
         else:
-            return type(expr)(map_structure(func, tuple(expr.items())))
+            return type(expr)(dict(map_structure(func, tuple(expr.items()))))
     elif isinstance(expr, collections.abc.Sequence):
         if isinstance(expr, str | bytes | range):
             return expr
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index e54729b..2f56379 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -187,14 +187,9 @@ def _evaluate_defaultdict(expr, **kwargs):
     return type(expr)(expr.default_factory, evaluate(tuple(expr.items())))
 
 
-@evaluate.register(types.MappingProxyType)
-def _evaluate_mappingproxytype(expr, **kwargs):
-    return type(expr)(dict(evaluate(tuple(expr.items()))))
-
-
 @evaluate.register(collections.abc.Mapping)
 def _evaluate_mapping(expr, **kwargs):
-    return type(expr)(evaluate(tuple(expr.items())))
+    return type(expr)(dict(evaluate(tuple(expr.items()))))
 
 
 @evaluate.register(tuple)
-- 
2.43.0


From b13b120886f83372075bad48bcd1e3e0e928255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 40/60] fix: accept dataclasses with fields that are not init
 parameters

dataclasses.replace refuses values for fields declared with init=False, so
passing an instance of such a dataclass to an unhandled operation, or
evaluating one, raised a ValueError. Leave those fields to the class.
---
 effectful/internals/product_n.py | 1 +
 effectful/ops/semantics.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 418222b..50496b6 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -94,6 +94,7 @@ def map_structure(func, expr):
             **{
                 field.name: map_structure(func, getattr(expr, field.name))
                 for field in dataclasses.fields(expr)
+                if field.init
             },
         )
     else:
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index 2f56379..79b759c 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -161,6 +161,7 @@ def _evaluate_object[T](expr: T, **kwargs) -> T:
                 **{
                     field.name: evaluate(getattr(expr, field.name))
                     for field in dataclasses.fields(expr)
+                    if field.init
                 },
             ),
         )
-- 
2.43.0


From 731f29cdc54b88f086e20495add970f4a6f5816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 41/60] fix: evaluate the members of a set

Sets were not evaluated, so the variables of terms in a set (or in a view
of the items of a dict, which evaluates to a set) were not substituted, not
handled, not renamed when bound and not reported by fvsof. Evaluate the
members, as map_structure does, and make Box hashable so that typeof can
put the types of members in a set.
---
 effectful/internals/unification.py | 2 +-
 effectful/ops/semantics.py         | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 692e9e8..95a43b4 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -94,7 +94,7 @@ TypeExpressions = TypeExpression | collections.abc.Sequence[TypeExpression]
 Substitutions = collections.abc.Mapping[TypeVariable, TypeExpressions]
 
 
-@dataclass
+@dataclass(frozen=True)
 class Box[T]:
     """Boxed types. Prevents confusion between types computed by __type_rule__
     and values.
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index 79b759c..b079480 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -212,6 +212,12 @@ def _evaluate_sequence(expr, **kwargs):
     return type(expr)(evaluate(item) for item in expr)
 
 
+@evaluate.register(set)
+@evaluate.register(frozenset)
+def _evaluate_set(expr, **kwargs):
+    return type(expr)(evaluate(item) for item in expr)
+
+
 @evaluate.register(collections.abc.ItemsView)
 @evaluate.register(collections.abc.KeysView)
 def _evaluate_set_view(expr, **kwargs):
-- 
2.43.0


From f09435f729e813e5e901f330ae153ffcb7a44ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:20 +0000
Subject: [PATCH 42/60] fix: reject replies and arguments with too many fields
 for a tuple

The schema of a tuple or a named tuple allows no further fields, but
decoding dropped them silently: a model's [1, "a", 3] was accepted for
tuple[int, str], and anything at all for the empty tuple. Check that a
value has exactly the fields of the type.
---
 effectful/handlers/llm/encoding.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 1ffa006..9d16c84 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -294,6 +294,16 @@ def _inline_refs(schema: dict) -> dict:
     return _resolve(schema)
 
 
+def _check_fields(value: Any, fields: list[str]) -> dict[str, Any]:
+    """Check that ``value`` has exactly the given fields, by name or in order."""
+    items = value
+    if isinstance(value, tuple | list) and len(value) == len(fields):
+        items = dict(zip(fields, value))
+    if not isinstance(items, dict) or items.keys() != set(fields):
+        raise ValueError(f"expected exactly the fields {fields}, received {value!r}")
+    return items
+
+
 @TypeToPydanticType.register(tuple)
 def _pydantic_type_tuple(ty):
     """Convert finitary tuples to object-based schemas (``properties/required``).
@@ -318,8 +328,7 @@ def _pydantic_type_tuple(ty):
         )
 
         def _nt_validate(value, info: pydantic.ValidationInfo):
-            if isinstance(value, tuple | list):
-                value = dict(zip(nt_fields, value))
+            value = _check_fields(value, nt_fields)
             return ty(
                 **{
                     f: nt_adapters[i].validate_python(value[f], context=info.context)
@@ -363,8 +372,7 @@ def _pydantic_type_tuple(ty):
     )
 
     def _validate(value, info: pydantic.ValidationInfo):
-        if isinstance(value, tuple | list):
-            value = {f"item_{i}": v for i, v in enumerate(value)}
+        value = _check_fields(value, [f"item_{i}" for i in range(len(effective))])
         return tuple(
             adapters[i].validate_python(value[f"item_{i}"], context=info.context)
             for i in range(len(effective))
-- 
2.43.0


From 7548de7d0810134d774018b93fcf28bc7db5c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 43/60] fix: infer the type of a named tuple

A named tuple passed to a template, returned by a tool, or given to an
operation with a type variable raised TypeError: its class's original base
is the function typing.NamedTuple.
---
 effectful/internals/unification.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 95a43b4..2b04a1f 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -706,6 +706,8 @@ def _(typ: type | abc.ABCMeta):
         return typ
     elif types.get_original_bases(typ):
         for base in types.get_original_bases(typ):
+            if base is typing.NamedTuple:  # a function that creates tuple subclasses
+                base = tuple
             if typing.get_origin(base) is not typing.Generic:
                 cbase = canonicalize(base)
                 if cbase != object:
@@ -1111,7 +1113,9 @@ def _(value: collections.abc.Collection):
 
 @nested_type.register
 def _(value: tuple):
-    if type(value) != tuple or len(value) == 0:
+    if hasattr(type(value), "_fields"):  # named tuples are known by their class
+        return Box(type(value))
+    elif type(value) != tuple or len(value) == 0:
         return nested_type.dispatch(collections.abc.Sequence)(value)
     else:
         return Box(tuple[tuple(nested_type(item).value for item in value)])  # type: ignore
-- 
2.43.0


From fb744fce6a567bd1778ec07867a0d35faf886af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 44/60] fix: bind positional-only arguments of tool calls

Every call of a tool with positional-only parameters was rejected.
---
 effectful/handlers/llm/encoding.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 9d16c84..526dd1f 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -767,9 +767,16 @@ def _validate_tool_call(
             Encodable[param.annotation]  # type: ignore[name-defined]
         )
         decoded_args[name] = arg_enc.validate_python(raw_arg, context=ctx)
+    positional = []
+    for name, param in sig.parameters.items():
+        if param.kind is not param.POSITIONAL_ONLY:
+            break
+        if name not in decoded_args and param.default is param.empty:
+            raise TypeError(f"missing a required argument: {name!r}")
+        positional.append(decoded_args.pop(name, param.default))
     return DecodedToolCall(
         tool=tool,
-        bound_args=sig.bind(**decoded_args),
+        bound_args=sig.bind(*positional, **decoded_args),
         id=value.id,
         name=value.function.name,
     )
-- 
2.43.0


From 5e822742520f4af1c3d90c2bfd8594c30adf4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 45/60] fix: show data with a type field to the model as data

Only complete content blocks are taken for content blocks: other dicts whose
type is, say, 'file' or a list made formatting a prompt or a tool result fail,
and dicts with more fields than a block lost them.
---
 effectful/handlers/llm/encoding.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 526dd1f..9f59e82 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -61,6 +61,21 @@ CONTENT_BLOCK_TYPES: frozenset[str] = frozenset(
 )
 
 
+_content_block_adapter: pydantic.TypeAdapter[OpenAIMessageContentListBlock] = (
+    pydantic.TypeAdapter(OpenAIMessageContentListBlock)
+)
+
+
+def _is_content_block(value: dict) -> bool:
+    """Whether an encoded dict is a content block, and not data with a ``type``."""
+    if value.get("type") not in list(CONTENT_BLOCK_TYPES):
+        return False
+    try:
+        return _content_block_adapter.validate_python(value).keys() == value.keys()
+    except pydantic.ValidationError:
+        return False
+
+
 @pydantic.validate_call(validate_return=True)
 def to_content_blocks(value: typing.Any) -> list[OpenAIMessageContentListBlock]:
     """Convert an encoded JSON-compatible value into a flat list of content blocks.
@@ -85,7 +100,7 @@ def to_content_blocks(value: typing.Any) -> list[OpenAIMessageContentListBlock]:
             buf.clear()
 
     def walk(v: typing.Any) -> None:
-        if isinstance(v, dict) and v.get("type") in CONTENT_BLOCK_TYPES:
+        if isinstance(v, dict) and _is_content_block(v):
             flush()
             blocks.append(typing.cast(OpenAIMessageContentListBlock, v))
         elif isinstance(v, dict):
-- 
2.43.0


From d058b3d5eed73eb986281f1d23af4666f42979bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 46/60] fix: reject replies with truncated images

Opening an image reads its header only: a reply with half an image was
returned as a value, which failed when used.
---
 effectful/handlers/llm/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 9f59e82..68c08d3 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -425,7 +425,9 @@ def _validate_image(value: ChatCompletionImageObject) -> Image.Image:
     prefix, data = url.split(",")
     if not prefix.startswith("data:image/"):
         raise ValueError(f"expected base64 encoded image as data uri, received {url}")
-    return Image.open(fp=io.BytesIO(base64.b64decode(data)))
+    image = Image.open(fp=io.BytesIO(base64.b64decode(data)))
+    image.load()  # opening reads the header only
+    return image
 
 
 def _serialize_image(value: Image.Image) -> ChatCompletionImageObject:
-- 
2.43.0


From 98bc62a6891f44f34c3045dd8b6955c21ce2a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:34 +0000
Subject: [PATCH 47/60] fix: keep the degrees of freedom of StudentT in terms

bind_dims and unbind_dims rebuilt StudentT(df, loc, scale) as
StudentT(loc, scale): another distribution.
---
 effectful/handlers/pyro.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index d72dcc1..df15ab0 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -580,7 +580,6 @@ def _embed_masked(d: dist.MaskedDistribution) -> Term[TorchDistribution]:
 @evaluate.register(dist.Logistic)
 @evaluate.register(dist.LogisticNormal)
 @evaluate.register(dist.Normal)
-@evaluate.register(dist.StudentT)
 def _embed_loc_scale(d: TorchDistribution) -> Term[TorchDistribution]:
     with interpreter({}):
         loc_raw = d.loc
@@ -592,6 +591,20 @@ def _embed_loc_scale(d: TorchDistribution) -> Term[TorchDistribution]:
     return _register_distribution_op(type(d))(loc, scale)
 
 
+@evaluate.register
+def _embed_student_t(d: dist.StudentT) -> Term[TorchDistribution]:
+    with interpreter({}):
+        df_raw = d.df
+        loc_raw = d.loc
+        scale_raw = d.scale
+
+    df = evaluate(df_raw)
+    loc = evaluate(loc_raw)
+    scale = evaluate(scale_raw)
+
+    return _register_distribution_op(dist.StudentT)(df, loc, scale)
+
+
 @evaluate.register(dist.Bernoulli)
 @evaluate.register(dist.Categorical)
 @evaluate.register(dist.ContinuousBernoulli)
-- 
2.43.0


From 04589c141338e76d68bdf8e6222cfea98e8727dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 48/60] fix: bind names of a distribution that its base does
 not use

bind_dims raised a KeyError for a masked distribution whose mask has a
name that the parameters of the masked distribution do not have.
---
 effectful/handlers/pyro.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index df15ab0..25853bc 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -387,6 +387,7 @@ def _unbind_dims_distribution(
 def _bind_dims_distribution(
     value: pyro.distributions.torch_distribution.TorchDistribution,
     *names: Operation[[], torch.Tensor],
+    sizes: Mapping[Operation[[], torch.Tensor], int] | None = None,
 ) -> pyro.distributions.torch_distribution.TorchDistribution:
     def _to_positional(a, indices):
         if isinstance(a, torch.Tensor):
@@ -399,7 +400,8 @@ def _bind_dims_distribution(
             )[tuple(n() for n in missing_dims)]
             return bind_dims(a_indexed, *names)
         elif isinstance(a, TorchDistribution):
-            return bind_dims(a, *names)
+            # a base distribution need not use all the names, e.g. under a mask
+            return _bind_dims_distribution(a, *names, sizes=indices)
         else:
             return a
 
@@ -409,7 +411,8 @@ def _bind_dims_distribution(
     if not (isinstance(d, Term) and typeof(d) is TorchDistribution):
         raise NotHandled
 
-    sizes = sizesof(d)
+    if sizes is None:
+        sizes = sizesof(d)
     indices = {k: sizes[k] for k in names}
 
     pos_args = [_to_positional(a, indices) for a in d.args]
-- 
2.43.0


From 5090356fe04eeeb1f61fdba490b888f9b4ced099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:29 +0000
Subject: [PATCH 49/60] fix: bind names of a RelaxedBernoulli with a batch

A temperature with fewer dimensions than the probabilities did not line up
with them after bind_dims, and unbind_dims raised a ValueError.
---
 effectful/handlers/pyro.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 25853bc..c5f3ef9 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -791,6 +791,14 @@ def _embed_relaxed(d: TorchDistribution) -> Term[TorchDistribution]:
     with interpreter({}):
         temperature_raw = d.temperature
         probs_raw = d.probs
+        if isinstance(d, dist.RelaxedBernoulli) and isinstance(
+            temperature_raw, torch.Tensor
+        ):
+            # the temperature need not have the batch shape of the probabilities
+            temperature_raw = torch.broadcast_to(
+                temperature_raw,
+                torch.broadcast_shapes(temperature_raw.shape, probs_raw.shape),
+            )
 
     temperature = evaluate(temperature_raw)
     probs = evaluate(probs_raw)
-- 
2.43.0


From 89205cbc202c7037b3d58efce82cb850c7d07c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:29 +0000
Subject: [PATCH 50/60] fix: unbind dimensions of numpyro distributions that
 have names already

Parameters with named dimensions were left as they were: the new names got
lost and the shapes no longer matched.
---
 effectful/handlers/numpyro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 329cf47..df239d4 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -80,10 +80,11 @@ def _unbind_distribution(
         # batched. Ignore these. We should be able to raise an error in some
         # cases that we see a scalar tensor, and a smarter version of this code
         # would do so.
-        if isinstance(a, jax.Array) and a.shape != ():
+        typ = typeof(a)
+        if issubclass(typ, jax.Array) and a.shape != ():
             _validate_batch_shape(a)
             return unbind_dims(a, *names)
-        elif isinstance(a, dist.Distribution):
+        elif issubclass(typ, dist.Distribution):
             return unbind_dims(a, *names)
         else:
             return a
-- 
2.43.0


From ba6755547e5e3121c5914a7f4a16df09dc7a2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:01 +0000
Subject: [PATCH 51/60] fix: use the scale_tril of a numpyro Wishart with names
 as such

It was passed on as the scale matrix; embedding a Wishart raised an
AttributeError.
---
 effectful/handlers/numpyro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index df239d4..27fa2cb 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -1083,14 +1083,14 @@ def Wishart(df, scale_tril, **kwargs) -> dist.Wishart:
 @defdata.register(dist.Wishart)
 class WishartTerm(_DistributionTerm):
     def __init__(self, ty, op, df, scale_tril, **kwargs):
-        super().__init__(dist.Wishart, op, df, scale_tril, **kwargs)
+        super().__init__(dist.Wishart, op, df, scale_tril=scale_tril, **kwargs)
         self.df = df
         self.scale_tril = scale_tril
 
 
 @evaluate.register(dist.Wishart)
 def _embed_wishart(d: dist.Wishart) -> Term[dist.Wishart]:
-    return Wishart(d.df, d.scale_tril)
+    return Wishart(d.concentration, d.scale_tril)
 
 
 @defop
-- 
2.43.0


From c96e0edd8a1decb36c02adbf3ad28d2ab986195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:41 +0000
Subject: [PATCH 52/60] fix: line up the parameters and values of numpyro
 distributions with names

Parameters with fewer positional dimensions than others, and values with
fewer dimensions than the distribution, were broadcast against the named
dimensions: an error, or another distribution when the sizes agreed.
---
 effectful/handlers/numpyro.py | 38 +++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 27fa2cb..29811db 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -6,6 +6,7 @@ except ImportError:
 
 
 import functools
+import inspect
 from collections.abc import Collection, Mapping
 from typing import Any
 
@@ -139,13 +140,42 @@ def _bind_dims_distribution(
     sizes = sizesof(d)
     indices = {k: sizes[k] for k in names}
 
-    pos_args = [_to_positional(a, indices) for a in d.args]
-    pos_kwargs = {k: _to_positional(v, indices) for (k, v) in d.kwargs.items()}
+    args, kwargs = _align_batch_dims(d)
+    pos_args = [_to_positional(a, indices) for a in args]
+    pos_kwargs = {k: _to_positional(v, indices) for (k, v) in kwargs.items()}
     new_d = d.op(*pos_args, **pos_kwargs)
 
     return new_d
 
 
+def _align_batch_dims(d):
+    """Give the parameters of `d` the same number of positional batch dimensions.
+
+    Parameters are broadcast against each other, aligned on the right, so a
+    dimension added on the left must be added at the same place to all of them.
+
+    """
+    bound = inspect.signature(d.op).bind(*d.args, **d.kwargs)
+
+    batch_ndims = {}
+    for name, a in bound.arguments.items():
+        constraint = getattr(d._constr, "arg_constraints", {}).get(name)
+        if constraint is None or not issubclass(typeof(a), jax.Array):
+            continue
+        try:
+            batch_ndims[name] = len(a.shape) - constraint.event_dim
+        except NotImplementedError:  # the event dimensions depend on the instance
+            continue
+
+    for name, ndims in batch_ndims.items():
+        missing = max(batch_ndims.values()) - ndims
+        if missing > 0:
+            a = bound.arguments[name]
+            bound.arguments[name] = jnp.reshape(a, (1,) * missing + a.shape)
+
+    return bound.args, bound.kwargs
+
+
 def _broadcast_to_named(t, sizes):
     missing_dims = set(sizes) - set(sizesof(t))
     t_broadcast = jnp.broadcast_to(
@@ -297,6 +327,10 @@ class _DistributionTerm(dist.Distribution):
 
         # value has shape named_batch_shape + sample_shape + batch_shape + event_shape
         n_batch_event = len(self.batch_shape) + len(self.event_shape)
+        if len(value.shape) < n_batch_event:
+            # value is broadcast to the shape of the distribution
+            missing = n_batch_event - len(value.shape)
+            value = jnp.reshape(value, (1,) * missing + value.shape)
         sample_shape = (
             value.shape if n_batch_event == 0 else value.shape[:-n_batch_event]
         )
-- 
2.43.0


From 99a3d2db83869745e40d62067deb618f0fd1bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:27 +0000
Subject: [PATCH 53/60] fix: embed plain numpyro MultivariateNormal and
 LKJCholesky

bind_dims, unbind_dims and evaluate raised for these distributions.
---
 effectful/handlers/numpyro.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 29811db..e11c581 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -998,7 +998,7 @@ class LKJCholeskyTerm(_DistributionTerm):
 
 @evaluate.register(dist.LKJCholesky)
 def _embed_lkjcholesky(d: dist.LKJCholesky) -> Term[dist.LKJCholesky]:
-    return LKJCholesky(d.dim, d.concentration)
+    return LKJCholesky(d.dimension, d.concentration)
 
 
 @defop
@@ -1032,9 +1032,7 @@ class MultivariateNormalTerm(_DistributionTerm):
 def _embed_multivariatenormal(
     d: dist.MultivariateNormal,
 ) -> Term[dist.MultivariateNormal]:
-    return MultivariateNormal(
-        d.loc, d.covariance_matrix, d.precision_matrix, d.scale_tril
-    )
+    return MultivariateNormal(d.loc, scale_tril=d.scale_tril)
 
 
 @defop
-- 
2.43.0


From bb47c9036f025d73c62e8c316bbceeaf044590a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 54/60] fix: give names to the dimensions of plain numpyro
 distributions

Distributions are pytrees, so unbind_dims named the parameters of a plain
distribution and left its batch shape as it was; bind_dims likewise.
---
 effectful/handlers/jax/_handlers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 2408e85..ed5afee 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -212,9 +212,13 @@ def bind_dims[T, A, B](
     >>> bind_dims(t, b, a).shape
     (3, 2)
     """
-    if jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
+    def is_leaf(v):
+        # some types with rules of their own (distributions) are pytrees as well
+        return __dispatch(type(v)) is not __dispatch(object)
+
+    if is_leaf(value) or jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
         return __dispatch(typeof(value))(value, *names)
-    return jax.tree.map(lambda v: bind_dims(v, *names), value)
+    return jax.tree.map(lambda v: bind_dims(v, *names), value, is_leaf=is_leaf)
 
 
 @defop
@@ -225,9 +229,13 @@ def unbind_dims[T, A, B](
     *names: Annotated[Operation[[], jax.Array], Scoped[B]],
 ) -> Annotated[T, Scoped[A | B]]:
     """Convert positional dimensions to named dimensions."""
-    if jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
+    def is_leaf(v):
+        # some types with rules of their own (distributions) are pytrees as well
+        return __dispatch(type(v)) is not __dispatch(object)
+
+    if is_leaf(value) or jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
         return __dispatch(typeof(value))(value, *names)
-    return jax.tree.map(lambda v: unbind_dims(v, *names), value)
+    return jax.tree.map(lambda v: unbind_dims(v, *names), value, is_leaf=is_leaf)
 
 
 def jit(f, *args, **kwargs):
-- 
2.43.0


From aa8d7e9359515f087fd0db6d10d12317cfa426fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:07 +0000
Subject: [PATCH 55/60] fix: keep the scale_tril of a Wishart as such in terms

---
 effectful/handlers/pyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index c5f3ef9..3e1be33 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -851,7 +851,7 @@ def _embed_wishart(d: dist.Wishart) -> Term[TorchDistribution]:
     df = evaluate(df_raw)
     scale_tril = evaluate(scale_tril_raw)
 
-    return _register_distribution_op(dist.Wishart)(df, scale_tril)
+    return _register_distribution_op(dist.Wishart)(df, scale_tril=scale_tril)
 
 
 @evaluate.register
-- 
2.43.0


From 68e47f2ed9e1f3aeb29a3b40152cec502fbed639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:55 +0000
Subject: [PATCH 56/60] fix: enumerate the support of numpyro distributions
 with names

---
 effectful/handlers/numpyro.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index e11c581..06f54e8 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -381,7 +381,13 @@ class _DistributionTerm(dist.Distribution):
     def enumerate_support(self, expand=True) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._reindex_sample(self._pos_base_dist.enumerate_support(expand), ())
+        # the values are along a dimension of their own in front of the named ones
+        values = self._pos_base_dist.enumerate_support(expand)
+        if not expand:
+            # and do not depend on the names
+            n_named = len(self._indices)
+            return jnp.reshape(values, values.shape[:1] + values.shape[1 + n_named :])
+        return self._reindex_sample(values, values.shape[:1])
 
     @defop
     def entropy(self) -> jax.Array:
-- 
2.43.0


From 1af34d3b277e5a218c0c63808333d1e9d5ea965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:55 +0000
Subject: [PATCH 57/60] fix: keep the names in the entropy of numpyro
 distributions

---
 effectful/handlers/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 06f54e8..fa4c2eb 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -393,7 +393,7 @@ class _DistributionTerm(dist.Distribution):
     def entropy(self) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._pos_base_dist.entropy()
+        return self._reindex_sample(self._pos_base_dist.entropy(), ())
 
     @defop
     def to_event(self, reinterpreted_batch_ndims=None) -> dist.Distribution:
-- 
2.43.0


From 7e9144670400336c3f0e2ecc7e93ac7c7a34f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:55 +0000
Subject: [PATCH 58/60] fix: expand numpyro distributions whose parameters have
 different ranks

---
 effectful/handlers/numpyro.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index fa4c2eb..f127f5f 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -412,10 +412,9 @@ class _DistributionTerm(dist.Distribution):
         if self.batch_shape == batch_shape:
             return self
 
-        expanded_args = [expand_arg(a, batch_shape) for a in self.args]
-        expanded_kwargs = {
-            k: expand_arg(v, batch_shape) for (k, v) in self.kwargs.items()
-        }
+        args, kwargs = _align_batch_dims(self)
+        expanded_args = [expand_arg(a, batch_shape) for a in args]
+        expanded_kwargs = {k: expand_arg(v, batch_shape) for (k, v) in kwargs.items()}
         return self.op(*expanded_args, **expanded_kwargs)
 
     def __repr__(self):
-- 
2.43.0


From 864f6ae9dd6c17a1ce393f89ae57843328a9f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:38 +0000
Subject: [PATCH 59/60] fix: line up the mask of a Pyro site with the names of
 its observation

---
 effectful/handlers/pyro.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 3e1be33..405f47c 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -230,13 +230,23 @@ class PyroShim(pyro.poutine.messenger.Messenger):
             assert set(sizesof(mask).keys()) <= (
                 set(indices.keys()) | set(sizesof(obs).keys())
             )
-            pos_mask, _ = PyroShim._broadcast_to_named(mask, dist.batch_shape, indices)
-
             pos_obs: torch.Tensor | None = None
+            mask_indices = dict(indices)
             if obs is not None:
                 pos_obs, naming = PyroShim._broadcast_to_named(
                     obs, dist.shape(), indices
                 )
+                # the mask gets the dimensions of the observation, in their order
+                sizes = {**sizesof(obs), **indices}
+                mask_indices = {
+                    n: sizes[n]
+                    for n in sorted(
+                        naming.name_to_dim, key=naming.name_to_dim.__getitem__
+                    )
+                }
+            pos_mask, _ = PyroShim._broadcast_to_named(
+                mask, dist.batch_shape, mask_indices
+            )
 
             # Each of the batch dimensions on the distribution gets a
             # cond_indep_stack frame.
-- 
2.43.0


From 2c5571b8546cce4349165d9c4f7ab10e3b054154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:11 +0000
Subject: [PATCH 60/60] fix: keep the names of Pyro samples replayed from the
 trace of another shim

---
 effectful/handlers/pyro.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 405f47c..4cf8fbe 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -303,6 +303,15 @@ class PyroShim(pyro.poutine.messenger.Messenger):
             assert msg["value"] is not None
             assert msg["infer"] is not None
 
+        # A sample that is replayed has the infer dict of the recorded one, whose
+        # shim status is that of the shim that recorded it. It is ours if it has our
+        # naming.
+        if (
+            "_index_naming" in msg
+            and self._index_naming.get(msg["name"]) is msg["_index_naming"]
+        ):
+            msg["infer"] = {**msg["infer"], "pyro_shim_status": (id(self), 1)}  # type: ignore
+
         # If there is no shim status, assume that we are looking at a guide sample.
         # In this case, we should handle the sample and claim it as ours if we have naming
         # information for it.
-- 
2.43.0

