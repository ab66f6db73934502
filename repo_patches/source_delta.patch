From 63514d38bb4d4a1c807bbec90e3a9e60e9d97688 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 01/18] fix: % on tensor terms is torch.remainder, as it is on
 tensors

---
 effectful/handlers/torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index c9b8f64..8faf232 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -433,10 +433,10 @@ class _TensorTerm(Term[torch.Tensor]):
         return torch.floor_divide(other, typing.cast(torch.Tensor, self))
 
     def __mod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(typing.cast(torch.Tensor, self), other)
+        return torch.remainder(typing.cast(torch.Tensor, self), other)
 
     def __rmod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(other, typing.cast(torch.Tensor, self))
+        return torch.remainder(other, typing.cast(torch.Tensor, self))
 
     def __lt__(self, other: torch.Tensor) -> torch.Tensor:
         return torch.lt(typing.cast(torch.Tensor, self), other)
-- 
2.43.0


From b871ad96e2e8b17aa15d925dfdfad1bedbf24a43 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 02/18] fix: indexed grad/jacfwd/jacrev/hessian/vmap forward
 keyword arguments

---
 effectful/handlers/torch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 8faf232..51f8897 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -642,28 +642,28 @@ def grad(func, *args, **kwargs):
     """
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     f = _register_torch_op(torch.func.grad(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(f(*a, *k))
+    return lambda *a, **k: reindex(f(*a, **k))
 
 
 @functools.wraps(torch.func.jacfwd)
 def jacfwd(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacfwd(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.jacrev)
 def jacrev(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacrev(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.hessian)
 def hessian(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     h = _register_torch_op(torch.func.hessian(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(h(*a, *k))
+    return lambda *a, **k: reindex(h(*a, **k))
 
 
 @functools.wraps(torch.func.jvp)
@@ -719,7 +719,7 @@ def vmap(func, *args, **kwargs):
     # vmap_func returns tensors of shape [vmap_dim, indexed_dim_1, ...,
     # indexed_dim_n, pos_dim_1, ..., pos_dim_m], so we reapply indexes starting
     # at dim 1
-    return lambda *a, **k: reindex(vmap_func(*a, *k), starting_dim=1)
+    return lambda *a, **k: reindex(vmap_func(*a, **k), starting_dim=1)
 
 
 @syntactic_eq.register
-- 
2.43.0


From e6e33e4f1404449a6f3c0a6cd51fdc09ec6255cb Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 03/18] fix: torch_getitem combines slices and ints with tensor
 indices as plain tensors do

---
 effectful/handlers/torch.py | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 51f8897..e31fcb4 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -286,36 +286,11 @@ def torch_getitem(x: torch.Tensor, key: tuple[IndexElement, ...]) -> torch.Tenso
     # fast path for simple cases
     if len(key) == 0:
         return x
-    elif not any(isinstance(k, torch.Tensor) for k in key):
-        return x[tuple(key)]
     elif all(isinstance(k, torch.Tensor) for k in key):
         return torch.ops.aten.index(x, key)
 
-    # handle None, Ellipsis, and missing dimensions
-    x, key = _getitem_ellipsis_and_none(x, key)
-
-    # Convert non-tensor args to tensors
-    key_l = list(key)
-    for i, arg in list(enumerate(key)):
-        if isinstance(arg, slice):
-            if arg == slice(None):
-                key_l[i] = None
-            else:
-                # Convert slices to torch.arange()s.
-                start = arg.start if arg.start is not None else 0
-                stop = arg.stop if arg.stop is not None else x.shape[i]
-                step = arg.step if arg.step is not None else 1
-                flat_arg = torch.arange(
-                    start, stop, step, dtype=torch.long, device=x.device
-                )
-                key_l[i] = flat_arg.reshape((-1,) + (1,) * i)
-        elif isinstance(arg, int):
-            key_l[i] = torch.tensor(arg, dtype=torch.long, device=x.device)
-        elif isinstance(arg, list | tuple):
-            flat_arg = torch.tensor(arg, dtype=torch.long, device=x.device)
-            key_l[i] = flat_arg.reshape(flat_arg.shape + (1,) * i)
-
-    return torch.ops.aten.index(x, tuple(key_l))
+    # slices, ints and tensors in one key combine as they do for plain tensors
+    return x[tuple(key)]
 
 
 @defdata.register(torch.Tensor)
-- 
2.43.0


From ae35350b6bf424d942ac436f4fe1fc517abe5a33 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 04/18] fix: embedding a pyro StudentT keeps its degrees of
 freedom

---
 effectful/handlers/pyro.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 2e79242..469f913 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -580,7 +580,6 @@ def _embed_masked(d: dist.MaskedDistribution) -> Term[TorchDistribution]:
 @evaluate.register(dist.Logistic)
 @evaluate.register(dist.LogisticNormal)
 @evaluate.register(dist.Normal)
-@evaluate.register(dist.StudentT)
 def _embed_loc_scale(d: TorchDistribution) -> Term[TorchDistribution]:
     with interpreter({}):
         loc_raw = d.loc
@@ -592,6 +591,20 @@ def _embed_loc_scale(d: TorchDistribution) -> Term[TorchDistribution]:
     return _register_distribution_op(type(d))(loc, scale)
 
 
+@evaluate.register
+def _embed_student_t(d: dist.StudentT) -> Term[TorchDistribution]:
+    with interpreter({}):
+        df_raw = d.df
+        loc_raw = d.loc
+        scale_raw = d.scale
+
+    df = evaluate(df_raw)
+    loc = evaluate(loc_raw)
+    scale = evaluate(scale_raw)
+
+    return _register_distribution_op(dist.StudentT)(df, loc, scale)
+
+
 @evaluate.register(dist.Bernoulli)
 @evaluate.register(dist.Categorical)
 @evaluate.register(dist.ContinuousBernoulli)
-- 
2.43.0


From 062e63d8900929f9736aefa819ec9ebe2612c580 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 05/18] fix: embedding a pyro Wishart passes scale_tril as
 scale_tril

---
 effectful/handlers/pyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 469f913..4b20765 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -840,7 +840,7 @@ def _embed_wishart(d: dist.Wishart) -> Term[TorchDistribution]:
     df = evaluate(df_raw)
     scale_tril = evaluate(scale_tril_raw)
 
-    return _register_distribution_op(dist.Wishart)(df, scale_tril)
+    return _register_distribution_op(dist.Wishart)(df, scale_tril=scale_tril)
 
 
 @evaluate.register
-- 
2.43.0


From 93e96e862759b3087a84badc4a42bab36709a803 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 06/18] fix: numpyro Wishart terms match the Wishart
 constructor

---
 effectful/handlers/numpyro.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 329cf47..492419d 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -1075,21 +1075,35 @@ def _embed_weibull(d: dist.Weibull) -> Term[dist.Weibull]:
 
 
 @defop
-def Wishart(df, scale_tril, **kwargs) -> dist.Wishart:
+def Wishart(
+    concentration, scale_matrix=None, rate_matrix=None, scale_tril=None, **kwargs
+) -> dist.Wishart:
     raise NotHandled
 
 
 @defdata.register(dist.Wishart)
 class WishartTerm(_DistributionTerm):
-    def __init__(self, ty, op, df, scale_tril, **kwargs):
-        super().__init__(dist.Wishart, op, df, scale_tril, **kwargs)
-        self.df = df
+    def __init__(
+        self, ty, op, concentration, scale_matrix, rate_matrix, scale_tril, **kwargs
+    ):
+        super().__init__(
+            dist.Wishart,
+            op,
+            concentration,
+            scale_matrix,
+            rate_matrix,
+            scale_tril,
+            **kwargs,
+        )
+        self.concentration = concentration
+        self.scale_matrix = scale_matrix
+        self.rate_matrix = rate_matrix
         self.scale_tril = scale_tril
 
 
 @evaluate.register(dist.Wishart)
 def _embed_wishart(d: dist.Wishart) -> Term[dist.Wishart]:
-    return Wishart(d.df, d.scale_tril)
+    return Wishart(d.concentration, None, None, d.scale_tril)
 
 
 @defop
-- 
2.43.0


From c4849abee71f3122ae513094824b0da5b4212933 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 07/18] fix: embedding a numpyro MultivariateNormal passes
 exactly one matrix parameter

---
 effectful/handlers/numpyro.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 492419d..856362e 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -997,9 +997,7 @@ class MultivariateNormalTerm(_DistributionTerm):
 def _embed_multivariatenormal(
     d: dist.MultivariateNormal,
 ) -> Term[dist.MultivariateNormal]:
-    return MultivariateNormal(
-        d.loc, d.covariance_matrix, d.precision_matrix, d.scale_tril
-    )
+    return MultivariateNormal(d.loc, None, None, d.scale_tril)
 
 
 @defop
-- 
2.43.0


From 2148770c4cf59214b469089d76ddb367c371f4c8 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 08/18] fix: entropy of an indexed numpyro distribution keeps
 its named dimensions

---
 effectful/handlers/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 856362e..c7ca5ce 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -352,7 +352,7 @@ class _DistributionTerm(dist.Distribution):
     def entropy(self) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._pos_base_dist.entropy()
+        return self._reindex_sample(self._pos_base_dist.entropy(), ())
 
     @defop
     def to_event(self, reinterpreted_batch_ndims=None) -> dist.Distribution:
-- 
2.43.0


From a5e40839323f4e946af932649f427054878734d0 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 09/18] fix: evaluating a numpyro Independent evaluates its
 base distribution

---
 effectful/handlers/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index c7ca5ce..76e9792 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -1186,4 +1186,4 @@ class IndependentTerm(_DistributionTerm):
 
 @evaluate.register(dist.Independent)
 def _embed_independent(d: dist.Independent) -> Term[dist.Independent]:
-    return Independent(d.base_dist, d.reinterpreted_batch_ndims)
+    return Independent(evaluate(d.base_dist), d.reinterpreted_batch_ndims)
-- 
2.43.0


From 8ea1d097b13203997f01698628977e2fdb53c9de Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 10/18] fix: embedding a numpyro LKJCholesky reads the
 attribute it has

---
 effectful/handlers/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 76e9792..6d8df09 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -963,7 +963,7 @@ class LKJCholeskyTerm(_DistributionTerm):
 
 @evaluate.register(dist.LKJCholesky)
 def _embed_lkjcholesky(d: dist.LKJCholesky) -> Term[dist.LKJCholesky]:
-    return LKJCholesky(d.dim, d.concentration)
+    return LKJCholesky(d.dimension, d.concentration)
 
 
 @defop
-- 
2.43.0


From dad02738427048358e480c36e875ea990da19edd Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 11/18] fix: enumerate_support of an indexed numpyro
 distribution names the batch dimensions

---
 effectful/handlers/numpyro.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 6d8df09..feeb4b1 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -346,7 +346,12 @@ class _DistributionTerm(dist.Distribution):
     def enumerate_support(self, expand=True) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._reindex_sample(self._pos_base_dist.enumerate_support(expand), ())
+        value = self._pos_base_dist.enumerate_support(expand)
+        if not expand:
+            # every batch dimension, named or not, has size one
+            return value[(slice(None),) + (0,) * len(self._indices)]
+        # the enumeration dimension is leftmost, like a sample dimension
+        return self._reindex_sample(value, value.shape[:1])
 
     @defop
     def entropy(self) -> jax.Array:
-- 
2.43.0


From 0a88da47f3f7cb62077deadacfa7f968362fa940 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 12/18] fix: syntactic_eq of a value and a term is False in
 either order

---
 effectful/ops/syntax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 6349e10..a44bb19 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -887,7 +887,8 @@ def _(x: collections.abc.Sequence, other) -> bool:
 @syntactic_eq.register(object)
 @syntactic_eq.register(str | bytes)
 def _(x: object, other) -> bool:
-    return x == other
+    # a term is never equal to a value, and its reflected __eq__ builds a term
+    return not isinstance(other, Term) and x == other
 
 
 class ObjectInterpretation[T, V](collections.abc.Mapping):
-- 
2.43.0


From 6b504195a65851176c4c368d33f539984fcb2f1c Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 13/18] fix: syntactic_eq treats a string on either side as
 atomic

---
 effectful/ops/syntax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index a44bb19..9e65514 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -879,6 +879,7 @@ def _(x: collections.abc.Sequence, other) -> bool:
     else:
         return (
             isinstance(other, collections.abc.Sequence)
+            and not isinstance(other, str | bytes)
             and len(x) == len(other)
             and all(syntactic_eq(a, b) for a, b in zip(x, other))
         )
-- 
2.43.0


From 9fc91b3fa5a99337de4aafb986f44376cdd51ff1 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 14/18] fix: evaluating an annotated type keeps each metadata
 item

---
 effectful/internals/unification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 0ebd029..9f5a4e2 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -144,7 +144,7 @@ class TypeEvaluator(abc.ABC):
     def _(self, typ: typing._AnnotatedAlias):  # type: ignore
         return typing.Annotated[
             self.evaluate(typing.get_args(typ)[0]),
-            typ.__metadata__,
+            *typ.__metadata__,
         ]
 
     @evaluate.register
-- 
2.43.0


From d4441dab48c6ae4a1a506a743d64d082ea02e26a Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 15/18] fix: a decoded tool call re-encodes under the name it
 is resolved by

---
 effectful/handlers/llm/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 4ccc8fd..baf60e6 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -782,7 +782,7 @@ def _serialize_tool_call(
             "type": "function",
             "id": value.id,
             "function": {
-                "name": value.tool.__name__,
+                "name": value.name,
                 "arguments": json.dumps(encoded_args),
             },
         }
-- 
2.43.0


From 9a3f4ae18dd285ebaaa8b8689dcfbcabb80c0405 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 16/18] fix: decoding a fixed-length tuple rejects missing and
 extra items

---
 effectful/handlers/llm/encoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index baf60e6..0a67cd6 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -319,7 +319,9 @@ def _pydantic_type_tuple(ty):
 
         def _nt_validate(value, info: pydantic.ValidationInfo):
             if isinstance(value, tuple | list):
-                value = dict(zip(nt_fields, value))
+                value = dict(zip(nt_fields, value, strict=True))
+            if set(value) != set(nt_fields):
+                raise ValueError(f"expected exactly the fields {nt_fields}")
             return ty(
                 **{
                     f: nt_adapters[i].validate_python(value[f], context=info.context)
@@ -365,6 +367,8 @@ def _pydantic_type_tuple(ty):
     def _validate(value, info: pydantic.ValidationInfo):
         if isinstance(value, tuple | list):
             value = {f"item_{i}": v for i, v in enumerate(value)}
+        if set(value) != set(model.model_fields):
+            raise ValueError(f"expected exactly the items {list(model.model_fields)}")
         return tuple(
             adapters[i].validate_python(value[f"item_{i}"], context=info.context)
             for i in range(len(effective))
-- 
2.43.0


From c445c358ffb48caad4fb93ed70268f5df363cdea Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 17/18] fix: a handler class inherits the implementation its
 method resolution order selects

---
 effectful/ops/syntax.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 9e65514..f6c91a2 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -946,16 +946,23 @@ class ObjectInterpretation[T, V](collections.abc.Mapping):
     # This dict is shared by all `Implementation`s,
     # so we need to clear it when we're done.
     _temporary_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
+    _declared_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
     implementations: dict[Operation[..., T], Callable[..., V]] = dict()
 
     @classmethod
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
-        cls.implementations = ObjectInterpretation._temporary_implementations.copy()
+        cls._declared_implementations = (
+            ObjectInterpretation._temporary_implementations.copy()
+        )
+        cls.implementations = {}
 
         for sup in cls.mro():
             if issubclass(sup, ObjectInterpretation):
-                cls.implementations = {**sup.implementations, **cls.implementations}
+                cls.implementations = {
+                    **sup.__dict__.get("_declared_implementations", {}),
+                    **cls.implementations,
+                }
 
         ObjectInterpretation._temporary_implementations.clear()
 
-- 
2.43.0


From 75bd9cb3616eeac128f63d691261a0311f2ee9bf Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 18/18] fix: restricted execution keeps the attribute guard
 whatever the scope holds

---
 effectful/handlers/llm/evaluation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 729d818..d7d0bf3 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -541,6 +541,9 @@ class RestrictedEvalProvider(ObjectInterpretation):
         # Enable sequence unpacking in comprehensions and for loops
         rglobals["_iter_unpack_sequence_"] = Guards.guarded_iter_unpack_sequence
 
+        # Attribute access compiles to `_getattr_`; `env` must not shadow the
+        # guard that the restricted builtins provide.
+        rglobals["_getattr_"] = Guards.safer_getattr
         rglobals["getattr"] = Guards.safer_getattr
         rglobals["setattr"] = Guards.guarded_setattr
         rglobals["_write_"] = lambda x: x
-- 
2.43.0

