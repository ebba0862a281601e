From f4ac8027c45c4706d4bc5aa27d991c7220d9a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 01/37] fix: give each direction of a peer pair its own message
 counter

Send and recv to the same peer shared one counter, so parties that send to
each other before receiving (e.g. a swap shuffle {0: 1, 1: 0}) waited for
keys that were never sent and deadlocked.
---
 mplang/backends/simp_worker/comm_context.py | 26 ++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/mplang/backends/simp_worker/comm_context.py b/mplang/backends/simp_worker/comm_context.py
index 744c7f2..8363d34 100644
--- a/mplang/backends/simp_worker/comm_context.py
+++ b/mplang/backends/simp_worker/comm_context.py
@@ -35,12 +35,15 @@ class CommContext:
 
     Key format: ``"{context_id}:{seq}"``
 
-    Send and recv to the same peer share **one** counter to maintain SPMD
-    symmetry: for any peer pair (A, B), A's N-th interaction with B matches
-    B's N-th interaction with A.
+    Each direction of a peer pair (A, B) has its own counter: A's N-th send to
+    B matches B's N-th recv from A.  The two directions must not share one
+    counter, otherwise a simultaneous exchange (both parties send first, then
+    receive) would wait for keys nobody ever sends.  Messages travelling in
+    opposite directions land in different mailboxes, so equal sequence numbers
+    cannot collide.
     """
 
-    __slots__ = ("_comm", "_id", "_rank", "_seq", "_spawn_counter")
+    __slots__ = ("_comm", "_id", "_rank", "_recv_seq", "_send_seq", "_spawn_counter")
 
     def __init__(
         self,
@@ -51,7 +54,8 @@ class CommContext:
         self._comm = comm
         self._id = context_id
         self._rank = my_rank
-        self._seq: dict[int, int] = defaultdict(int)
+        self._send_seq: dict[int, int] = defaultdict(int)
+        self._recv_seq: dict[int, int] = defaultdict(int)
         self._spawn_counter: int = 0
 
     @property
@@ -85,8 +89,8 @@ class CommContext:
         return CommContext(self._comm, child_id, self._rank)
 
     def send(self, to: int, data: Any, *, is_raw_bytes: bool = False) -> SendRequest:
-        seq = self._seq[to]
-        self._seq[to] = seq + 1
+        seq = self._send_seq[to]
+        self._send_seq[to] = seq + 1
         key = f"{self._id}:{seq}"
         return self._comm.send(to, key, data, is_raw_bytes=is_raw_bytes)
 
@@ -98,13 +102,13 @@ class CommContext:
         is_raw_bytes: bool = False,
         timeout: float | None = None,
     ) -> None:
-        seq = self._seq[to]
-        self._seq[to] = seq + 1
+        seq = self._send_seq[to]
+        self._send_seq[to] = seq + 1
         key = f"{self._id}:{seq}"
         self._comm.send_sync(to, key, data, is_raw_bytes=is_raw_bytes, timeout=timeout)
 
     def recv(self, frm: int, *, timeout: float | None = None) -> Any:
-        seq = self._seq[frm]
-        self._seq[frm] = seq + 1
+        seq = self._recv_seq[frm]
+        self._recv_seq[frm] = seq + 1
         key = f"{self._id}:{seq}"
         return self._comm.recv(frm, key, timeout=timeout)
-- 
2.43.0


From d66b183b63bea54372433cad90eda8fd665e2984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 02/37] fix: number child comm contexts per suffix, not by call
 order

---
 mplang/backends/simp_worker/comm_context.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/simp_worker/comm_context.py b/mplang/backends/simp_worker/comm_context.py
index 8363d34..d6a4341 100644
--- a/mplang/backends/simp_worker/comm_context.py
+++ b/mplang/backends/simp_worker/comm_context.py
@@ -43,7 +43,15 @@ class CommContext:
     cannot collide.
     """
 
-    __slots__ = ("_comm", "_id", "_rank", "_recv_seq", "_send_seq", "_spawn_counter")
+    __slots__ = (
+        "_comm",
+        "_id",
+        "_rank",
+        "_recv_seq",
+        "_send_seq",
+        "_spawn_counter",
+        "_suffix_counter",
+    )
 
     def __init__(
         self,
@@ -57,6 +65,7 @@ class CommContext:
         self._send_seq: dict[int, int] = defaultdict(int)
         self._recv_seq: dict[int, int] = defaultdict(int)
         self._spawn_counter: int = 0
+        self._suffix_counter: dict[str, int] = defaultdict(int)
 
     @property
     def rank(self) -> int:
@@ -71,7 +80,8 @@ class CommContext:
 
         Args:
             suffix: Explicit suffix for the child context ID.  When provided,
-                ``context_id = f"{parent_id}.{suffix}"``.  This is used when
+                ``context_id = f"{parent_id}.{n}.{suffix}"`` where ``n`` counts
+                the earlier children with the same suffix.  This is used when
                 the caller needs a deterministic, content-based ID that is
                 stable across ranks regardless of call order (e.g. the async
                 DAG scheduler uses ``f"{graph_exec_key}.{op_idx}"``).
@@ -84,7 +94,11 @@ class CommContext:
         if suffix is None:
             child_id = f"{self._id}.{self._spawn_counter}"
         else:
-            child_id = f"{self._id}.{self._spawn_counter}.{suffix}"
+            # Count occurrences of this suffix only: the total number of spawns
+            # so far depends on call order, which differs between ranks.
+            nth = self._suffix_counter[suffix]
+            self._suffix_counter[suffix] = nth + 1
+            child_id = f"{self._id}.{nth}.{suffix}"
         self._spawn_counter += 1
         return CommContext(self._comm, child_id, self._rank)
 
-- 
2.43.0


From 475993df43c689992b9d19dbe57c5a9d426734dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 03/37] fix: skip a dynamic party call where an operand is
 missing

---
 mplang/backends/simp_worker/ops.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/ops.py b/mplang/backends/simp_worker/ops.py
index 5a5f2e7..33f10ae 100644
--- a/mplang/backends/simp_worker/ops.py
+++ b/mplang/backends/simp_worker/ops.py
@@ -73,8 +73,14 @@ def _pcall_dynamic_worker_impl(
 ) -> Any:
     """Worker implementation of pcall_dynamic."""
     fn_graph = op.regions[0]
-    result = interpreter.evaluate_graph(fn_graph, list(args))
     n_out = len(fn_graph.outputs)
+    if any(arg is None for arg in args):
+        # An operand is not present on this party
+        if n_out == 0:
+            return []
+        return None if n_out == 1 else [None] * n_out
+
+    result = interpreter.evaluate_graph(fn_graph, list(args))
     if n_out == 0:
         return []
     return result[0] if n_out == 1 else result
-- 
2.43.0


From 4dd89175068280cdc3c18909c2e27a5318549d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 04/37] fix: restore the communication scope after every
 operation and failure

---
 mplang/runtime/interpreter.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index a6414de..1210129 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -941,6 +941,23 @@ class Interpreter(AbstractInterpreter):
         if prev_comm_ctx is None and self.comm_ctx is not None:
             self._tls.comm_ctx = self.comm_ctx
 
+        try:
+            return self._run_ops_sync(graph, env, job_id)
+        finally:
+            # Restore on failure too, or the next job on this thread would
+            # keep communicating in the failed job's scope.
+            self._restore_comm_ctx(prev_comm_ctx)
+
+    def _restore_comm_ctx(self, prev: CommContext | None) -> None:
+        """Put back the CommContext that was in TLS before an evaluation."""
+        if prev is not None:
+            self._tls.comm_ctx = prev
+        elif hasattr(self._tls, "comm_ctx"):
+            del self._tls.comm_ctx
+
+    def _run_ops_sync(
+        self, graph: Graph, env: dict[Value, Any], job_id: str | None
+    ) -> list[Any]:
         # Build consumer counts for intermediate value GC
         remaining_consumers = self._build_value_gc_info(graph)
 
@@ -1004,13 +1021,6 @@ class Interpreter(AbstractInterpreter):
         if self.tracer and job_id:
             self.tracer.save_trace(job_id=job_id, rank=self.trace_pid)
 
-        # Restore previous comm_ctx (only if we were the one who set it)
-        if prev_comm_ctx is None and self.comm_ctx is not None:
-            try:
-                delattr(self._tls, "comm_ctx")
-            except AttributeError:
-                pass
-
         return [env[out] for out in graph.outputs]
 
     def _evaluate_graph_async(
@@ -1167,6 +1177,7 @@ class Interpreter(AbstractInterpreter):
                 fut.add_done_callback(callback)
             else:
                 # Sync execution (run immediately)
+                prev_ctx = getattr(self._tls, "comm_ctx", None)
                 try:
                     if child_ctx is not None:
                         self._tls.comm_ctx = child_ctx
@@ -1178,6 +1189,10 @@ class Interpreter(AbstractInterpreter):
                     on_op_done(op, res)
                 except Exception as e:
                     on_op_done(op, None, error=e)
+                finally:
+                    # The op's scope ends here: what runs next on this thread
+                    # must not derive its scope from whichever op ran last.
+                    self._restore_comm_ctx(prev_ctx)
 
         # 5. Initial Submission
         # Submit all ops with 0 pending inputs
-- 
2.43.0


From ebe2aaf26491dc40a906418a112e729ec4b8bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 05/37] fix: reject non-scalar multi-party predicates

---
 mplang/dialects/simp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 04d3be6..b232414 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -55,7 +55,11 @@ VERIFY_UNIFORM_DEFAULT = True
 
 def _validate_scalar_predicate(value: el.graph.Value, context: str) -> None:
     """Validate that a graph value represents a scalar predicate."""
-    shape = getattr(value.type, "shape", None)
+    # A multi-party value has the shape of the value each party holds
+    local_type = value.type
+    if isinstance(local_type, elt.MPType):
+        local_type = local_type.value_type
+    shape = getattr(local_type, "shape", None)
     if shape is not None and shape != ():
         raise TypeError(
             f"{context} must be scalar, got shape {shape} with type {value.type}"
-- 
2.43.0


From dc829d7cb01c95c4d97cfbd18a831886be919f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 06/37] fix: give every driver dispatch its own job id on the
 workers

---
 mplang/backends/simp_driver/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_driver/ops.py b/mplang/backends/simp_driver/ops.py
index 10588cb..2294a4a 100644
--- a/mplang/backends/simp_driver/ops.py
+++ b/mplang/backends/simp_driver/ops.py
@@ -21,6 +21,7 @@ Op-specific logic lives in Worker handlers (simp_worker/ops.py).
 
 from __future__ import annotations
 
+import uuid
 from typing import Any
 
 from mplang.backends.simp_driver.values import DriverVar
@@ -104,14 +105,16 @@ def _generic_simp_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
     # 1. Wrap operation into a Graph
     wrapper_graph = _wrap_op_as_graph(op)
 
-    # 2. SPMD dispatch to ALL workers
+    # 2. SPMD dispatch to ALL workers. A fresh job id keeps the messages of this
+    # dispatch apart from those of concurrent (or failed) ones on the same workers.
+    job_id = uuid.uuid4().hex
     futures = []
     for rank in range(world_size):
         # Extract per-party inputs from DriverVars
         party_inputs = [
             arg[rank] if isinstance(arg, DriverVar) else arg for arg in args
         ]
-        futures.append(driver.submit(rank, wrapper_graph, party_inputs))
+        futures.append(driver.submit(rank, wrapper_graph, party_inputs, job_id=job_id))
 
     # 3. Collect results
     results = driver.collect(futures)
-- 
2.43.0


From dde34ec98e8a56cae9f9ada50ac5affd0d7524cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 07/37] fix: publish an asynchronous job's result before its
 final status

---
 mplang/backends/simp_worker/http.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 29dc3ba..0ec1933 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -691,12 +691,14 @@ def register_routes(
         async_tasks[exec_id].status = AsyncTaskStatus.RUNNING
         try:
             result = _do_execute(graph, inputs, job_id)
-            async_tasks[exec_id].status = AsyncTaskStatus.SUCCESS
+            # A poll may see the final status as soon as it is set, so the
+            # result (or error) has to be in place before it.
             async_tasks[exec_id].result = serde.dumps_b64(result)
+            async_tasks[exec_id].status = AsyncTaskStatus.SUCCESS
         except Exception as e:
             logger.error(f"Worker {rank} async exec failed: {e}")
-            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
             async_tasks[exec_id].error = str(e)
+            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
 
     @app.post("/exec")
     async def execute(req: ExecRequest) -> dict[str, str]:
-- 
2.43.0


From 1dd837f9c4f7422c346b0b79f159479f7f760978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 08/37] fix: pass captured variables of func.func to its calls

---
 mplang/dialects/func.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mplang/dialects/func.py b/mplang/dialects/func.py
index e2fdcc0..86bf357 100644
--- a/mplang/dialects/func.py
+++ b/mplang/dialects/func.py
@@ -57,9 +57,10 @@ def _func_trace(fn: Callable[..., Any], *args: Any, **kwargs: Any) -> el.TraceOb
     }
 
     # func.func returns a function handle (single output of FuncType)
+    # Captured outer variables are operands here; func.call passes them on.
     result_values = tracer.graph.add_op(
         opcode="func.func",
-        inputs=[],
+        inputs=[tracer.lift(obj)._graph_value for obj in traced.captured],
         output_types=[FuncType],
         attrs=attrs,
         regions=[traced.graph],
@@ -92,7 +93,11 @@ def _call_trace(fn_handle: el.TraceObject, *args: Any) -> Any:
 
     result_values = tracer.graph.add_op(
         opcode="func.call",
-        inputs=[fn_handle._graph_value] + [arg._graph_value for arg in args],
+        inputs=[
+            fn_handle._graph_value,
+            *(arg._graph_value for arg in args),
+            *fn_op.inputs,  # captured variables
+        ],
         output_types=output_types,
         attrs={},
         regions=[],
-- 
2.43.0


From b72c234789ce8e8c68fb7e0eaa617e9298562a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 09/37] fix: reject conditional branches that return different
 structures or constants

---
 mplang/dialects/simp.py |  6 ++++++
 mplang/edsl/tracer.py   | 30 ++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index b232414..54267cf 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -188,6 +188,12 @@ def _uniform_cond_trace(
             "uniform_cond branch output signature mismatch: "
             f"then={then_types}, else={else_types}"
         )
+    if not then_traced.is_output_structure_match(else_traced):
+        raise TypeError(
+            "uniform_cond branches must return the same structure and constants: "
+            f"then={then_traced.out_tree} {then_traced.out_imms}, "
+            f"else={else_traced.out_tree} {else_traced.out_imms}"
+        )
 
     num_arg_vars = len(then_traced.in_var_pos)
 
diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 46ef564..c66f52d 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -476,6 +476,36 @@ class TracedFunction:
             )
         )
 
+    def is_output_structure_match(self, other: TracedFunction) -> bool:
+        """Check if this TracedFunction returns the same structure as another.
+
+        Args:
+            other: Another TracedFunction to compare against
+
+        Returns:
+            True if both return the same PyTree, with variables at the same
+            positions and equal immediates (constants) at the others
+        """
+
+        def same_immediate(a: Any, b: Any) -> bool:
+            if a is b:
+                return True
+            if type(a) is not type(b):
+                return False
+            if hasattr(a, "shape") and a.shape != b.shape:
+                return False
+            eq = a == b
+            return bool(eq.all() if hasattr(eq, "all") else eq)
+
+        return (
+            self.out_tree == other.out_tree
+            and self.out_var_pos == other.out_var_pos
+            and all(
+                same_immediate(a, b)
+                for a, b in zip(self.out_imms, other.out_imms, strict=True)
+            )
+        )
+
     def compiler_ir(self, verbose: bool = False) -> str:
         """Get human-readable IR representation of the traced function.
 
-- 
2.43.0


From de78db967662dd9d1fe9f8d62ed3142d2a4d06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 10/37] fix: reject loop bodies that return another structure
 than the loop state

---
 mplang/dialects/simp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 54267cf..472d6a7 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -335,6 +335,11 @@ def _while_loop_trace(
                 "while_loop body_fn output type mismatch at index "
                 f"{idx}: {out_val.type} vs {state_obj.type}"
             )
+    if body_traced.out_tree != state_treedef:
+        raise TypeError(
+            "while_loop body_fn must return the same structure as init state: "
+            f"{state_treedef} expected, got {body_traced.out_tree}"
+        )
 
     all_captures = _merge_captures(cond_traced.captured, body_traced.captured)
 
-- 
2.43.0


From 9b7f3123862a15f7d6c7e8553ec09b335f1734c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 11/37] fix: make table type equality agree with its hash on
 column order

---
 mplang/edsl/typing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mplang/edsl/typing.py b/mplang/edsl/typing.py
index 03f9b51..e47f93c 100644
--- a/mplang/edsl/typing.py
+++ b/mplang/edsl/typing.py
@@ -613,7 +613,11 @@ class TableType(BaseType):
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, TableType):
             return NotImplemented
-        return self.schema == other.schema and self.nrows == other.nrows
+        # Column order is part of the layout (and of the hash).
+        return (
+            list(self.schema.items()) == list(other.schema.items())
+            and self.nrows == other.nrows
+        )
 
     def __hash__(self) -> int:
         return hash(("TableType", tuple(self.schema.items()), self.nrows))
-- 
2.43.0


From 431192279b55d4537595234e4dce0452878d8c36 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:12:58 +0000
Subject: [PATCH 12/37] fix: register the PHE types for serialization

---
 mplang/dialects/phe.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/phe.py b/mplang/dialects/phe.py
index 5f437b9..4069452 100644
--- a/mplang/dialects/phe.py
+++ b/mplang/dialects/phe.py
@@ -73,17 +73,19 @@ result = phe.decrypt_auto(ct, encoder, sk)
 from __future__ import annotations
 
 from collections.abc import Callable
-from typing import Any, NamedTuple
+from typing import Any, ClassVar, NamedTuple
 
 import mplang.edsl as el
 import mplang.edsl.typing as elt
 from mplang.dialects import tensor
+from mplang.edsl import serde
 
 # ==============================================================================
 # --- Type Definitions
 # ==============================================================================
 
 
+@serde.register_class
 class KeyType(elt.BaseType):
     """Type for PHE keys carrying scheme information."""
 
@@ -103,7 +105,18 @@ class KeyType(elt.BaseType):
     def __hash__(self) -> int:
         return hash((self.scheme, self.is_public))
 
+    # --- Serde methods ---
+    _serde_kind: ClassVar[str] = "phe.KeyType"
 
+    def to_json(self) -> dict[str, Any]:
+        return {"scheme": self.scheme, "is_public": self.is_public}
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> KeyType:
+        return cls(scheme=data["scheme"], is_public=data["is_public"])
+
+
+@serde.register_class
 class PlaintextType(elt.ScalarType):
     """Represents an encoded integer ready for PHE encryption.
 
@@ -126,7 +139,18 @@ class PlaintextType(elt.ScalarType):
     def __hash__(self) -> int:
         return hash(("PlaintextType", self.bitwidth))
 
+    # --- Serde methods ---
+    _serde_kind: ClassVar[str] = "phe.PlaintextType"
+
+    def to_json(self) -> dict[str, Any]:
+        return {"bitwidth": self.bitwidth}
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> PlaintextType:
+        return cls(bitwidth=data["bitwidth"])
 
+
+@serde.register_class
 class CiphertextType(elt.ScalarType, elt.EncryptedTrait):
     """Represents a single scalar value encrypted with a PHE scheme.
 
@@ -151,6 +175,16 @@ class CiphertextType(elt.ScalarType, elt.EncryptedTrait):
     def __hash__(self) -> int:
         return hash(("CiphertextType", self._scheme))
 
+    # --- Serde methods ---
+    _serde_kind: ClassVar[str] = "phe.CiphertextType"
+
+    def to_json(self) -> dict[str, Any]:
+        return {"scheme": self._scheme}
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> CiphertextType:
+        return cls(scheme=data["scheme"])
+
 
 # Opaque types for PHE (singleton instances)
 EncoderType: elt.CustomType = elt.CustomType("Encoder")
-- 
2.43.0


From 30a08cd05adafaeffeca2fc12b1cdc15ada551c3 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:24:38 +0000
Subject: [PATCH 13/37] fix: keep an empty SPU link description through
 serialization

---
 mplang/dialects/spu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/spu.py b/mplang/dialects/spu.py
index 7b0a9a9..63b7449 100644
--- a/mplang/dialects/spu.py
+++ b/mplang/dialects/spu.py
@@ -209,7 +209,9 @@ class SPUConfig:
             enable_hal_profile=profiling_flag("enable_hal_profile"),
             enable_pphlo_trace=profiling_flag("enable_pphlo_trace"),
             enable_action_trace=profiling_flag("enable_action_trace"),
-            link_desc=SPULinkDesc.from_dict(link_desc) if link_desc else None,
+            link_desc=(
+                SPULinkDesc.from_dict(link_desc) if link_desc is not None else None
+            ),
         )
 
     # --- Serde methods ---
-- 
2.43.0


From 5f376f2cbba2e00d3b222053a5e44075ed22adbc Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:34:14 +0000
Subject: [PATCH 14/37] fix: keep column and dict entry order in program
 artifacts

---
 mplang/edsl/program.py | 23 ++++++++++++++++++++++-
 mplang/tool/program.py |  1 -
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/mplang/edsl/program.py b/mplang/edsl/program.py
index 0594827..b33b8e9 100644
--- a/mplang/edsl/program.py
+++ b/mplang/edsl/program.py
@@ -124,11 +124,32 @@ class CompiledProgram:
         )
 
 
+def _pin_entry_order(node: Any) -> Any:
+    """Record the order of entries where it carries meaning.
+
+    The digest is computed over JSON with sorted keys, but the columns of a table
+    type and the entries of a dict value are ordered.
+    """
+    if isinstance(node, list):
+        return [_pin_entry_order(v) for v in node]
+    if not isinstance(node, dict):
+        return node
+    pinned = {k: _pin_entry_order(v) for k, v in node.items()}
+    for kind, field in (("mplang.TableType", "schema"), ("_dict", "items")):
+        if node.get("_kind") == kind:
+            order = list(node[field])
+            if order != sorted(order):
+                pinned["_order"] = order
+    return pinned
+
+
 def compute_graph_digest(graph: Graph) -> str:
     """Compute a deterministic digest for a Graph.
 
     We intentionally avoid `serde.dumps()` because it doesn't sort keys.
     """
 
-    canonical = json.dumps(serde.to_json(graph), sort_keys=True, separators=(",", ":"))
+    canonical = json.dumps(
+        _pin_entry_order(serde.to_json(graph)), sort_keys=True, separators=(",", ":")
+    )
     return hashlib.sha256(canonical.encode("utf-8")).hexdigest()
diff --git a/mplang/tool/program.py b/mplang/tool/program.py
index 80ce294..d38a31e 100644
--- a/mplang/tool/program.py
+++ b/mplang/tool/program.py
@@ -231,7 +231,6 @@ def pack(program: CompiledProgram, *, compress: bool = True) -> bytes:
         serde.to_json(program),
         ensure_ascii=False,
         indent=2,
-        sort_keys=True,
     ).encode("utf-8")
 
     buf = io.BytesIO()
-- 
2.43.0


From fe2f4412cb181cb2854a5cc1701fe05cfd9282dd Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 15/37] fix: reject program artifacts whose graph digest was
 blanked

---
 mplang/tool/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/tool/program.py b/mplang/tool/program.py
index d38a31e..4a8626d 100644
--- a/mplang/tool/program.py
+++ b/mplang/tool/program.py
@@ -143,7 +143,7 @@ def _validate_program(program: CompiledProgram) -> None:
         )
 
     actual_digest = compute_graph_digest(program.graph)
-    if program.graph_digest and program.graph_digest != actual_digest:
+    if program.graph_digest != actual_digest:
         raise ValueError(
             "Graph digest mismatch: "
             f"expected={program.graph_digest}, actual={actual_digest}"
-- 
2.43.0


From 1381138b44203a6a14fc86525096264043abc278 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 16/37] fix: keep object store keys out of sibling directories
 of the root

---
 mplang/runtime/object_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 3d10579..a3526a3 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -180,7 +180,7 @@ class FileSystemBackend(StoreBackend):
         root = os.path.abspath(self._root_path)
         clean_key = key.lstrip("/")
         path = os.path.abspath(os.path.join(root, clean_key))
-        if not path.startswith(root):
+        if os.path.commonpath([root, path]) != root:
             raise ValueError(f"Invalid key (traversal attempt): {key}")
         return path
 
-- 
2.43.0


From 6d384f15b0ba5d5f458b35351da1c2a2709e3d7e Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 17/37] fix: keep the stored object when its replacement cannot
 be serialized

---
 mplang/runtime/object_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index a3526a3..2195517 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -186,9 +186,11 @@ class FileSystemBackend(StoreBackend):
 
     def put(self, key: str, value: Any) -> None:
         path = self._resolve_key(key)
+        # Serialize first: a value that cannot be stored must not destroy the old one.
+        data = pickle.dumps(value)
         os.makedirs(os.path.dirname(path), exist_ok=True)
         with open(path, "wb") as f:
-            pickle.dump(value, f)
+            f.write(data)
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
-- 
2.43.0


From b575dfe9089414dfd56940554be9f37e7b211466 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 18/37] fix: do not report key prefixes as stored objects

---
 mplang/runtime/object_store.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 2195517..ab2c0c5 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -194,18 +194,18 @@ class FileSystemBackend(StoreBackend):
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
-        if not os.path.exists(path):
+        if not os.path.isfile(path):
             raise KeyError(f"Key not found: {key}")
         with open(path, "rb") as f:
             return pickle.load(f)
 
     def delete(self, key: str) -> None:
         path = self._resolve_key(key)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             os.remove(path)
 
     def exists(self, key: str) -> bool:
-        return os.path.exists(self._resolve_key(key))
+        return os.path.isfile(self._resolve_key(key))
 
     def list_keys(self) -> list[str]:
         assert self._root_path is not None
-- 
2.43.0


From 476f93c41bb1bb2f51a12edfe9ab3b8eb7af452e Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 19/37] fix: do not map the unsigned one-bit integer type to
 bool

---
 mplang/dialects/dtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/dialects/dtypes.py b/mplang/dialects/dtypes.py
index 68dabd0..33d8d4f 100644
--- a/mplang/dialects/dtypes.py
+++ b/mplang/dialects/dtypes.py
@@ -98,7 +98,7 @@ def to_jax(dtype: scalar_types.ScalarType) -> Any:
 
     # Handle dynamically created types (same structure but different instance)
     if isinstance(dtype, scalar_types.IntegerType):
-        if dtype.bitwidth == 1:
+        if dtype.bitwidth == 1 and dtype.signed:
             return jnp.bool_
         prefix = "int" if dtype.signed else "uint"
         try:
-- 
2.43.0


From e6530d82ec271d2ada4814925f73f7ce7f25d281 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 20/37] fix: do not take bfloat16 for float16

---
 mplang/dialects/dtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/dialects/dtypes.py b/mplang/dialects/dtypes.py
index 33d8d4f..85b86e7 100644
--- a/mplang/dialects/dtypes.py
+++ b/mplang/dialects/dtypes.py
@@ -226,7 +226,7 @@ def from_dtype(dtype: Any) -> scalar_types.ScalarType:
     elif "uint64" in name:
         return scalar_types.u64
     # Float types
-    elif "float16" in name:
+    elif "float16" in name and "bfloat16" not in name:
         return scalar_types.f16
     elif "float32" in name:
         return scalar_types.f32
-- 
2.43.0


From 3ea3daa9c8447f841f8103bc4872aa65afdbf486 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 21/37] fix: keep the values of tensor constants given in
 non-native byte order

---
 mplang/dialects/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mplang/dialects/tensor.py b/mplang/dialects/tensor.py
index 9ac52f8..e96d145 100644
--- a/mplang/dialects/tensor.py
+++ b/mplang/dialects/tensor.py
@@ -227,6 +227,9 @@ def _constant_trace(data: Any) -> el.TraceObject:
 
     # Unified numpy conversion for all data types
     np_array = np.array(data)
+    if not np_array.dtype.isnative:
+        # The type carries no byte order: the bytes are read back in native order
+        np_array = np_array.astype(np_array.dtype.newbyteorder("="))
     dtype = dtypes.from_dtype(np_array.dtype)
     shape = tuple(np_array.shape)
     output_type: elt.TensorType = elt.TensorType(dtype, shape)
-- 
2.43.0


From 8630cd80f5d7123aa899cc744b152cae8740605d Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 22/37] fix: refuse raw messages that are not base64

---
 mplang/backends/simp_worker/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 0ec1933..7cf106a 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -832,7 +832,7 @@ def register_routes(
                 if req.is_raw_bytes:
                     import base64
 
-                    data = base64.b64decode(req.data)
+                    data = base64.b64decode(req.data, validate=True)
                 else:
                     data = serde.loads_b64(req.data)
 
-- 
2.43.0


From 6993e4c47284ca896da83864743512fc3c878fe2 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 23/37] fix: keep job traces inside the trace directory

---
 mplang/runtime/interpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index 1210129..da3d4e2 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -33,6 +33,7 @@ import threading
 import time
 from collections.abc import Callable
 from typing import TYPE_CHECKING, Any, cast
+from urllib.parse import quote
 
 from mplang.edsl.context import AbstractInterpreter
 from mplang.edsl.graph import Graph, Value
@@ -207,7 +208,8 @@ class ExecutionTracer:
             if job_id:
                 # Format: trace_<job_id>_rank_<rank>.json
                 rank_str = f"_rank_{rank}" if rank is not None else ""
-                filename = f"trace_{job_id}{rank_str}.json"
+                # job_id comes from the network: it must stay one path component.
+                filename = f"trace_{quote(job_id, safe='')}{rank_str}.json"
             else:
                 timestamp = int(time.time() * 1000)
                 tid = threading.get_ident()
-- 
2.43.0


From df40be53201a77eb867136d474d3b6fa8bddf6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:48 +0000
Subject: [PATCH 24/37] fix: packed window and strided sums counted slots past
 the window, sparse sums across slot rows read the wrong slots

---
 mplang/libs/mpc/analytics/aggregation.py | 110 ++++++++++-------------
 1 file changed, 48 insertions(+), 62 deletions(-)

diff --git a/mplang/libs/mpc/analytics/aggregation.py b/mplang/libs/mpc/analytics/aggregation.py
index c05dc64..b55e0f7 100644
--- a/mplang/libs/mpc/analytics/aggregation.py
+++ b/mplang/libs/mpc/analytics/aggregation.py
@@ -19,7 +19,6 @@ This module implements efficient aggregation algorithms using BFV rotation.
 
 from __future__ import annotations
 
-import math
 from typing import Any
 
 import numpy as np
@@ -57,27 +56,40 @@ def _safe_rotate(
     return current
 
 
-def _rotate_and_sum_row(
-    ciphertext: Any, k: int, galois_keys: Any, max_step: int = 1024
+def _sum_window(
+    ciphertext: Any, count: int, stride: int, galois_keys: Any, max_step: int = 1024
 ) -> Any:
-    """Sum first k elements within a single row (k <= row_size).
+    """Slot i becomes the sum of slots i, i+stride, ..., i+(count-1)*stride of its row.
 
-    Uses the recursive doubling algorithm with O(log k) rotations.
+    Uses recursive doubling with O(log count) rotations; the partial sums named
+    by the binary digits of `count` are combined, so exactly `count` slots enter.
     """
-    if k <= 1:
+    if count <= 1:
         return ciphertext
 
-    num_steps = math.ceil(math.log2(k))
-    current = ciphertext
+    block, size = ciphertext, 1  # slot i of block: sum of the first `size` slots
+    total, done = None, 0  # slot i of total: sum of the first `done` slots
 
-    for i in range(num_steps):
-        step = 1 << i
-        if step >= k:
-            break
-        rotated = _safe_rotate(current, step, galois_keys, max_step)
-        current = bfv.add(current, rotated)
+    while True:
+        if count & size:
+            part = _safe_rotate(block, done * stride, galois_keys, max_step)
+            total = part if total is None else bfv.add(total, part)
+            done += size
+        if 2 * size > count:
+            return total
+        rotated = _safe_rotate(block, size * stride, galois_keys, max_step)
+        block = bfv.add(block, rotated)
+        size *= 2
 
-    return current
+
+def _rotate_and_sum_row(
+    ciphertext: Any, k: int, galois_keys: Any, max_step: int = 1024
+) -> Any:
+    """Sum first k elements within a single row (k <= row_size).
+
+    Uses the recursive doubling algorithm with O(log k) rotations.
+    """
+    return _sum_window(ciphertext, k, 1, galois_keys, max_step)
 
 
 def rotate_and_sum(
@@ -86,8 +98,8 @@ def rotate_and_sum(
     """Aggregate the first k elements of a ciphertext using O(log k) rotations.
 
     The result is placed in the 0-th slot.
-    This assumes the input ciphertext has relevant data in slots 0..k-1
-    and zeros (or irrelevant data) elsewhere, OR that the caller will mask the result.
+    Slots from k on may hold anything; slots other than 0 of the result are
+    unspecified and the caller is expected to mask them.
 
     Args:
         ciphertext: The BFV ciphertext.
@@ -141,6 +153,7 @@ def aggregate_sparse(
     galois_keys: Any,
     encoder: Any,
     vector_size: int,
+    slot_count: int = 4096,
 ) -> Any:
     """Perform sparse aggregation.
 
@@ -151,6 +164,7 @@ def aggregate_sparse(
         galois_keys: Rotation keys.
         encoder: BFV encoder for encoding masks.
         vector_size: Total size of the vector (slots).
+        slot_count: Total number of slots (default 4096 for poly_degree=4096).
 
     Returns:
         Ciphertext with aggregated results in target slots.
@@ -180,18 +194,21 @@ def aggregate_sparse(
     # Rot -8: Mask[0]=1. -> Mask = [1, 0...]
     # Rot -4: Mask[1]=1. -> Mask = [0, 1, 0...]
 
-    rotations = {}  # shift -> mask_list
+    # Slots form two rows: a rotation moves data within each row, so sources in
+    # the other row than their target are taken from the row-swapped ciphertext.
+    row_size = slot_count // 2
+    rotations: dict[tuple[bool, int], list[int]] = {}  # (swap, shift) -> mask_list
 
     for target, sources in aggregations:
         for src in sources:
-            shift = src - target
-            if shift not in rotations:
-                rotations[shift] = [0] * vector_size
-            rotations[shift][target] = 1
+            swap = src // row_size != target // row_size
+            shift = src % row_size - target % row_size
+            mask = rotations.setdefault((swap, shift), [0] * vector_size)
+            mask[target] = 1
 
     final_result = None
 
-    for shift, mask_list in rotations.items():
+    for (swap, shift), mask_list in rotations.items():
         # Optimization: Skip if mask is all zeros (no contribution from this rotation)
         if not any(mask_list):
             continue
@@ -202,10 +219,10 @@ def aggregate_sparse(
         mask_pt = bfv.encode(mask_tensor, encoder)
 
         # Rotate
-        if shift == 0:
-            rotated_c = ciphertext
-        else:
-            rotated_c = bfv.rotate(ciphertext, shift, galois_keys)
+        rotated_c = ciphertext
+        if swap:
+            rotated_c = bfv.rotate_columns(rotated_c, galois_keys)
+        rotated_c = _safe_rotate(rotated_c, shift, galois_keys)
 
         # Mask
         masked_c = bfv.mul(rotated_c, mask_pt)
@@ -280,24 +297,8 @@ def strided_rotate_and_sum(
         Values at slots: 0, 64, 128, 192, ...
         Result: slot[0] = sum of all these values
     """
-    if n_elements <= 1:
-        return ciphertext
-
-    # Use recursive doubling with strided rotations
-    # Step 1: rotate by stride, add -> pairs summed at even positions
-    # Step 2: rotate by 2*stride, add -> quads summed at positions 0, 4*stride, ...
-    # ...
-    num_steps = math.ceil(math.log2(n_elements))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = stride * (1 << i)
-        if step >= n_elements * stride:
-            break
-        rotated = _safe_rotate(current, step, galois_keys, max_step)
-        current = bfv.add(current, rotated)
-
-    return current
+    # Recursive doubling with strided rotations
+    return _sum_window(ciphertext, n_elements, stride, galois_keys, max_step)
 
 
 def batch_bucket_aggregate(
@@ -326,25 +327,10 @@ def batch_bucket_aggregate(
     Returns:
         Ciphertext where slot[b * stride] = sum of bucket b's values.
     """
-    if samples_per_bucket <= 1:
-        return ciphertext
-
-    # Use recursive doubling within each bucket region
+    # Recursive doubling within each bucket region.
     # Since all buckets use the same relative positions, one set of rotations
     # aggregates ALL buckets simultaneously!
-    num_steps = math.ceil(math.log2(samples_per_bucket))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = 1 << i
-        if step >= samples_per_bucket:
-            break
-        # Rotating by `step` shifts values within each bucket region
-        # Add original + rotated to sum pairs/quads/etc.
-        rotated = _safe_rotate(current, step, galois_keys)
-        current = bfv.add(current, rotated)
-
-    return current
+    return _sum_window(ciphertext, samples_per_bucket, 1, galois_keys)
 
 
 def extract_bucket_results(
-- 
2.43.0


From 7f9168415ed7f16e6b3c5cb1eaa3f8f4c0be0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 25/37] fix: BFV evaluation keys contained the secret key;
 operations on or yielding an encryption of zero failed

---
 mplang/backends/bfv_impl.py | 58 +++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 53d1b76..a9af29c 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -288,15 +288,17 @@ def keygen_impl(
 @bfv.make_relin_keys_p.def_impl
 def make_relin_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    # Evaluation keys are handed to other parties: leave the secret key out
+    return sk.make_public()
 
 
 @bfv.make_galois_keys_p.def_impl
 def make_galois_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    # Evaluation keys are handed to other parties: leave the secret key out
+    return sk.make_public()
 
 
 @bfv.create_encoder_p.def_impl
@@ -384,7 +386,8 @@ def decrypt_impl(
     # sk is BFVSecretContextValue
 
     pt = sealapi.Plaintext()
-    sk.decryptor.decrypt(ciphertext.data, pt)
+    ct = cast(BFVValue, _opaque(ciphertext)).data
+    sk.decryptor.decrypt(ct, pt)
 
     return BFVValue(pt, sk, is_cipher=False)
 
@@ -417,6 +420,37 @@ def _ensure_plaintext(ctx: BFVPublicContextValue, data: BFVValue | TensorValue)
     return pt
 
 
+def _encrypted_zero(ctx: BFVPublicContextValue) -> BFVValue:
+    ct = sealapi.Ciphertext()
+    ctx.encryptor.encrypt_zero(ct)
+    return BFVValue(ct, ctx, is_cipher=True)
+
+
+def _opaque(value: BFVValue | TensorValue) -> BFVValue | TensorValue:
+    """Replace a transparent ciphertext (zero), which SEAL refuses as an operand."""
+    if isinstance(value, BFVValue) and value.is_cipher and value.data.is_transparent():
+        return _encrypted_zero(value.ctx)
+    return value
+
+
+def _combine(evaluate: Any, lhs: BFVValue, rhs: BFVValue) -> BFVValue:
+    """Add or subtract two ciphertexts.
+
+    SEAL refuses a result in which the encryption randomness cancels out (such as
+    x - x); it is then computed from a re-randomized left operand.
+    """
+    result_ct = sealapi.Ciphertext()
+    try:
+        evaluate(lhs.data, rhs.data, result_ct)
+    except RuntimeError as e:
+        if "transparent" not in str(e):
+            raise
+        fresh_ct = sealapi.Ciphertext()
+        lhs.ctx.evaluator.add(lhs.data, _encrypted_zero(lhs.ctx).data, fresh_ct)
+        evaluate(fresh_ct, rhs.data, result_ct)
+    return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+
+
 @bfv.add_p.def_impl
 def add_impl(
     interpreter: Interpreter,
@@ -435,8 +469,7 @@ def add_impl(
             if rhs.data.is_transparent():
                 return lhs
 
-            lhs.ctx.evaluator.add(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _combine(lhs.ctx.evaluator.add, lhs, rhs)
         elif lhs.is_cipher and not rhs.is_cipher:
             # Optimization: Handle transparent ciphertext
             if lhs.data.is_transparent():
@@ -506,13 +539,14 @@ def sub_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
+    lhs, rhs = _opaque(lhs), _opaque(rhs)
+
     # Case 1: Both are BFVValues
     if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
         result_ct = sealapi.Ciphertext()
 
         if lhs.is_cipher and rhs.is_cipher:
-            lhs.ctx.evaluator.sub(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _combine(lhs.ctx.evaluator.sub, lhs, rhs)
         elif lhs.is_cipher and not rhs.is_cipher:
             lhs.ctx.evaluator.sub_plain(lhs.data, rhs.data, result_ct)
             return BFVValue(result_ct, lhs.ctx, is_cipher=True)
@@ -555,6 +589,8 @@ def mul_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
+    lhs, rhs = _opaque(lhs), _opaque(rhs)
+
     # Case 1: Both are BFVValues
     if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
         result_ct = sealapi.Ciphertext()
@@ -700,6 +736,10 @@ def rotate_columns_impl(
     gk: BFVPublicContextValue,
 ) -> BFVValue:
     """Swap the two rows in SIMD batching (row 0 <-> row 1)."""
+    # Optimization: Handle transparent ciphertext (zero)
+    if ciphertext.data.is_transparent():
+        return ciphertext
+
     new_ct = sealapi.Ciphertext()
     ciphertext.ctx.evaluator.rotate_columns(ciphertext.data, gk.galois_keys, new_ct)
     return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
-- 
2.43.0


From 35790c9e27e5dcc24f443f2800b80c749380d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 26/37] fix: PHE kernels could not run on tensors, lost
 negative numbers and shared the private key with the public one

---
 mplang/backends/phe_impl.py | 135 ++++++++++++++++++++++++++----------
 1 file changed, 97 insertions(+), 38 deletions(-)

diff --git a/mplang/backends/phe_impl.py b/mplang/backends/phe_impl.py
index afe8632..516183d 100644
--- a/mplang/backends/phe_impl.py
+++ b/mplang/backends/phe_impl.py
@@ -16,62 +16,120 @@
 
 from __future__ import annotations
 
-from dataclasses import dataclass
-from typing import Any, cast
+from typing import Any, ClassVar, cast
 
 from lightphe import LightPHE
+from lightphe.models.Algorithm import Algorithm
 from lightphe.models.Ciphertext import Ciphertext
 
+from mplang.backends.tensor_impl import TensorValue
 from mplang.dialects import phe
+from mplang.edsl import serde
 from mplang.edsl.graph import Operation
 from mplang.runtime.interpreter import Interpreter
+from mplang.runtime.value import Value
 
+_ALGORITHMS = {
+    name.lower(): name
+    for key, name in vars(Algorithm).items()
+    if not key.startswith("_")
+}
 
-class PHEContext:
+
+@serde.register_class
+class PHEContext(Value):
     """Wraps LightPHE context."""
 
-    def __init__(self, algorithm_name: str = "Paillier", key_size: int = 2048):
-        # Normalize algorithm name (LightPHE expects capitalized names)
-        normalized_name = algorithm_name.capitalize()
-        self.cs = LightPHE(algorithm_name=normalized_name, key_size=key_size)
+    _serde_kind: ClassVar[str] = "phe_impl.PHEContext"
+
+    def __init__(
+        self,
+        algorithm_name: str = "Paillier",
+        key_size: int = 2048,
+        keys: dict[str, Any] | None = None,
+    ):
+        # Normalize algorithm name (LightPHE's names are case-sensitive)
+        self.algorithm = _ALGORITHMS.get(algorithm_name.lower(), algorithm_name)
+        self.cs = LightPHE(algorithm_name=self.algorithm, key_size=key_size, keys=keys)
+
+    def make_public(self) -> PHEContext:
+        """Create a context holding only the public key."""
+        keys = {"public_key": self.cs.cs.keys["public_key"]}
+        return PHEContext(self.algorithm, keys=keys)
 
     def encrypt(self, value: int) -> Ciphertext:
         return self.cs.encrypt(value)
 
     def decrypt(self, ct: Ciphertext) -> int:
-        return cast(int, self.cs.decrypt(ct))
+        value = cast(int, self.cs.decrypt(ct))
+        if self.algorithm == Algorithm.OkamotoUchiyama:
+            modulus = self.cs.cs.keys["private_key"]["p"]
+        else:
+            modulus = self.cs.cs.plaintext_modulo
+        # The upper half of the message space stands for the negative integers
+        return value - modulus if value > modulus // 2 else value
+
+    def to_json(self) -> dict[str, Any]:
+        return {"algorithm": self.algorithm, "keys": self.cs.cs.keys}
 
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> PHEContext:
+        return cls(data["algorithm"], keys=data["keys"])
 
-@dataclass
-class PHEEncoder:
+
+@serde.register_class
+class PHEEncoder(Value):
     """Simple fixed-point encoder."""
 
-    scale: float
+    _serde_kind: ClassVar[str] = "phe_impl.PHEEncoder"
+
+    def __init__(self, scale: float):
+        self.scale = scale
+
+    def to_json(self) -> dict[str, Any]:
+        return {"scale": self.scale}
 
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> PHEEncoder:
+        return cls(data["scale"])
 
-@dataclass
-class WrappedCiphertext:
-    ct: Ciphertext
-    ctx: PHEContext
+
+@serde.register_class
+class WrappedCiphertext(Value):
+    _serde_kind: ClassVar[str] = "phe_impl.WrappedCiphertext"
+
+    def __init__(self, ct: Ciphertext, ctx: PHEContext):
+        self.ct = ct
+        self.ctx = ctx
 
     def __add__(self, other: Any) -> WrappedCiphertext:
         if isinstance(other, WrappedCiphertext):
             # ct + ct
             new_ct = self.ct + other.ct
-            return WrappedCiphertext(new_ct, self.ctx)
-        elif isinstance(other, int):
+        else:
             # ct + int -> ct + encrypt(int)
-            ct_other = self.ctx.encrypt(other)
-            new_ct = self.ct + ct_other
-            return WrappedCiphertext(new_ct, self.ctx)
-        return NotImplemented
+            new_ct = self.ct + self.ctx.encrypt(other)
+        return WrappedCiphertext(new_ct, self.ctx)
+
+    def __mul__(self, other: int) -> WrappedCiphertext:
+        # ct * int
+        return WrappedCiphertext(self.ct * other, self.ctx)
+
+    def to_json(self) -> dict[str, Any]:
+        return {"value": self.ct.value, "ctx": serde.to_json(self.ctx)}
 
-    def __mul__(self, other: Any) -> WrappedCiphertext:
-        if isinstance(other, int):
-            # ct * int
-            new_ct = self.ct * other
-            return WrappedCiphertext(new_ct, self.ctx)
-        return NotImplemented
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> WrappedCiphertext:
+        ctx, value = serde.from_json(data["ctx"]), data["value"]
+        if isinstance(value, list):
+            value = tuple(value)
+        ct = Ciphertext(ctx.algorithm, ctx.cs.cs.keys, value)
+        return cls(ct, ctx)
+
+
+def _scalar(value: TensorValue | int | float) -> Any:
+    """The number held by an element of a plaintext tensor."""
+    return value.unwrap().item() if isinstance(value, TensorValue) else value
 
 
 @phe.keygen_p.def_impl
@@ -83,7 +141,8 @@ def keygen_impl(
 
     ctx = PHEContext(algorithm_name=scheme, key_size=key_size)
 
-    return ctx, ctx
+    # The public key is handed to other parties: leave the private key out
+    return ctx.make_public(), ctx
 
 
 @phe.create_encoder_p.def_impl
@@ -97,23 +156,23 @@ def create_encoder_impl(
 
 @phe.encode_p.def_impl
 def encode_impl(
-    interpreter: Interpreter, op: Operation, value: float, encoder: PHEEncoder
+    interpreter: Interpreter, op: Operation, value: TensorValue, encoder: PHEEncoder
 ) -> int:
-    return int(value * encoder.scale)
+    return int(_scalar(value) * encoder.scale)
 
 
 @phe.decode_p.def_impl
 def decode_impl(
-    interpreter: Interpreter, op: Operation, value: int, encoder: PHEEncoder
+    interpreter: Interpreter, op: Operation, value: TensorValue, encoder: PHEEncoder
 ) -> float:
-    return float(value) / encoder.scale
+    return float(_scalar(value)) / encoder.scale
 
 
 @phe.encrypt_p.def_impl
 def encrypt_impl(
-    interpreter: Interpreter, op: Operation, value: int, pk: PHEContext
+    interpreter: Interpreter, op: Operation, value: TensorValue, pk: PHEContext
 ) -> WrappedCiphertext:
-    ct = pk.encrypt(value)
+    ct = pk.encrypt(_scalar(value))
     return WrappedCiphertext(ct, pk)
 
 
@@ -136,13 +195,13 @@ def add_cc_impl(
 
 @phe.add_cp_p.def_impl
 def add_cp_impl(
-    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: int
+    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: TensorValue
 ) -> WrappedCiphertext:
-    return lhs + rhs
+    return lhs + _scalar(rhs)
 
 
 @phe.mul_cp_p.def_impl
 def mul_cp_impl(
-    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: int
+    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: TensorValue
 ) -> WrappedCiphertext:
-    return lhs * rhs
+    return lhs * _scalar(rhs)
-- 
2.43.0


From a60654ce133f86c1aeeb886fd373a916d39d64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 27/37] fix: BFV batch encoding of a single row yielded a tuple

---
 mplang/backends/bfv_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index a9af29c..d95bb03 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -322,7 +322,7 @@ def batch_encode_impl(
     interpreter: Interpreter,
     op: Operation,
     *args: Value,
-) -> tuple[BFVValue | TensorValue, ...]:
+) -> BFVValue | tuple[BFVValue | TensorValue, ...]:
     # args will be (tensor, encoder, key)
     key = args[-1]
     _encoder = args[-2]
@@ -345,7 +345,8 @@ def batch_encode_impl(
         ctx.batch_encoder.encode(vec, pt)
         results.append(BFVValue(pt, ctx, is_cipher=False))
 
-    return tuple(results)
+    # An operation with one result returns it bare
+    return results[0] if len(results) == 1 else tuple(results)
 
 
 @bfv.encrypt_p.def_impl
-- 
2.43.0


From 6ada13874654cc66d8ccbc6e304f97be45325653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:04 +0000
Subject: [PATCH 28/37] fix: elementwise operations with several outputs stored
 wrapped scalars that no computation accepts

---
 mplang/backends/tensor_impl.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mplang/backends/tensor_impl.py b/mplang/backends/tensor_impl.py
index 392d931..ea7eb96 100644
--- a/mplang/backends/tensor_impl.py
+++ b/mplang/backends/tensor_impl.py
@@ -355,22 +355,22 @@ def elementwise_impl(interpreter: Interpreter, op: Operation, *args: Value) -> A
 
         # Recursive execution
         scalar_out_list = interpreter.evaluate_graph(subgraph, scalar_inputs)
-        scalar_out = (
-            scalar_out_list[0] if len(scalar_out_list) == 1 else scalar_out_list
-        )
 
-        # Unwrap result if it's a TensorValue (to store in numpy array)
+        # Unwrap results that are TensorValues (to store in numpy array)
         # We store raw values in the object array for now, but will wrap the final array
-        if isinstance(scalar_out, TensorValue):
-            scalar_out = scalar_out.unwrap()
-            if scalar_out.shape == ():
-                scalar_out = scalar_out.item()
+        scalar_outs = []
+        for scalar_out in scalar_out_list:
+            if isinstance(scalar_out, TensorValue):
+                scalar_out = scalar_out.unwrap()
+                if scalar_out.shape == ():
+                    scalar_out = scalar_out.item()
+            scalar_outs.append(scalar_out)
 
         if num_outputs > 1:
-            for i, val in enumerate(scalar_out):
+            for i, val in enumerate(scalar_outs):
                 results[i][index] = val
         else:
-            results[index] = scalar_out
+            results[index] = scalar_outs[0]
 
     # Wrap results in TensorValue if possible
     if num_outputs > 1:
-- 
2.43.0


From a8fb19fa712b008d496a4fe33774128c3d7624ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:07 +0000
Subject: [PATCH 29/37] fix: batched table reads lost the rows of all but the
 first stored batch and the split-off remainder

---
 mplang/backends/table_impl.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 49aa914..c52e534 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -129,7 +129,12 @@ class TableReader(BatchReader):
         Returns:
             Complete table containing all remaining data
         """
-        return self._reader.read_all()
+        rest = self._reader.read_all()
+        if self._remain is not None:
+            # Rows split off the last batch returned come first
+            rest = pa.concat_tables([pa.Table.from_batches([self._remain]), rest])
+            self._remain = None
+        return rest
 
     def read_next_batch(self) -> pa.RecordBatch:
         """Read the next batch of records.
@@ -235,7 +240,7 @@ class TableReader(BatchReader):
             return batches[0]
 
         # Otherwise, combine all batches and return as a single RecordBatch
-        combined = pa.Table.from_batches(batches)
+        combined = pa.Table.from_batches(batches).combine_chunks()
         return combined.to_batches()[0]
 
     def close(self) -> None:
-- 
2.43.0


From 6eb82495c5826853b0567381d2ca0f7ed9274687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:07 +0000
Subject: [PATCH 30/37] fix: writing several tables dropped rows past the end
 of the first and refused tables chunked differently

---
 mplang/backends/table_impl.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index c52e534..104a6e8 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -539,7 +539,7 @@ class QueryTableSource(TableSource):
         if batch_size <= 0:
             batch_size = DEFAULT_BATCH_SIZE
         reader = self.relation.arrow(batch_size)
-        return TableReader(reader)
+        return TableReader(reader, batch_size=batch_size)
 
 
 # =============================================================================
@@ -858,8 +858,13 @@ class MultiTableReader(BatchReader):
     def read_next_batch(self) -> pa.RecordBatch:
         num_rows = -1
         columns: list[pa.ChunkedArray] = []
+        ended = 0
         for idx, r in enumerate(self._readers):
-            batch = r.read_next_batch()
+            try:
+                batch = r.read_next_batch()
+            except StopIteration:
+                ended += 1
+                continue
             if num_rows == -1:
                 num_rows = batch.num_rows
             elif num_rows != batch.num_rows:
@@ -867,6 +872,10 @@ class MultiTableReader(BatchReader):
                     f"Batch {idx} has {batch.num_rows} rows, expected {num_rows}"
                 )
             columns.extend(batch.columns)
+        if ended == len(self._readers):
+            raise StopIteration
+        if ended > 0:
+            raise ValueError("Tables written together have different numbers of rows")
         return pa.RecordBatch.from_arrays(columns, names=self._schema.names)
 
     def close(self) -> None:
@@ -898,7 +907,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             readers.append(
                 data.open(batch_size)
                 if isinstance(data, TableSource)
-                else TableReader(data)
+                else TableReader(data, batch_size=batch_size)
             )
 
         reader: BatchReader = (
-- 
2.43.0


From f0ee1681d3b2f91a2520dbcf2177aa7a8cfe3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:26 +0000
Subject: [PATCH 31/37] fix: SQL inputs whose names differ only in case
 silently replaced each other

---
 mplang/backends/table_impl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 104a6e8..1596183 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -695,12 +695,14 @@ def run_sql_impl(interpreter: Interpreter, op: Operation, *args: Any) -> TableVa
             data = tbl.unwrap()
             if isinstance(data, QueryTableSource) and data.state is not state:
                 data = tbl.data
-            if name in state.tables:
-                if state.tables[name] is not data:
+            # DuckDB identifiers are case-insensitive
+            key = name.lower()
+            if key in state.tables:
+                if state.tables[key] is not data:
                     # TODO: rename and rewrite sql??
                     raise ValueError(f"{name} has been registered.")
             else:
-                state.tables[name] = data
+                state.tables[key] = data
             if isinstance(data, TableSource):
                 data.register(state.conn, name)
             else:
-- 
2.43.0


From 5034bdb28531103e13811635e42310bf5ae8dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:26 +0000
Subject: [PATCH 32/37] fix: a failed JSON write left a file with part of the
 rows and an empty table could not be written

---
 mplang/backends/table_impl.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 1596183..3a3238d 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -925,8 +925,9 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             def close(self) -> None: ...
 
         class JsonWriter(BatchWriter):
-            def __init__(self, path: str) -> None:
+            def __init__(self, path: str, schema: pa.Schema) -> None:
                 self._path = path
+                self._schema = schema
                 self._batches: list[pa.RecordBatch] = []
 
             def write_batch(self, batch: pa.RecordBatch) -> None:
@@ -934,7 +935,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
 
             def close(self) -> None:
                 # PyArrow doesn't have direct JSON write, convert to pandas
-                tbl = pa.Table.from_batches(self._batches)
+                tbl = pa.Table.from_batches(self._batches, schema=self._schema)
                 df = tbl.to_pandas()
                 df.to_json(self._path, orient="records", lines=True)
 
@@ -953,7 +954,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
                 case "csv":
                     writer = pa_csv.CSVWriter(resolved, reader.schema)
                 case "json":
-                    writer = JsonWriter(resolved)
+                    writer = JsonWriter(resolved, reader.schema)
                 case _:
                     raise ValueError(f"Unsupported format: {fmt}")
         except Exception as e:
@@ -961,15 +962,19 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             _safe_remove_file(resolved)
             raise e
 
+        complete = False
         try:
             for batch in reader:
                 writer.write_batch(batch)
-        except Exception as e:
-            _safe_remove_file(resolved)
-            raise e
+            complete = True
         finally:
             reader.close()
-            writer.close()
+            try:
+                writer.close()
+            finally:
+                # Remove only after closing: the JSON writer stores on close
+                if not complete:
+                    _safe_remove_file(resolved)
 
     if interpreter.store:
         local_path = os.path.abspath(os.path.join(".tmp", path))
-- 
2.43.0


From 3de9dd38532d5067e21c18b282ad0f3eb853a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 33/37] fix: the identity point in curve additions,
 subtractions and reading points back

coincurve refuses the sum of opposite points, so P + (-P) and P - P raised instead of
giving the identity, and the 65 zero bytes point_to_bytes writes for the identity could
not be read back.
---
 mplang/backends/crypto_impl.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/crypto_impl.py b/mplang/backends/crypto_impl.py
index 859a80b..acf96f5 100644
--- a/mplang/backends/crypto_impl.py
+++ b/mplang/backends/crypto_impl.py
@@ -171,6 +171,14 @@ def mul_impl(
     return ECPointValue.from_coincurve(result)
 
 
+def _combine(a: coincurve.PublicKey, b: coincurve.PublicKey) -> ECPointValue | None:
+    """a + b, where the identity (opposite points, which coincurve refuses) is None."""
+    try:
+        return ECPointValue.from_coincurve(a.combine([b]))
+    except ValueError:
+        return None
+
+
 @crypto.add_p.def_impl
 def add_impl(
     interpreter: Interpreter,
@@ -182,8 +190,7 @@ def add_impl(
         return p2
     if p2 is None:
         return p1
-    result = p1.coincurve_key.combine([p2.coincurve_key])
-    return ECPointValue.from_coincurve(result)
+    return _combine(p1.coincurve_key, p2.coincurve_key)
 
 
 @crypto.sub_p.def_impl
@@ -204,8 +211,7 @@ def sub_impl(
     if p1 is None:
         return ECPointValue.from_coincurve(neg_p2)
 
-    result = p1.coincurve_key.combine([neg_p2])
-    return ECPointValue.from_coincurve(result)
+    return _combine(p1.coincurve_key, neg_p2)
 
 
 @crypto.random_scalar_p.def_impl
@@ -256,7 +262,7 @@ def point_to_bytes_impl(
 @crypto.bytes_to_point_p.def_impl
 def bytes_to_point_impl(
     interpreter: Interpreter, op: Operation, b: TensorValue | BytesValue
-) -> ECPointValue:
+) -> ECPointValue | None:
     if isinstance(b, TensorValue):
         raw = b.unwrap().tobytes()
     elif isinstance(b, BytesValue):
@@ -266,6 +272,9 @@ def bytes_to_point_impl(
             f"bytes_to_point expects TensorValue or BytesValue, got {type(b)}"
         )
 
+    if len(raw) == 65 and not any(raw):
+        # Infinity / Identity, as written by point_to_bytes
+        return None
     return ECPointValue(raw)
 
 
-- 
2.43.0


From 3d48dfc2d988db75d8ee962ba62e287ed6d786a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 34/37] fix: attestation keeps the whole key and refuses
 another curve

A serialized quote lost everything past the first 32 bytes of its key, and the
expected_curve given to attest was never compared with the quote's.
---
 mplang/backends/tee_impl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/tee_impl.py b/mplang/backends/tee_impl.py
index 760d069..99b8c6d 100644
--- a/mplang/backends/tee_impl.py
+++ b/mplang/backends/tee_impl.py
@@ -105,7 +105,7 @@ class MockQuoteValue(Value):
         suite_len = data[suite_start]
         suite = data[suite_start + 1 : suite_start + 1 + suite_len].decode("utf-8")
         pk_start = suite_start + 1 + suite_len
-        bound_pk = data[pk_start : pk_start + 32]
+        bound_pk = data[pk_start:]
         return cls(platform=platform, bound_pk=bound_pk, suite=suite)
 
 
@@ -203,6 +203,12 @@ def _attest_impl(
     else:
         raise TypeError(f"Expected MockQuoteValue or BytesValue, got {type(quote)}")
 
+    expected = op.attrs.get("expected_curve", mock_quote.suite)
+    if mock_quote.suite != expected:
+        raise ValueError(
+            f"attestation failed: quote binds a {mock_quote.suite} key, expected {expected}"
+        )
+
     # Return a real PublicKeyValue that can be used directly with kem_derive
     return PublicKeyValue(
         suite=mock_quote.suite,
-- 
2.43.0


From 99923ec9c6edb91e95d8d155eb203ff045420099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:02 +0000
Subject: [PATCH 35/37] fix: SPU shares follow the engine's party order

Party regions are ordered by rank, so the engine numbers its parties by rank; shares were
made, distributed and gathered in the order the cluster lists the members. A member list
in another order gave parties each other's shares.
---
 mplang/libs/device/api.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mplang/libs/device/api.py b/mplang/libs/device/api.py
index 89d3de0..55b3236 100644
--- a/mplang/libs/device/api.py
+++ b/mplang/libs/device/api.py
@@ -171,9 +171,18 @@ def _infer_device_from_args(*args: Any, **kwargs: Any) -> str:
     )
 
 
+def _spu_parties(dev_info: Device) -> tuple[int, ...]:
+    """Ranks of an SPU's members in the order the engine numbers its parties.
+
+    Party regions are ordered by rank, whatever order the cluster lists the
+    members in; the i-th share belongs to the i-th of these.
+    """
+    return tuple(sorted(m.rank for m in dev_info.members))
+
+
 def _device_run_spu(dev_info: Device, fn: Callable, *args: Any, **kwargs: Any) -> Any:
     """Run function on SPU device."""
-    spu_parties = tuple(m.rank for m in dev_info.members)
+    spu_parties = _spu_parties(dev_info)
 
     # SPU execution uses spu.run_jax to compile and execute the function on the SPU.
     # Inputs are expected to be already on the SPU (handled by _d2d).
@@ -495,7 +504,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("PPU", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = _spu_parties(to_dev)
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # 1. Generate shares on source
@@ -530,7 +539,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "PPU"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = _spu_parties(frm_dev)
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # 1. Gather shares to target
@@ -611,7 +620,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("TEE", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = _spu_parties(to_dev)
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # Generate shares on TEE (same logic as PPU -> SPU)
@@ -638,7 +647,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "TEE"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = _spu_parties(frm_dev)
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # Gather shares to TEE (same logic as SPU -> PPU)
-- 
2.43.0


From 35a56f2792f6f759b9a6d595d97488aa8ef53ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:47 +0000
Subject: [PATCH 36/37] fix: the native field product reduces the top quarter

---
 mplang/kernels/gf128.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/kernels/gf128.cpp b/mplang/kernels/gf128.cpp
index f4c7bb2..4692b84 100644
--- a/mplang/kernels/gf128.cpp
+++ b/mplang/kernels/gf128.cpp
@@ -118,7 +118,7 @@ extern "C" {
         __m128i r1_lo = r1;
 
         __m128i m0 = _mm_clmulepi64_si128(r1, Q, 0x00); // r1_lo * Q
-        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x10); // r1_hi * Q
+        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x01); // r1_hi * Q
 
         __m128i m1_shifted = _mm_slli_si128(m1, 8);
         __m128i M_lo = _mm_xor_si128(m0, m1_shifted);
-- 
2.43.0


From 80d03cec668220d6ee7098e64af9375cf745fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:39 +0000
Subject: [PATCH 37/37] fix: a failed native OKVS encoding is reported

---
 mplang/backends/field_impl.py | 4 +++-
 mplang/kernels/okvs.cpp       | 6 ++++--
 mplang/kernels/okvs_opt.cpp   | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index a73c8e6..41bdd37 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -233,7 +233,7 @@ def _okvs_solve_impl(
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
     output = np.zeros((m, 2), dtype=np.uint64)
 
-    lib.solve_okvs(
+    failed = lib.solve_okvs(
         keys_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         values_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         output.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
@@ -241,6 +241,8 @@ def _okvs_solve_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    if failed:
+        raise RuntimeError(f"OKVS core detected. Failed to peel all rows. n={n}, m={m}")
     return output
 
 
diff --git a/mplang/kernels/okvs.cpp b/mplang/kernels/okvs.cpp
index 185d2e1..3756834 100644
--- a/mplang/kernels/okvs.cpp
+++ b/mplang/kernels/okvs.cpp
@@ -58,7 +58,8 @@ extern "C" {
     }
 
     // Solve OKVS System: H * P = V
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
+    // Returns 0 when every row was placed, 1 when peeling failed (output is zeroed).
+    int solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
         // Load dynamic seed
         __m128i seed = _mm_loadu_si128((__m128i*)seed_ptr);
 
@@ -172,7 +173,7 @@ extern "C" {
                     n, m, assignment_stack.size());
             // Zero output to identify failure clearly
             memset(output, 0, m * 16);
-            return;
+            return 1;
         }
 
         // 6. Back Substitution
@@ -196,6 +197,7 @@ extern "C" {
 
             _mm_storeu_si128(&P_vec[a.col], diff);
         }
+        return 0;
     }
 
     void decode_okvs(uint64_t* keys, uint64_t* storage, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
diff --git a/mplang/kernels/okvs_opt.cpp b/mplang/kernels/okvs_opt.cpp
index fe9731c..05522de 100644
--- a/mplang/kernels/okvs_opt.cpp
+++ b/mplang/kernels/okvs_opt.cpp
@@ -38,7 +38,7 @@ extern "C" {
 
     // Declaration of the safe (robust) solver implemented in okvs.cpp
     // Signature: solve_okvs(keys, values, output, n, m, seed_ptr)
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr);
+    int solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr);
 
     // Stateless Bin Selection
     // Maps a key to a deterministic bin index [0, NUM_BINS).
-- 
2.43.0

