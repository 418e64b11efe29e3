From 616f593299a7e9fe5b6ef34491ea91ab1dd1a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 01/44] fix: report the operation's own error from Request.wait
 when it is a timeout error

---
 mplang/backends/simp_worker/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mplang/backends/simp_worker/base.py b/mplang/backends/simp_worker/base.py
index a868a92..865f879 100644
--- a/mplang/backends/simp_worker/base.py
+++ b/mplang/backends/simp_worker/base.py
@@ -199,6 +199,13 @@ class Request:
             self._result = self._future.result(timeout=timeout)
             self._status = RequestStatus.COMPLETED
         except concurrent.futures.TimeoutError as e:
+            if self._future.done() and not self._future.cancelled():
+                # The operation itself finished. Report its own outcome (which
+                # may be a timeout error of its own), not an expired wait.
+                self._finalize()
+                if self._status == RequestStatus.COMPLETED:
+                    return self._result
+                raise self._error or e
             raise TimeoutError(
                 f"Request timed out after {timeout}s: {self._operation}"
             ) from e
-- 
2.43.0


From e57c45fea632ecf0d900ffec32d8a3bd19c235d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 02/44] fix: derive per-op CommContext ids of the async
 scheduler in program order

---
 mplang/runtime/interpreter.py | 55 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index a6414de..30ac684 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -1023,6 +1023,25 @@ class Interpreter(AbstractInterpreter):
         # CommContext for this execution scope
         root_comm_ctx = getattr(self._tls, "comm_ctx", self.comm_ctx)
 
+        # Derive a deterministic child CommContext ID for every op.
+        # We include graph_exec_key (structural hash of the graph) to prevent
+        # op_idx collisions between *different nested graphs* within the same
+        # request.  For example, two simp.pcall_static ops in the same parent
+        # graph each trigger a sub-graph execution — without graph_exec_key,
+        # their child ops at the same positional index would share the same
+        # CommContext ID and corrupt each other's messages.
+        # Cross-request isolation is already handled by root context_id (= job_id).
+        #
+        # The children are spawned here, in program order: their IDs contain the
+        # parent's spawn counter, so spawning an op's context when it becomes
+        # ready would make its ID depend on this party's schedule.
+        child_ctxs: dict[Any, CommContext] | None = None
+        if root_comm_ctx is not None:
+            child_ctxs = {
+                op: root_comm_ctx.spawn(suffix=f"{graph_exec_key}.{op_idx}")
+                for op, op_idx in op_to_index.items()
+            }
+
         # Tracer setup (if not provided, use a disabled stub)
         tracer: ExecutionTracer | _NullTracer
         if self.tracer:
@@ -1126,19 +1145,7 @@ class Interpreter(AbstractInterpreter):
                     f"No implementation registered for opcode: {op.opcode}"
                 )
 
-            # Derive a deterministic child CommContext ID for this op.
-            # We include graph_exec_key (structural hash of the graph) to prevent
-            # op_idx collisions between *different nested graphs* within the same
-            # request.  For example, two simp.pcall_static ops in the same parent
-            # graph each trigger a sub-graph execution — without graph_exec_key,
-            # their child ops at the same positional index would share the same
-            # CommContext ID and corrupt each other's messages.
-            # Cross-request isolation is already handled by root context_id (= job_id).
-            op_idx = op_to_index[op]
-            if root_comm_ctx is not None:
-                child_ctx = root_comm_ctx.spawn(suffix=f"{graph_exec_key}.{op_idx}")
-            else:
-                child_ctx = None
+            child_ctx = child_ctxs[op] if child_ctxs is not None else None
 
             if op.opcode in self.async_ops and self.executor:
                 with lock:
@@ -1195,15 +1202,19 @@ class Interpreter(AbstractInterpreter):
             ready_queue.put(None)
 
         # 6. Main Loop
-        while True:
-            item = ready_queue.get()
-            if item is None:
-                break
-            if isinstance(item, Exception):
-                raise item
-
-            # It's an op
-            execute_op(item)
+        try:
+            while True:
+                item = ready_queue.get()
+                if item is None:
+                    break
+                if isinstance(item, Exception):
+                    raise item
+
+                # It's an op
+                execute_op(item)
+        finally:
+            # Ops run on this thread have replaced the caller's CommContext
+            self._tls.comm_ctx = root_comm_ctx
 
         # 7. Return outputs
         if not self.tracer:
-- 
2.43.0


From 373efbc4ab8dbacdbf45cb950ab4af436e54a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 03/44] fix: pass captured values to functions defined with
 func.func

---
 mplang/backends/func_impl.py | 21 +++++++++++++++++----
 mplang/dialects/func.py      |  7 +++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/mplang/backends/func_impl.py b/mplang/backends/func_impl.py
index e0af01d..e21e467 100644
--- a/mplang/backends/func_impl.py
+++ b/mplang/backends/func_impl.py
@@ -21,6 +21,7 @@ Design: Function as Value
 
 from __future__ import annotations
 
+from collections.abc import Sequence
 from typing import TYPE_CHECKING, Any, ClassVar
 
 from mplang.dialects.func import call_p, func_def_p
@@ -47,9 +48,12 @@ class FunctionValue(Value):
 
     _serde_kind: ClassVar[str] = "func.FunctionValue"
 
-    def __init__(self, graph: Graph, name: str = "anonymous") -> None:
+    def __init__(
+        self, graph: Graph, name: str = "anonymous", captured: Sequence[Any] = ()
+    ) -> None:
         self._graph = graph
         self._name = name
+        self._captured = list(captured)
 
     @property
     def graph(self) -> Graph:
@@ -59,6 +63,11 @@ class FunctionValue(Value):
     def name(self) -> str:
         return self._name
 
+    @property
+    def captured(self) -> list[Any]:
+        """Values of the outer variables used by the body (its last inputs)."""
+        return self._captured
+
     def __repr__(self) -> str:
         return f"FunctionValue({self._name!r}, ops={len(self._graph.operations)})"
 
@@ -67,13 +76,17 @@ class FunctionValue(Value):
         return {
             "graph": serde.to_json(self._graph),
             "name": self._name,
+            "captured": [serde.to_json(v) for v in self._captured],
         }
 
     @classmethod
     def from_json(cls, data: dict[str, Any]) -> Self:
         """Deserialize function from JSON."""
         graph = serde.from_json(data["graph"])
-        return cls(graph=graph, name=data.get("name", "anonymous"))
+        captured = [serde.from_json(v) for v in data.get("captured", [])]
+        return cls(
+            graph=graph, name=data.get("name", "anonymous"), captured=captured
+        )
 
 
 @func_def_p.def_impl
@@ -83,7 +96,7 @@ def _func_def_impl(interpreter: Any, op: Operation, *args: Any) -> FunctionValue
         raise ValueError("func.func operation missing body region")
 
     name = op.attrs.get("sym_name", "anonymous")
-    return FunctionValue(graph=op.regions[0], name=name)
+    return FunctionValue(graph=op.regions[0], name=name, captured=args)
 
 
 @call_p.def_impl
@@ -101,7 +114,7 @@ def _call_impl(
     if not isinstance(fn_obj, FunctionValue):
         raise TypeError(f"func.call expects FunctionValue, got {type(fn_obj)}")
 
-    call_args = list(args)
+    call_args = [*args, *fn_obj.captured]
     result = interpreter.evaluate_graph(fn_obj.graph, call_args)
     # Return single value or list based on graph outputs
     return result[0] if len(fn_obj.graph.outputs) == 1 else result
diff --git a/mplang/dialects/func.py b/mplang/dialects/func.py
index e2fdcc0..dd97e36 100644
--- a/mplang/dialects/func.py
+++ b/mplang/dialects/func.py
@@ -56,10 +56,13 @@ def _func_trace(fn: Callable[..., Any], *args: Any, **kwargs: Any) -> el.TraceOb
         "output_types": [val.type for val in traced.graph.outputs],
     }
 
-    # func.func returns a function handle (single output of FuncType)
+    # func.func returns a function handle (single output of FuncType).
+    # Outer values captured by the body become operands of the definition;
+    # they follow the parameters in the body's inputs.
+    captured = [tracer.lift(obj)._graph_value for obj in traced.captured]
     result_values = tracer.graph.add_op(
         opcode="func.func",
-        inputs=[],
+        inputs=captured,
         output_types=[FuncType],
         attrs=attrs,
         regions=[traced.graph],
-- 
2.43.0


From 61793a930d92b23df7d7bd6a1235d535e96813c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 04/44] fix: let shuffle_static exchange data in both
 directions between two parties

---
 mplang/backends/simp_worker/ops.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mplang/backends/simp_worker/ops.py b/mplang/backends/simp_worker/ops.py
index 5a5f2e7..14eb69b 100644
--- a/mplang/backends/simp_worker/ops.py
+++ b/mplang/backends/simp_worker/ops.py
@@ -94,17 +94,27 @@ def _shuffle_static_worker_impl(
     my_rank = worker.rank
     data = args[0]
 
+    my_src = routing.get(my_rank)
+
+    # Sends and receives with the same peer share one message counter, so both
+    # sides of a swap (A<->B) must agree on the order of the two directions:
+    # the message to the lower rank comes first.
+    deferred = None
     for tgt, src in routing.items():
         if src == my_rank and tgt != my_rank:
-            ctx.send(tgt, data)
+            if tgt == my_src and my_rank < tgt:
+                deferred = tgt
+            else:
+                ctx.send(tgt, data)
 
-    if my_rank in routing:
-        src = routing[my_rank]
-        if src == my_rank:
-            return data
-        return ctx.recv(src)
-    else:
+    if my_src is None:
         return None
+    if my_src == my_rank:
+        return data
+    received = ctx.recv(my_src)
+    if deferred is not None:
+        ctx.send(deferred, data)
+    return received
 
 
 def _converge_worker_impl(interpreter: Interpreter, op: Operation, *args: Any) -> Any:
-- 
2.43.0


From f9d6467c9c1fbed98a6953357f73347941fa6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 05/44] fix: execute pcall_dynamic only on the parties that
 hold all its inputs

---
 mplang/backends/simp_worker/ops.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/ops.py b/mplang/backends/simp_worker/ops.py
index 14eb69b..3df1ebc 100644
--- a/mplang/backends/simp_worker/ops.py
+++ b/mplang/backends/simp_worker/ops.py
@@ -73,8 +73,13 @@ def _pcall_dynamic_worker_impl(
 ) -> Any:
     """Worker implementation of pcall_dynamic."""
     fn_graph = op.regions[0]
-    result = interpreter.evaluate_graph(fn_graph, list(args))
     n_out = len(fn_graph.outputs)
+    if any(arg is None for arg in args):
+        # This rank does not hold all the inputs: it does not take part
+        if n_out == 0:
+            return []
+        return None if n_out == 1 else [None] * n_out
+    result = interpreter.evaluate_graph(fn_graph, list(args))
     if n_out == 0:
         return []
     return result[0] if n_out == 1 else result
-- 
2.43.0


From 1a7baa4fcf4068516f7dcd4657b4c7cbb2dcbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 06/44] fix: check the parties of static inputs of pcall_static
 also beside dynamic ones

---
 mplang/dialects/simp.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 04d3be6..4b18e51 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -84,16 +84,15 @@ def _deduce_parties(types: Sequence[elt.BaseType]) -> tuple[int, ...] | None:
     if not parties_list:
         return None
 
-    if any(p is None for p in parties_list):
+    # Dynamic inputs (parties=None) do not constrain the result
+    known = [set(p) for p in parties_list if p is not None]
+    if not known:
         return None
 
-    # Intersect all party sets (we know all parties are not None here)
-    first_parties = parties_list[0]
-    assert first_parties is not None
-    current = set(first_parties)
-    for parties in parties_list[1:]:
-        assert parties is not None
-        current &= set(parties)
+    # Intersect all known party sets
+    current = known[0]
+    for parties in known[1:]:
+        current &= parties
     return tuple(sorted(current))
 
 
-- 
2.43.0


From c51122d67efcb01669cb35ada378ae245f3e9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 07/44] fix: give every driver dispatch its own job id

---
 mplang/backends/simp_driver/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_driver/ops.py b/mplang/backends/simp_driver/ops.py
index 10588cb..a3aeb96 100644
--- a/mplang/backends/simp_driver/ops.py
+++ b/mplang/backends/simp_driver/ops.py
@@ -21,6 +21,7 @@ Op-specific logic lives in Worker handlers (simp_worker/ops.py).
 
 from __future__ import annotations
 
+import uuid
 from typing import Any
 
 from mplang.backends.simp_driver.values import DriverVar
@@ -104,14 +105,16 @@ def _generic_simp_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
     # 1. Wrap operation into a Graph
     wrapper_graph = _wrap_op_as_graph(op)
 
-    # 2. SPMD dispatch to ALL workers
+    # 2. SPMD dispatch to ALL workers. All parties of a dispatch share one job ID,
+    # which no other dispatch uses: it names the messages they exchange.
+    job_id = uuid.uuid4().hex
     futures = []
     for rank in range(world_size):
         # Extract per-party inputs from DriverVars
         party_inputs = [
             arg[rank] if isinstance(arg, DriverVar) else arg for arg in args
         ]
-        futures.append(driver.submit(rank, wrapper_graph, party_inputs))
+        futures.append(driver.submit(rank, wrapper_graph, party_inputs, job_id=job_id))
 
     # 3. Collect results
     results = driver.collect(futures)
-- 
2.43.0


From fcc3e6d7ebeb3211bfa6ad94b2115e323853c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 08/44] fix: keep context ids of different job ids distinct

---
 mplang/backends/simp_worker/request.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_worker/request.py b/mplang/backends/simp_worker/request.py
index 2d9060f..9830558 100644
--- a/mplang/backends/simp_worker/request.py
+++ b/mplang/backends/simp_worker/request.py
@@ -22,6 +22,8 @@ handlers).
 
 from __future__ import annotations
 
+from urllib.parse import quote
+
 from mplang.backends.simp_worker.comm_context import CommContext
 from mplang.backends.simp_worker.infra import WorkerInfra
 from mplang.backends.simp_worker.state import SimpWorker
@@ -45,8 +47,12 @@ def create_request_interpreter(
     Returns:
         Per-request Interpreter with isolated state.
     """
-    # Per-request CommContext with unique context_id
-    comm_ctx = CommContext(infra.communicator, context_id=job_id, my_rank=infra.rank)
+    # Per-request CommContext with unique context_id. Contexts derive child IDs
+    # and keys with "." and ":", so these are escaped in the caller's ID.
+    context_id = quote(job_id, safe="").replace(".", "%2E")
+    comm_ctx = CommContext(
+        infra.communicator, context_id=context_id, my_rank=infra.rank
+    )
 
     # Per-request Interpreter (does not own shared executor/tracer)
     interp = Interpreter(
-- 
2.43.0


From 3ab06e23d0493de1700d200452e92716550e9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 09/44] fix: refuse uniform_cond branches whose results differ
 in structure or constants

---
 mplang/edsl/tracer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 46ef564..98860ad 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -368,6 +368,16 @@ class Tracer(Context):
         return var_demorph(trace_objects, out_morph)
 
 
+def _same_immediate(a: Any, b: Any) -> bool:
+    """Whether two immediates (possibly arrays) are the same constant."""
+    if a is b:
+        return True
+    if type(a) is not type(b) or getattr(a, "shape", None) != getattr(b, "shape", None):
+        return False
+    same = a == b
+    return bool(same.all() if hasattr(same, "all") else same)
+
+
 @dataclass
 class TracedFunction:
     """Result of tracing a Python function into Graph IR.
@@ -465,10 +475,15 @@ class TracedFunction:
             other: Another TracedFunction to compare against
 
         Returns:
-            True if output counts and types match, False otherwise
+            True if output counts, types, structure and immediates match,
+            False otherwise
         """
         if len(self.graph.outputs) != len(other.graph.outputs):
             return False
+        if (self.out_tree, self.out_var_pos) != (other.out_tree, other.out_var_pos):
+            return False
+        if not all(map(_same_immediate, self.out_imms, other.out_imms)):
+            return False
         return all(
             self_out.type == other_out.type
             for self_out, other_out in zip(
-- 
2.43.0


From 1b0042bc2469a7fe392ad34b285e4a47bd1ae374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 10/44] fix: trace control flow inside a pcall with local types
 for captured values

A uniform_cond or while_loop inside a pcall saw variables captured from
outside the pcall with their multi-party type, so well-typed programs were
refused and captured results got a nested multi-party type.
---
 mplang/dialects/simp.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 4b18e51..5b60380 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -118,6 +118,18 @@ class _LocalMPTracer(el.Tracer):
         return cast(elt.BaseType, obj_type)
 
 
+def _trace_region(
+    cur_ctx: el.Tracer, fn: Callable[..., Any], *args: Any, **kwargs: Any
+) -> el.TracedFunction:
+    """Trace a control-flow region, which is local exactly if its context is.
+
+    Inside a pcall, MP-typed objects captured by the region must be unwrapped
+    to their value types just like those captured by the pcall body itself.
+    """
+    tracer = _LocalMPTracer() if isinstance(cur_ctx, _LocalMPTracer) else el.Tracer()
+    return tracer.run(fn, *args, **kwargs)
+
+
 # ---------------------------------------------------------------------------
 # Control flow (scaffold)
 # ---------------------------------------------------------------------------
@@ -174,8 +186,8 @@ def _uniform_cond_trace(
     if not callable(then_fn) or not callable(else_fn):
         raise TypeError("In trace mode, both branches must be callable functions")
 
-    then_traced = el.trace(then_fn, *args, **kwargs)
-    else_traced = el.trace(else_fn, *args, **kwargs)
+    then_traced = _trace_region(cur_ctx, then_fn, *args, **kwargs)
+    else_traced = _trace_region(cur_ctx, else_fn, *args, **kwargs)
     if not then_traced.is_output_signature_match(else_traced):
         then_types = [v.type for v in then_traced.graph.outputs]
         else_types = [v.type for v in else_traced.graph.outputs]
@@ -282,8 +294,8 @@ def _while_loop_trace(
                 f"while_loop init leaves must be TraceObject, got {type(leaf)}"
             )
 
-    cond_traced = el.trace(cond_fn, init)
-    body_traced = el.trace(body_fn, init)
+    cond_traced = _trace_region(cur_ctx, cond_fn, init)
+    body_traced = _trace_region(cur_ctx, body_fn, init)
 
     # Use params from traced function (same as state_flat filtered to Objects)
     # These are TraceObjects since we're in trace mode
-- 
2.43.0


From 3f98708fc8989871a66b2c661cbf87ebf4f4ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 11/44] fix: run the synchronous ops of an asynchronous
 evaluation in program order

Ops that run on the evaluating thread may wait for the same op of other
parties (uniform_cond, while_loop bodies, pcall). Running them in the order
in which they happened to become ready let two parties enter two such ops in
opposite orders and wait for each other forever.
---
 mplang/runtime/interpreter.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index 30ac684..b0343c5 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -1202,16 +1202,37 @@ class Interpreter(AbstractInterpreter):
             ready_queue.put(None)
 
         # 6. Main Loop
+        # Ops that are not async run on this thread, in program order: they may
+        # wait for the same op of other parties (e.g. uniform_cond), so parties
+        # must not run them in the order in which they happen to become ready.
+        sync_ops = collections.deque(
+            op
+            for op in graph.operations
+            if not (op.opcode in self.async_ops and self.executor)
+        )
+        ready_sync_ops: set[Any] = set()
+
+        def sync_ready() -> bool:
+            return bool(sync_ops) and sync_ops[0] in ready_sync_ops
+
         try:
             while True:
-                item = ready_queue.get()
+                # Hand every ready op to the executor before running one here
+                try:
+                    item = ready_queue.get(block=not sync_ready())
+                except queue.Empty:
+                    execute_op(sync_ops.popleft())
+                    continue
                 if item is None:
                     break
                 if isinstance(item, Exception):
                     raise item
 
                 # It's an op
-                execute_op(item)
+                if item.opcode in self.async_ops and self.executor:
+                    execute_op(item)
+                else:
+                    ready_sync_ops.add(item)
         finally:
             # Ops run on this thread have replaced the caller's CommContext
             self._tls.comm_ctx = root_comm_ctx
-- 
2.43.0


From 1791d0cfa5cdf7c6ab20a86f32302593c3c55937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 12/44] fix: let concurrent requests run at once on the same
 workers

A request blocks its thread on each party until all parties run it; with
world_size (in-process) or 2 (HTTP) threads per party, concurrent requests
queued behind each other on different parties and deadlocked.
---
 mplang/backends/simp_driver/http.py  | 3 ++-
 mplang/backends/simp_worker/http.py  | 8 ++++++--
 mplang/backends/simp_worker/infra.py | 6 ++++++
 mplang/backends/simp_worker/mem.py   | 5 ++++-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/simp_driver/http.py b/mplang/backends/simp_driver/http.py
index a792067..ea695e8 100644
--- a/mplang/backends/simp_driver/http.py
+++ b/mplang/backends/simp_driver/http.py
@@ -24,6 +24,7 @@ from typing import TYPE_CHECKING, Any
 import httpx
 
 from mplang.backends.simp_driver.state import SimpDriver
+from mplang.backends.simp_worker.infra import MAX_CONCURRENT_REQUESTS
 from mplang.edsl import serde
 from mplang.runtime.interpreter import Interpreter
 from mplang.runtime.object_store import FileSystemBackend, ObjectStore
@@ -78,7 +79,7 @@ class SimpHttpDriver(SimpDriver):
         # HTTP client and executor
         self._client = httpx.Client(timeout=None)
         self._executor = concurrent.futures.ThreadPoolExecutor(
-            max_workers=self._world_size
+            max_workers=self._world_size * MAX_CONCURRENT_REQUESTS
         )
 
     @property
diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 29dc3ba..87f52e0 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -920,7 +920,11 @@ def create_worker_app(
 
     handlers: dict[str, Callable[..., Any]] = {**WORKER_HANDLERS}  # type: ignore[dict-item]
 
-    from mplang.backends.simp_worker.infra import DEFAULT_ASYNC_OPS, WorkerInfra
+    from mplang.backends.simp_worker.infra import (
+        DEFAULT_ASYNC_OPS,
+        MAX_CONCURRENT_REQUESTS,
+        WorkerInfra,
+    )
 
     infra = WorkerInfra(
         rank=rank,
@@ -935,7 +939,7 @@ def create_worker_app(
     )
 
     exec_pool = concurrent.futures.ThreadPoolExecutor(
-        max_workers=2, thread_name_prefix=f"exec_{rank}"
+        max_workers=MAX_CONCURRENT_REQUESTS, thread_name_prefix=f"exec_{rank}"
     )
 
     @asynccontextmanager
diff --git a/mplang/backends/simp_worker/infra.py b/mplang/backends/simp_worker/infra.py
index a6f68e2..c153121 100644
--- a/mplang/backends/simp_worker/infra.py
+++ b/mplang/backends/simp_worker/infra.py
@@ -31,6 +31,12 @@ from mplang.backends.simp_worker.base import CommunicatorProtocol
 from mplang.runtime.interpreter import ExecutionTracer
 from mplang.runtime.object_store import ObjectStore
 
+# How many requests may execute on the same workers at once. Each occupies one
+# thread per party until every party has run it, so a request that is queued on
+# one party only (because its threads run out) blocks the others forever.
+# Threads are created on demand.
+MAX_CONCURRENT_REQUESTS = 256
+
 # Opcodes eligible for async DAG scheduling when an Executor is present.
 # Kept as a module-level constant so that both MemCluster and HTTP Worker
 # share the same set without duplication.
diff --git a/mplang/backends/simp_worker/mem.py b/mplang/backends/simp_worker/mem.py
index 04d5539..7c5de18 100644
--- a/mplang/backends/simp_worker/mem.py
+++ b/mplang/backends/simp_worker/mem.py
@@ -21,6 +21,7 @@ import threading
 from typing import Any
 
 from mplang.backends.simp_worker.base import SendRequest
+from mplang.backends.simp_worker.infra import MAX_CONCURRENT_REQUESTS
 
 # ---------------------------------------------------------------------------
 # ThreadCommunicator
@@ -164,7 +165,9 @@ class LocalMesh:
         ]
         for comm in self.comms:
             comm.set_peers(self.comms)
-        self.executor = concurrent.futures.ThreadPoolExecutor(max_workers=world_size)
+        self.executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=world_size * MAX_CONCURRENT_REQUESTS
+        )
 
     def shutdown(self, wait: bool = True) -> None:
         for comm in self.comms:
-- 
2.43.0


From acabcf18fd97eadfae06a84e82b3cf86ee3bac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 13/44] fix: carry message keys unchanged in the URLs of HTTP
 messages

Keys with '/', '?', '#', '%', control characters or dot segments were
delivered under another key or not at all.
---
 mplang/backends/simp_worker/http.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 87f52e0..ad9c643 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -46,6 +46,7 @@ from contextlib import asynccontextmanager
 from dataclasses import dataclass, field
 from enum import StrEnum
 from typing import Any
+from urllib.parse import quote
 
 import httpx
 from fastapi import FastAPI, HTTPException
@@ -384,7 +385,10 @@ class HttpCommunicator:
             request_timeout: Per-request timeout passed to httpx.  If *None*,
                 the client-level ``http_timeout`` is used instead.
         """
-        url = f"{self.endpoints[to]}/comm/{key}"
+        # Escape the key, so that it is one path segment which no URL
+        # normalization alters ("." included: "." and ".." are special).
+        escaped_key = quote(key, safe="").replace(".", "%2E")
+        url = f"{self.endpoints[to]}/comm/{escaped_key}"
         logger.debug(f"Rank {self.rank} sending to {to} key={key}, url={url}")
 
         # Raw-bytes transport rule:
@@ -763,7 +767,7 @@ def register_routes(
             response["error"] = task.error
         return response
 
-    @app.put("/comm/{key}")
+    @app.put("/comm/{key:path}")
     async def receive_comm(key: str, request: FastAPIRequest) -> dict[str, str]:
         """Receive communication data from another worker.
 
-- 
2.43.0


From 1d58c370826a23d4181d28040ee46660cf6a273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 14/44] fix: publish the outcome of an async job before its
 final status

A status request between the two writes saw SUCCESS or FAILED without the
result or the error, and a result that cannot be serialised was first
reported as SUCCESS and then as FAILED.
---
 mplang/backends/simp_worker/http.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index ad9c643..fa7dd70 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -694,13 +694,14 @@ def register_routes(
         """Wrapper that updates AsyncTaskState around _do_execute."""
         async_tasks[exec_id].status = AsyncTaskStatus.RUNNING
         try:
-            result = _do_execute(graph, inputs, job_id)
+            result = serde.dumps_b64(_do_execute(graph, inputs, job_id))
+            # Publish the outcome before the status that announces it.
+            async_tasks[exec_id].result = result
             async_tasks[exec_id].status = AsyncTaskStatus.SUCCESS
-            async_tasks[exec_id].result = serde.dumps_b64(result)
         except Exception as e:
             logger.error(f"Worker {rank} async exec failed: {e}")
-            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
             async_tasks[exec_id].error = str(e)
+            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
 
     @app.post("/exec")
     async def execute(req: ExecRequest) -> dict[str, str]:
-- 
2.43.0


From 17544250c30187d089950fc9f25dafe4357faba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 15/44] fix: let a job be polled whatever its identifier
 contains

An accepted job whose identifier contains a slash was reported as not found.
---
 mplang/backends/simp_worker/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index fa7dd70..1277c70 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -749,7 +749,7 @@ def register_routes(
         exec_pool.submit(_do_execute_async, exec_id, graph, inputs, req.job_id)
         return {"exec_id": exec_id}
 
-    @app.get("/exec/{exec_id}/status")
+    @app.get("/exec/{exec_id:path}/status")
     async def get_exec_status(exec_id: str) -> dict[str, str | None]:
         """Poll the status of an async execution task."""
         task = async_tasks.get(exec_id)
-- 
2.43.0


From 66b7cb3af5ba29eae27e25172222b4a7d3b99b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 16/44] fix: reject raw message data that is not base64

Such a delivery was answered with success and put whatever the lenient
decoder made of it (often an empty message) into the mailbox.
---
 mplang/backends/simp_worker/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 1277c70..3368c59 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -835,7 +835,7 @@ def register_routes(
                 if req.is_raw_bytes:
                     import base64
 
-                    data = base64.b64decode(req.data)
+                    data = base64.b64decode(req.data, validate=True)
                 else:
                     data = serde.loads_b64(req.data)
 
-- 
2.43.0


From 9d5f365571b1388b9f143b6ebe56e8f619b1f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 17/44] fix: read programs back whatever their values are named

---
 mplang/edsl/graph.py | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/mplang/edsl/graph.py b/mplang/edsl/graph.py
index 60fc34b..13c7e97 100644
--- a/mplang/edsl/graph.py
+++ b/mplang/edsl/graph.py
@@ -428,33 +428,28 @@ class Graph:
             # Resolve input values by name
             inputs = [graph.values[name] for name in op_data["inputs"]]
 
-            # Get output types
-            output_types = [_type_from_json(out["type"]) for out in op_data["outputs"]]
-
             # Deserialize nested graphs (regions)
             regions = [serde.from_json(r) for r in op_data.get("regions", [])]
 
-            # Add operation
-            outputs = graph.add_op(
-                op_data["opcode"],
-                inputs,
-                output_types=output_types,
-                attrs=_attrs_from_json(op_data.get("attrs", {})),
-                regions=regions,
+            # Recreate the outputs under their original names, which need not be
+            # the ones that would be generated here
+            outputs = [
+                graph.add_value(_type_from_json(out["type"]), name=out["name"])
+                for out in op_data["outputs"]
+            ]
+            graph._value_counter += len(outputs)
+
+            graph.operations.append(
+                Operation(
+                    opcode=op_data["opcode"],
+                    inputs=inputs,
+                    outputs=outputs,
+                    attrs=_attrs_from_json(op_data.get("attrs", {})),
+                    regions=regions,
+                    name=op_data.get("name") or f"op{graph._op_counter}",
+                )
             )
-
-            # Rename outputs to match original names
-            for out_val, out_data in zip(outputs, op_data["outputs"], strict=False):
-                original_name = out_data["name"]
-                if out_val.name != original_name:
-                    # Update the values dict with the original name
-                    del graph.values[out_val.name]
-                    out_val.name = original_name
-                    graph.values[original_name] = out_val
-
-            # Set operation name if provided
-            if op_data.get("name"):
-                graph.operations[-1].name = op_data["name"]
+            graph._op_counter += 1
 
         # Reconstruct outputs
         for name in data["outputs"]:
-- 
2.43.0


From 40c146422e62bbf7150c99c9dc8a068f22d04e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 18/44] fix: keep an SPU configuration's empty link description
 when it is read back

---
 mplang/dialects/spu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/spu.py b/mplang/dialects/spu.py
index 7b0a9a9..63b7449 100644
--- a/mplang/dialects/spu.py
+++ b/mplang/dialects/spu.py
@@ -209,7 +209,9 @@ class SPUConfig:
             enable_hal_profile=profiling_flag("enable_hal_profile"),
             enable_pphlo_trace=profiling_flag("enable_pphlo_trace"),
             enable_action_trace=profiling_flag("enable_action_trace"),
-            link_desc=SPULinkDesc.from_dict(link_desc) if link_desc else None,
+            link_desc=(
+                SPULinkDesc.from_dict(link_desc) if link_desc is not None else None
+            ),
         )
 
     # --- Serde methods ---
-- 
2.43.0


From 3f9019d66d4b62e630d2285e997e13d9f3ab2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:18 +0000
Subject: [PATCH 19/44] fix: let contexts be searched by state while tracing

---
 mplang/edsl/tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 98860ad..3337508 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -95,6 +95,7 @@ class Tracer(Context):
     """
 
     def __init__(self) -> None:
+        super().__init__()
         self.reset()
 
     def reset(self) -> None:
-- 
2.43.0


From dee3b4b0ff9e91b52ab3783d59b7527b49b95409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 20/44] fix: count the parties of shuffles in a program's
 required world size

---
 mplang/tool/program.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mplang/tool/program.py b/mplang/tool/program.py
index 80ce294..1124e7d 100644
--- a/mplang/tool/program.py
+++ b/mplang/tool/program.py
@@ -71,6 +71,12 @@ def _collect_parties(graph: Graph) -> set[int]:
     parties: set[int] = set()
     for g in _iter_graphs(graph):
         for op in g.operations:
+            # A static shuffle names its parties in its routing {target: source}.
+            routing = op.attrs.get("routing")
+            if op.opcode == "simp.shuffle" and isinstance(routing, dict):
+                for target, source in routing.items():
+                    parties.update((int(target), int(source)))
+
             raw = op.attrs.get("parties")
             if raw is None:
                 continue
-- 
2.43.0


From 8ee05dee41ffd59d96c2d3f9d1fae5c699caa56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 21/44] fix: refuse to run a program on a cluster with too few
 parties

---
 mplang/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mplang/__init__.py b/mplang/__init__.py
index 7cee11f..ac7d07f 100644
--- a/mplang/__init__.py
+++ b/mplang/__init__.py
@@ -179,6 +179,16 @@ def evaluate(
                     "CompiledProgram requires flat positional inputs matching its signature; "
                     f"expected {fn.signature.input_arity}, got {len(args)}."
                 )
+            world_size = getattr(interp.get_dialect_state("simp"), "world_size", None)
+            if (
+                world_size is not None
+                and fn.required_world_size is not None
+                and world_size < fn.required_world_size
+            ):
+                raise ValueError(
+                    "CompiledProgram requires at least "
+                    f"{fn.required_world_size} parties, got {world_size}."
+                )
 
             return eval_graph(fn.graph, list(args))
 
-- 
2.43.0


From 7664860315638a70880de5ab2355fd509b3b3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 22/44] fix: return all rows of a batch that spans several
 chunks

---
 mplang/backends/table_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 49aa914..9b0627a 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -236,7 +236,7 @@ class TableReader(BatchReader):
 
         # Otherwise, combine all batches and return as a single RecordBatch
         combined = pa.Table.from_batches(batches)
-        return combined.to_batches()[0]
+        return combined.combine_chunks().to_batches()[0]
 
     def close(self) -> None:
         """Close the reader and release all resources.
-- 
2.43.0


From 94148a007da616018559d44fe10308fb8ff29c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 23/44] fix: include the rows left over from the last batch
 when reading the rest of a table

---
 mplang/backends/table_impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 9b0627a..636dc51 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -129,7 +129,12 @@ class TableReader(BatchReader):
         Returns:
             Complete table containing all remaining data
         """
-        return self._reader.read_all()
+        rest = self._reader.read_all()
+        if self._remain is not None:
+            remain = pa.Table.from_batches([self._remain])
+            rest = pa.concat_tables([remain, rest])
+            self._remain = None
+        return rest
 
     def read_next_batch(self) -> pa.RecordBatch:
         """Read the next batch of records.
-- 
2.43.0


From 1609f6118e23f7e460da9d3e270cf066d6a57491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 24/44] fix: read tables that are written side by side in equal
 batches

---
 mplang/backends/table_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 636dc51..ed7746e 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -539,7 +539,7 @@ class QueryTableSource(TableSource):
         if batch_size <= 0:
             batch_size = DEFAULT_BATCH_SIZE
         reader = self.relation.arrow(batch_size)
-        return TableReader(reader)
+        return TableReader(reader, batch_size=batch_size)
 
 
 # =============================================================================
@@ -898,7 +898,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             readers.append(
                 data.open(batch_size)
                 if isinstance(data, TableSource)
-                else TableReader(data)
+                else TableReader(data, batch_size=batch_size)
             )
 
         reader: BatchReader = (
-- 
2.43.0


From 4d18f282a818fc6988c2d22f24398ec5164a3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 25/44] fix: refuse tables of different lengths also when one
 of them ends at a batch boundary

---
 mplang/backends/table_impl.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index ed7746e..7680299 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -859,14 +859,19 @@ class MultiTableReader(BatchReader):
         num_rows = -1
         columns: list[pa.ChunkedArray] = []
         for idx, r in enumerate(self._readers):
-            batch = r.read_next_batch()
+            batch = next(r, None)
+            batch_rows = 0 if batch is None else batch.num_rows
             if num_rows == -1:
-                num_rows = batch.num_rows
-            elif num_rows != batch.num_rows:
+                num_rows = batch_rows
+            elif num_rows != batch_rows:
                 raise ValueError(
-                    f"Batch {idx} has {batch.num_rows} rows, expected {num_rows}"
+                    f"Batch {idx} has {batch_rows} rows, expected {num_rows}"
                 )
-            columns.extend(batch.columns)
+            if batch is not None:
+                columns.extend(batch.columns)
+        if len(columns) < len(self._schema):
+            # No reader has any rows left
+            raise StopIteration
         return pa.RecordBatch.from_arrays(columns, names=self._schema.names)
 
     def close(self) -> None:
-- 
2.43.0


From fb60d2e375becdb0896e4f30971ff36970383efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 26/44] fix: leave no partial file when writing a table fails

---
 mplang/backends/table_impl.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 7680299..8dd155e 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -956,14 +956,16 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             raise e
 
         try:
-            for batch in reader:
-                writer.write_batch(batch)
+            try:
+                for batch in reader:
+                    writer.write_batch(batch)
+            finally:
+                reader.close()
+                writer.close()
         except Exception as e:
+            # Only after closing: writers may still write when they are closed
             _safe_remove_file(resolved)
             raise e
-        finally:
-            reader.close()
-            writer.close()
 
     if interpreter.store:
         local_path = os.path.abspath(os.path.join(".tmp", path))
-- 
2.43.0


From ba1faa6749136ba3c9538423af31ee281773ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 27/44] fix: write tables without rows as JSON

---
 mplang/backends/table_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 8dd155e..576cf52 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -919,8 +919,9 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             def close(self) -> None: ...
 
         class JsonWriter(BatchWriter):
-            def __init__(self, path: str) -> None:
+            def __init__(self, path: str, schema: pa.Schema) -> None:
                 self._path = path
+                self._schema = schema
                 self._batches: list[pa.RecordBatch] = []
 
             def write_batch(self, batch: pa.RecordBatch) -> None:
@@ -928,7 +929,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
 
             def close(self) -> None:
                 # PyArrow doesn't have direct JSON write, convert to pandas
-                tbl = pa.Table.from_batches(self._batches)
+                tbl = pa.Table.from_batches(self._batches, schema=self._schema)
                 df = tbl.to_pandas()
                 df.to_json(self._path, orient="records", lines=True)
 
@@ -947,7 +948,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
                 case "csv":
                     writer = pa_csv.CSVWriter(resolved, reader.schema)
                 case "json":
-                    writer = JsonWriter(resolved)
+                    writer = JsonWriter(resolved, reader.schema)
                 case _:
                     raise ValueError(f"Unsupported format: {fmt}")
         except Exception as e:
-- 
2.43.0


From ce80979664ff392d0de843a760ae6a440e0f8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 28/44] fix: refuse keys that lead to a sibling of the store's
 root or through a link out of it

---
 mplang/runtime/object_store.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 3d10579..b39bac9 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -180,7 +180,11 @@ class FileSystemBackend(StoreBackend):
         root = os.path.abspath(self._root_path)
         clean_key = key.lstrip("/")
         path = os.path.abspath(os.path.join(root, clean_key))
-        if not path.startswith(root):
+        # Links are followed for the check: neither a sibling such as
+        # "<root>-other" nor the target of a link may be outside the root.
+        real_root = os.path.realpath(root)
+        real_path = os.path.realpath(path)
+        if os.path.commonpath([real_root, real_path]) != real_root:
             raise ValueError(f"Invalid key (traversal attempt): {key}")
         return path
 
-- 
2.43.0


From 872fccbf821e88a917a2abda0bab2b58ca7a032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 29/44] fix: keep the store's root when the working directory
 changes

---
 mplang/runtime/object_store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index b39bac9..8bc6651 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -171,8 +171,11 @@ class FileSystemBackend(StoreBackend):
         return "fs"
 
     def __init__(self, root_path: str) -> None:
+        # Absolute from the start: the store stays where it is when the
+        # working directory changes.
+        root_path = os.path.abspath(root_path)
         super().__init__(root_path=root_path)
-        os.makedirs(os.path.abspath(root_path), exist_ok=True)
+        os.makedirs(root_path, exist_ok=True)
 
     def _resolve_key(self, key: str) -> str:
         """Resolve *key* under ``root_path`` with traversal prevention."""
-- 
2.43.0


From fff9aa82a097b7d43fd6b2a14d74e86c71c81db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 30/44] fix: report keys that only are the beginning of other
 keys as missing

---
 mplang/runtime/object_store.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 8bc6651..c50441f 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -26,6 +26,7 @@ ObjectStore provides a two-layer storage model:
 
 from __future__ import annotations
 
+import contextlib
 import os
 import pickle
 import shutil
@@ -199,18 +200,22 @@ class FileSystemBackend(StoreBackend):
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
-        if not os.path.exists(path):
-            raise KeyError(f"Key not found: {key}")
-        with open(path, "rb") as f:
+        try:
+            f = open(path, "rb")
+        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
+            raise KeyError(f"Key not found: {key}") from None
+        with f:
             return pickle.load(f)
 
     def delete(self, key: str) -> None:
         path = self._resolve_key(key)
-        if os.path.exists(path):
-            os.remove(path)
+        if self.exists(key):
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(path)
 
     def exists(self, key: str) -> bool:
-        return os.path.exists(self._resolve_key(key))
+        # A directory only holds other keys, it is not one itself.
+        return os.path.isfile(self._resolve_key(key))
 
     def list_keys(self) -> list[str]:
         assert self._root_path is not None
-- 
2.43.0


From 7e140af09008cc69fa09beb199d1ddb6b0d6cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 31/44] fix: keep the stored object when storing its
 replacement fails

---
 mplang/runtime/object_store.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index c50441f..b0e5100 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -32,6 +32,7 @@ import pickle
 import shutil
 import uuid
 from abc import ABC, abstractmethod
+from collections.abc import Iterator
 from hashlib import md5
 from typing import Any
 
@@ -167,6 +168,9 @@ class MemoryBackend(StoreBackend):
 class FileSystemBackend(StoreBackend):
     """File system storage backend using pickle."""
 
+    # Files that are still being written; never listed, not usable as keys.
+    _TMP_PREFIX = ".mplang-tmp-"
+
     @property
     def scheme(self) -> str:
         return "fs"
@@ -190,13 +194,37 @@ class FileSystemBackend(StoreBackend):
         real_path = os.path.realpath(path)
         if os.path.commonpath([real_root, real_path]) != real_root:
             raise ValueError(f"Invalid key (traversal attempt): {key}")
+        if os.path.basename(path).startswith(self._TMP_PREFIX):
+            raise ValueError(f"Invalid key (reserved name): {key}")
         return path
 
+    @classmethod
+    @contextlib.contextmanager
+    def _replacing(cls, path: str) -> Iterator[str]:
+        """Yield a temporary path whose file takes the place of *path*.
+
+        The replacement is atomic and happens only if the block succeeds;
+        otherwise what was stored at *path* stays as it is.
+        """
+        tmp = os.path.join(
+            os.path.dirname(path), f"{cls._TMP_PREFIX}{uuid.uuid4().hex}"
+        )
+        try:
+            yield tmp
+            os.replace(tmp, path)
+        except BaseException:
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(tmp)
+            raise
+
     def put(self, key: str, value: Any) -> None:
         path = self._resolve_key(key)
+        if os.path.isdir(path):
+            raise IsADirectoryError(f"Key names a directory of the store: {key}")
         os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, "wb") as f:
-            pickle.dump(value, f)
+        with self._replacing(path) as tmp:
+            with open(tmp, "wb") as f:
+                pickle.dump(value, f)
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
@@ -223,6 +251,8 @@ class FileSystemBackend(StoreBackend):
         keys = []
         for dirpath, _, files in os.walk(root):
             for file in files:
+                if file.startswith(self._TMP_PREFIX):
+                    continue
                 full_path = os.path.join(dirpath, file)
                 rel_path = os.path.relpath(full_path, root)
                 keys.append(rel_path)
-- 
2.43.0


From b4ceade7fdf32280826571c6da572f129ce6ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 32/44] fix: store the complete content of an uploaded file,
 neither a link nor a part of it

---
 mplang/runtime/object_store.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index b0e5100..641057f 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -27,6 +27,7 @@ ObjectStore provides a two-layer storage model:
 from __future__ import annotations
 
 import contextlib
+import errno
 import os
 import pickle
 import shutil
@@ -213,7 +214,9 @@ class FileSystemBackend(StoreBackend):
             yield tmp
             os.replace(tmp, path)
         except BaseException:
-            with contextlib.suppress(FileNotFoundError):
+            if os.path.isdir(tmp):
+                shutil.rmtree(tmp)
+            elif os.path.lexists(tmp):
                 os.remove(tmp)
             raise
 
@@ -278,6 +281,30 @@ class FileSystemBackend(StoreBackend):
         except OSError:
             return False
 
+    @classmethod
+    def _move(cls, source: str, dst: str) -> None:
+        """Move the content of *source* to *dst*, completely or not at all."""
+        if not os.path.islink(source):
+            try:
+                os.rename(source, dst)
+                return
+            except OSError as e:
+                if e.errno != errno.EXDEV:
+                    raise
+        # Never store the link itself: what it refers to is not in the store.
+        real = os.path.realpath(source)
+        if os.path.isdir(source) and os.path.commonpath([real, dst]) == real:
+            raise OSError(f"Cannot upload a directory into itself: {source} -> {dst}")
+        with cls._replacing(dst) as tmp:
+            if os.path.isdir(source):
+                shutil.copytree(source, tmp, symlinks=True)
+            else:
+                shutil.copy2(source, tmp)
+        if os.path.isdir(source) and not os.path.islink(source):
+            shutil.rmtree(source)
+        else:
+            os.remove(source)
+
     def download(self, key: str, dest: str) -> None:
         """Materialize backend data at local *dest*.
 
@@ -355,8 +382,7 @@ class FileSystemBackend(StoreBackend):
                     )
                 if self._same_file_content(source, dst):
                     if os.path.islink(dst):
-                        os.remove(dst)
-                        shutil.move(source, dst)
+                        self._move(source, dst)
                     else:
                         os.remove(source)
                     return
@@ -364,7 +390,7 @@ class FileSystemBackend(StoreBackend):
                     f"Upload destination already exists with different content: {dst}"
                 )
             os.makedirs(os.path.dirname(dst), exist_ok=True)
-            shutil.move(source, dst)
+            self._move(source, dst)
 
 
 class ObjectStore:
-- 
2.43.0


From 84bc7979dca7063d4b573876daed7d489d7b1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 33/44] fix: stage every table transfer in a directory of its
 own

---
 mplang/backends/table_impl.py | 52 +++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 576cf52..ce559f9 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -20,6 +20,10 @@ Implements execution logic for Table primitives using DuckDB and PyArrow.
 from __future__ import annotations
 
 import base64
+import os
+import shutil
+import uuid
+import weakref
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from typing import Any, ClassVar, Protocol, Self, cast, runtime_checkable
@@ -812,14 +816,32 @@ def _infer_format(path: str, format_hint: str) -> str:
         return "parquet"
 
 
+def _stage(path: str) -> tuple[str | None, str]:
+    """Return (directory to remove afterwards, local path) for a transfer.
+
+    Every transfer has a directory of its own: a file of the same name may be
+    in use by another transfer or be a link into the store of another party.
+    Absolute paths are used directly.
+    """
+    if os.path.isabs(path):
+        os.makedirs(os.path.dirname(path), exist_ok=True)
+        return None, path
+    staging = os.path.abspath(os.path.join(".tmp", uuid.uuid4().hex))
+    os.makedirs(staging)
+    return staging, os.path.join(staging, os.path.basename(path))
+
+
+def _unstage(staging: str | None) -> None:
+    if staging is not None:
+        shutil.rmtree(staging, ignore_errors=True)
+
+
 @table.read_p.def_impl
 def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
     """Read table from file.
 
     Supported formats: parquet, csv, json
     """
-    import os
-
     path: str = op.attrs["path"]
     schema: elt.TableType = op.attrs["schema"]
     format_hint: str = op.attrs.get("format", "auto")
@@ -832,10 +854,16 @@ def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
         return _wrap(FileTableSource(path=resolved, format=fmt, schema=pa_schema))
 
     if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
-        os.makedirs(os.path.dirname(local_path), exist_ok=True)
-        interpreter.store.download(path, local_path)
-        return _do_read(local_path)
+        staging, local_path = _stage(path)
+        try:
+            interpreter.store.download(path, local_path)
+            value = _do_read(local_path)
+        except Exception:
+            _unstage(staging)
+            raise
+        # Tables are read lazily: the local file is needed as long as the source.
+        weakref.finalize(value.unwrap(), _unstage, staging)
+        return value
     return _do_read(path)
 
 
@@ -888,8 +916,6 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
     For LazyTable, performs streaming writes when supported.
     For regular Tables, performs direct writes.
     """
-    import os
-
     path: str = op.attrs["path"]
     format_hint: str = op.attrs.get("format", "parquet")
 
@@ -969,9 +995,11 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             raise e
 
     if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
-        os.makedirs(os.path.dirname(local_path), exist_ok=True)
-        _do_write(local_path)
-        interpreter.store.upload(local_path, path)
+        staging, local_path = _stage(path)
+        try:
+            _do_write(local_path)
+            interpreter.store.upload(local_path, path)
+        finally:
+            _unstage(staging)
     else:
         _do_write(path)
-- 
2.43.0


From 3e2d3a9969de3392dc75fc0964a52782ff509826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 34/44] fix: give each member of a secure device the share of
 its own position

---
 mplang/libs/device/api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mplang/libs/device/api.py b/mplang/libs/device/api.py
index 89d3de0..1d17c36 100644
--- a/mplang/libs/device/api.py
+++ b/mplang/libs/device/api.py
@@ -173,7 +173,7 @@ def _infer_device_from_args(*args: Any, **kwargs: Any) -> str:
 
 def _device_run_spu(dev_info: Device, fn: Callable, *args: Any, **kwargs: Any) -> Any:
     """Run function on SPU device."""
-    spu_parties = tuple(m.rank for m in dev_info.members)
+    spu_parties = dev_info.member_ranks
 
     # SPU execution uses spu.run_jax to compile and execute the function on the SPU.
     # Inputs are expected to be already on the SPU (handled by _d2d).
@@ -495,7 +495,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("PPU", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = to_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # 1. Generate shares on source
@@ -530,7 +530,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "PPU"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = frm_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # 1. Gather shares to target
@@ -611,7 +611,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("TEE", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = to_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # Generate shares on TEE (same logic as PPU -> SPU)
@@ -638,7 +638,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "TEE"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = frm_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # Gather shares to TEE (same logic as SPU -> PPU)
-- 
2.43.0


From c6cf402cbf27b9ba32bf117fabff8c0ff8d75a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 35/44] fix: run JAX functions on a secure device that is
 inferred from the arguments

---
 mplang/libs/device/api.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mplang/libs/device/api.py b/mplang/libs/device/api.py
index 1d17c36..2eb50a7 100644
--- a/mplang/libs/device/api.py
+++ b/mplang/libs/device/api.py
@@ -328,6 +328,14 @@ class DeviceContext:
         """
 
         def wrapper(fn: Callable) -> Callable:
+            if self.dev_id is None:
+                # How to wrap depends on the device inferred from the arguments
+                @wraps(fn)
+                def inferred(*args: Any, **kwargs: Any) -> Any:
+                    dev_id = self._resolve_device(*args, **kwargs)
+                    return DeviceContext(dev_id).jax(fn)(*args, **kwargs)
+
+                return inferred
             # SPU natively uses JAX via spu.run_jax, no extra wrapping needed
             if self._is_spu_device():
                 return self(fn)
-- 
2.43.0


From adeadc0882866575047db21642cb0d78f315bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 36/44] fix: refuse inconsistent cluster descriptions and keep
 ranks in their dictionaries

---
 mplang/libs/device/cluster.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index d951e95..ba1840f 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -123,6 +123,11 @@ class ClusterSpec:
                     f"Node key '{key}' does not match node.name '{node.name}'"
                 )
 
+        if sorted(n.rank for n in self.nodes.values()) != list(range(len(self.nodes))):
+            raise ValueError(
+                "Node ranks must be the numbers from 0 to the number of nodes - 1"
+            )
+
         for key, device in self.devices.items():
             if key != device.name:
                 raise ValueError(
@@ -138,12 +143,27 @@ class ClusterSpec:
                         f"Device '{device.name}' has member '{member.name}' "
                         "which is not defined in nodes"
                     )
+                if member != self.nodes[member.name]:
+                    raise ValueError(
+                        f"Device '{device.name}' has member '{member.name}' "
+                        "which differs from the node of that name"
+                    )
+
+        # ensure all devices have members, each of them once
+        for device in self.devices.values():
+            names = [member.name for member in device.members]
+            if not names or len(set(names)) != len(names):
+                raise ValueError(
+                    f"Device '{device.name}' must have at least one member and "
+                    f"each member only once, got {names}"
+                )
 
-        # ensure ppu devices have exactly one member
+        # ensure ppu and tee devices have exactly one member
         for device in self.devices.values():
-            if device.kind.lower() == "ppu" and len(device.members) != 1:
+            if device.kind.lower() in ("ppu", "tee") and len(device.members) != 1:
                 raise ValueError(
-                    f"PPU device '{device.name}' must have exactly one member"
+                    f"{device.kind.upper()} device '{device.name}' must have "
+                    "exactly one member"
                 )
 
     def get_node(self, name: str) -> Node:
@@ -171,7 +191,11 @@ class ClusterSpec:
         """Convert ClusterSpec to a dictionary."""
         return {
             "cluster_id": self.cluster_id,
-            "nodes": [node.to_dict() for node in self.nodes.values()],
+            # The position in the list is the rank
+            "nodes": [
+                node.to_dict()
+                for node in sorted(self.nodes.values(), key=lambda n: n.rank)
+            ],
             "devices": {
                 name: device.to_dict() for name, device in self.devices.items()
             },
-- 
2.43.0


From e0d36759013001fa1cd3335eff7769196d605d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:45 +0000
Subject: [PATCH 37/44] fix: link exactly the parties of a secure kernel,
 separately for every request

---
 mplang/backends/simp_worker/request.py |  2 +-
 mplang/backends/spu_state.py           | 29 +++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/mplang/backends/simp_worker/request.py b/mplang/backends/simp_worker/request.py
index 9830558..35270c3 100644
--- a/mplang/backends/simp_worker/request.py
+++ b/mplang/backends/simp_worker/request.py
@@ -80,7 +80,7 @@ def create_request_interpreter(
     interp.set_dialect_state("simp", worker_state)
 
     # Per-request SPUState: will use link.spawn() for Runtime isolation
-    spu_state = SPUState(infra=infra)
+    spu_state = SPUState(infra=infra, namespace=context_id)
     interp.set_dialect_state("spu", spu_state)
 
     return interp
diff --git a/mplang/backends/spu_state.py b/mplang/backends/spu_state.py
index 73a1471..7a4a00c 100644
--- a/mplang/backends/spu_state.py
+++ b/mplang/backends/spu_state.py
@@ -20,6 +20,7 @@ multiple executions while binding to the Interpreter's lifecycle.
 
 from __future__ import annotations
 
+import hashlib
 import logging
 import os
 from dataclasses import dataclass, field, replace
@@ -113,12 +114,16 @@ class SPUState(DialectState):
         self,
         infra: WorkerInfra | None = None,
         brpc_config: BrpcLinkConfig | None = None,
+        namespace: str = "",
     ) -> None:
         # Optional shared infrastructure (for per-request isolation via link.spawn)
         self._infra = infra
+        # Distinguishes the messages of this request on a shared communicator
+        self._namespace = namespace
         self._brpc_config = brpc_config or BrpcLinkConfig()
         # Key: (local_rank, world_size, protocol, field, fxp_fraction_bits,
-        # profiling flags, link_mode, spu_endpoints, brpc_config).
+        # profiling flags, link_mode, spu_endpoints, brpc_config, parties).
+        # ``parties`` participates only when link_mode == "channels" (else None).
         # ``brpc_config`` participates only when link_mode == "brpc" (else None)
         # so callers passing custom configs don't silently reuse the first
         # config's link.
@@ -137,6 +142,7 @@ class SPUState(DialectState):
                 str,
                 tuple[str, ...] | None,
                 BrpcLinkConfig | None,
+                tuple[int, ...] | None,
             ],
             tuple[spu_api.Runtime, spu_api.Io],
         ] = {}
@@ -181,9 +187,13 @@ class SPUState(DialectState):
     ) -> libspu.link.Context:
         """Get or create a template link for the given configuration.
 
-        With ``WorkerInfra``: uses infra's thread-safe shared cache.
+        With ``WorkerInfra``: uses infra's thread-safe shared cache, except for
+        links over the communicator, which belong to the request.
         Without: uses a local (non-thread-safe) cache on this SPUState.
         """
+        # All members agree on the key but for their own position
+        digest = hashlib.sha256(repr(cache_key[1:]).encode()).hexdigest()[:16]
+        tag_prefix = f"spu:{self._namespace}:{digest}"
 
         def _create() -> libspu.link.Context:
             if spu_endpoints:
@@ -193,12 +203,13 @@ class SPUState(DialectState):
                 if parties is None:
                     raise ValueError("parties required when using communicator")
                 return self._create_channels_link(
-                    local_rank, spu_world_size, communicator, parties
+                    local_rank, spu_world_size, communicator, parties, tag_prefix
                 )
             else:
                 return self._create_mem_link(local_rank, spu_world_size)
 
-        if self._infra is not None:
+        over_communicator = not spu_endpoints and communicator is not None
+        if self._infra is not None and not over_communicator:
             return self._infra.get_or_create_spu_link(cache_key, _create)
 
         if cache_key not in self._template_links:
@@ -247,6 +258,7 @@ class SPUState(DialectState):
         brpc_config = (
             self._effective_brpc_config(config) if link_mode == "brpc" else None
         )
+        members = tuple(parties) if link_mode == "channels" and parties else None
         link_cache_key = (
             local_rank,
             spu_world_size,
@@ -256,6 +268,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            members,
         )
         runtime_cache_key = (
             local_rank,
@@ -270,6 +283,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            members,
         )
 
         if runtime_cache_key in self._runtimes:
@@ -311,6 +325,7 @@ class SPUState(DialectState):
         spu_world_size: int,
         communicator: Any,
         parties: list[int],
+        tag_prefix: str = "spu",
     ) -> libspu.link.Context:
         """Create link using custom channels (reuse v2 communicator).
 
@@ -319,6 +334,8 @@ class SPUState(DialectState):
             spu_world_size: Number of SPU parties
             communicator: v2 communicator (ThreadCommunicator/HttpCommunicator)
             parties: List of global ranks for SPU parties (ordered by local rank)
+            tag_prefix: Prefix of all message tags, different for links that
+                may be in use at the same time
 
         Returns:
             libspu link context using BaseChannel adapters
@@ -336,7 +353,9 @@ class SPUState(DialectState):
                 channel = None
             else:
                 # Create channel to peer
-                channel = BaseChannel(communicator, global_rank, peer_global_rank)
+                channel = BaseChannel(
+                    communicator, global_rank, peer_global_rank, tag_prefix
+                )
             channels.append(channel)
 
         # Create link descriptor
-- 
2.43.0


From 0345083da8eb8441e630b2589c2fdce5de6f1dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:11 +0000
Subject: [PATCH 38/44] fix: compute with zero, cancelling and batch-encoded
 BFV values

---
 mplang/backends/bfv_impl.py | 153 ++++++++++++++++++++++++++----------
 1 file changed, 110 insertions(+), 43 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 53d1b76..0e1bd17 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -22,6 +22,7 @@ from __future__ import annotations
 import base64
 import os
 import uuid
+from collections.abc import Callable
 from dataclasses import dataclass
 from typing import Any, ClassVar, cast
 
@@ -191,16 +192,20 @@ class BFVValue(Value):
     is_cipher: bool = True
 
     def to_json(self) -> dict[str, Any]:
-        # Serialize the ciphertext/plaintext via temp file (SEAL API requirement)
-        # Use /dev/shm on Linux for better performance (no disk I/O)
-        fname = _get_seal_temp_path()
-        try:
-            self.data.save(fname)
-            with open(fname, "rb") as f:
-                data_bytes = f.read()
-        finally:
-            if os.path.exists(fname):
-                os.unlink(fname)
+        if self.is_cipher and self.data.is_transparent():
+            # SEAL does not load transparent ciphertexts (zero), so none is saved
+            data_bytes = b""
+        else:
+            # Serialize the ciphertext/plaintext via temp file (SEAL API requirement)
+            # Use /dev/shm on Linux for better performance (no disk I/O)
+            fname = _get_seal_temp_path()
+            try:
+                self.data.save(fname)
+                with open(fname, "rb") as f:
+                    data_bytes = f.read()
+            finally:
+                if os.path.exists(fname):
+                    os.unlink(fname)
 
         # Serialize context as parameters only (to save bandwidth)
         # We create a temporary BFVParamContextValue wrapper
@@ -219,6 +224,9 @@ class BFVValue(Value):
         data_bytes = base64.b64decode(data["data_bytes"])
         is_cipher = data["is_cipher"]
 
+        if is_cipher and not data_bytes:
+            return _transparent_zero(ctx)
+
         # Load via temp file (SEAL API requirement)
         # Use /dev/shm on Linux for better performance (no disk I/O)
         fname = _get_seal_temp_path()
@@ -320,7 +328,7 @@ def batch_encode_impl(
     interpreter: Interpreter,
     op: Operation,
     *args: Value,
-) -> tuple[BFVValue | TensorValue, ...]:
+) -> BFVValue | tuple[BFVValue, ...]:
     # args will be (tensor, encoder, key)
     key = args[-1]
     _encoder = args[-2]
@@ -343,30 +351,24 @@ def batch_encode_impl(
         ctx.batch_encoder.encode(vec, pt)
         results.append(BFVValue(pt, ctx, is_cipher=False))
 
-    return tuple(results)
+    # A single output is returned as such, not as a tuple
+    return results[0] if len(results) == 1 else tuple(results)
 
 
 @bfv.encrypt_p.def_impl
 def encrypt_impl(
     interpreter: Interpreter,
     op: Operation,
-    plaintext: TensorValue,
+    plaintext: BFVValue | TensorValue,
     pk: BFVPublicContextValue,
 ) -> BFVValue:
-    # plaintext is TensorValue (from encode_impl)
+    # plaintext is TensorValue (from encode_impl) or BFVValue (from batch_encode_impl)
     # pk is BFVPublicContextValue
-    plaintext_arr = plaintext.unwrap().flatten()
-
-    # 1. Create Plaintext
-    pt = sealapi.Plaintext()
 
-    # 2. Encode
-    # We need to handle types. Assuming int64 vector.
-    # Optimization: Use tolist() instead of list comprehension
-    vec = plaintext_arr.tolist()
-    pk.batch_encoder.encode(vec, pt)
+    # 1. Encode (assuming int64 vector)
+    pt = _ensure_plaintext(pk, plaintext)
 
-    # 3. Encrypt
+    # 2. Encrypt
     ct = sealapi.Ciphertext()
     pk.encryptor.encrypt(pt, ct)
 
@@ -384,7 +386,10 @@ def decrypt_impl(
     # sk is BFVSecretContextValue
 
     pt = sealapi.Plaintext()
-    sk.decryptor.decrypt(ciphertext.data, pt)
+    if ciphertext.data.is_transparent():
+        sk.batch_encoder.encode([0], pt)
+    else:
+        sk.decryptor.decrypt(ciphertext.data, pt)
 
     return BFVValue(pt, sk, is_cipher=False)
 
@@ -400,6 +405,48 @@ def decode_impl(
     return TensorValue.wrap(np.array(vec))
 
 
+def _transparent_zero(ctx: BFVPublicContextValue) -> BFVValue:
+    """The zero ciphertext that needs no key; all operations treat it as zero."""
+    return BFVValue(sealapi.Ciphertext(), ctx, is_cipher=True)
+
+
+def _encrypted_zero(ctx: BFVPublicContextValue) -> BFVValue:
+    """An encryption of zero, if the context has the public key for it."""
+    if not hasattr(ctx, "encryptor"):
+        return _transparent_zero(ctx)
+    result_ct = sealapi.Ciphertext()
+    ctx.encryptor.encrypt_zero(result_ct)
+    return BFVValue(result_ct, ctx, is_cipher=True)
+
+
+def _hiding(
+    evaluate: Callable[[Any], Any], data: Any, *ctxs: BFVPublicContextValue
+) -> Any:
+    """Evaluate on a ciphertext; SEAL refuses results that anyone could read
+    (transparent ones, e.g. of x - x), so an encryption of zero is added then.
+    """
+    try:
+        return evaluate(data)
+    except RuntimeError as e:
+        ctx = next((c for c in ctxs if hasattr(c, "encryptor")), None)
+        if "transparent" not in str(e) or ctx is None:
+            raise
+    hidden = sealapi.Ciphertext()
+    ctx.evaluator.add(data, _encrypted_zero(ctx).data, hidden)
+    return evaluate(hidden)
+
+
+def _combine(op: Callable[..., None], lhs: BFVValue, rhs: BFVValue) -> BFVValue:
+    """Add or subtract ciphertexts."""
+
+    def evaluate(data: Any) -> Any:
+        result_ct = sealapi.Ciphertext()
+        op(data, rhs.data, result_ct)
+        return result_ct
+
+    return BFVValue(_hiding(evaluate, lhs.data, lhs.ctx, rhs.ctx), lhs.ctx)
+
+
 def _ensure_plaintext(ctx: BFVPublicContextValue, data: BFVValue | TensorValue) -> Any:
     """Convert data to sealapi.Plaintext using the given context."""
     if isinstance(data, BFVValue):
@@ -435,8 +482,7 @@ def add_impl(
             if rhs.data.is_transparent():
                 return lhs
 
-            lhs.ctx.evaluator.add(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _combine(lhs.ctx.evaluator.add, lhs, rhs)
         elif lhs.is_cipher and not rhs.is_cipher:
             # Optimization: Handle transparent ciphertext
             if lhs.data.is_transparent():
@@ -506,13 +552,24 @@ def sub_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
+    # Transparent ciphertexts stand for zero
+    if isinstance(rhs, BFVValue) and rhs.is_cipher and rhs.data.is_transparent():
+        if isinstance(lhs, BFVValue) and lhs.is_cipher:
+            return lhs
+        return add_impl(interpreter, op, rhs, lhs)
+    if isinstance(lhs, BFVValue) and lhs.is_cipher and lhs.data.is_transparent():
+        if not (isinstance(rhs, BFVValue) and rhs.is_cipher):
+            rhs = cast(BFVValue, add_impl(interpreter, op, lhs, rhs))
+        neg_ct = sealapi.Ciphertext()
+        rhs.ctx.evaluator.negate(rhs.data, neg_ct)
+        return BFVValue(neg_ct, rhs.ctx, is_cipher=True)
+
     # Case 1: Both are BFVValues
     if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
         result_ct = sealapi.Ciphertext()
 
         if lhs.is_cipher and rhs.is_cipher:
-            lhs.ctx.evaluator.sub(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _combine(lhs.ctx.evaluator.sub, lhs, rhs)
         elif lhs.is_cipher and not rhs.is_cipher:
             lhs.ctx.evaluator.sub_plain(lhs.data, rhs.data, result_ct)
             return BFVValue(result_ct, lhs.ctx, is_cipher=True)
@@ -555,6 +612,15 @@ def mul_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
+    # Transparent ciphertexts stand for zero
+    for factor in (lhs, rhs):
+        if (
+            isinstance(factor, BFVValue)
+            and factor.is_cipher
+            and factor.data.is_transparent()
+        ):
+            return factor
+
     # Case 1: Both are BFVValues
     if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
         result_ct = sealapi.Ciphertext()
@@ -599,9 +665,7 @@ def mul_impl(
         # Check for zero plaintext to avoid "transparent ciphertext" error
         # Also check if plaintext is BFVValue(Plaintext)
         if isinstance(rhs, TensorValue) and np.all(rhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            lhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _encrypted_zero(lhs.ctx)
 
         try:
             pt = _ensure_plaintext(lhs.ctx, rhs)
@@ -614,17 +678,13 @@ def mul_impl(
             # We catch this error and return a valid zero ciphertext to maintain operator semantics.
             if "transparent" in str(e):
                 # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                lhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+                return _encrypted_zero(lhs.ctx)
             raise e
 
     if isinstance(rhs, BFVValue) and rhs.is_cipher:
         # Check for zero plaintext to avoid "transparent ciphertext" error
         if isinstance(lhs, TensorValue) and np.all(lhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            rhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+            return _encrypted_zero(rhs.ctx)
 
         try:
             pt = _ensure_plaintext(rhs.ctx, lhs)
@@ -635,9 +695,7 @@ def mul_impl(
             # See comment above regarding "transparent ciphertext"
             if "transparent" in str(e):
                 # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                rhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+                return _encrypted_zero(rhs.ctx)
             raise e
 
     # Handle Plaintext * Plaintext (TensorValue * TensorValue)
@@ -661,8 +719,13 @@ def relinearize_impl(
 
     # Check if relinearization is needed (size > 2)
     if ciphertext.data.size() > 2:
-        new_ct = sealapi.Ciphertext()
-        ciphertext.ctx.evaluator.relinearize(ciphertext.data, rk.relin_keys, new_ct)
+
+        def evaluate(data: Any) -> Any:
+            new_ct = sealapi.Ciphertext()
+            ciphertext.ctx.evaluator.relinearize(data, rk.relin_keys, new_ct)
+            return new_ct
+
+        new_ct = _hiding(evaluate, ciphertext.data, ciphertext.ctx, rk)
         return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
 
     return ciphertext
@@ -700,6 +763,10 @@ def rotate_columns_impl(
     gk: BFVPublicContextValue,
 ) -> BFVValue:
     """Swap the two rows in SIMD batching (row 0 <-> row 1)."""
+    # Optimization: Handle transparent ciphertext (zero)
+    if ciphertext.data.is_transparent():
+        return ciphertext
+
     new_ct = sealapi.Ciphertext()
     ciphertext.ctx.evaluator.rotate_columns(ciphertext.data, gk.galois_keys, new_ct)
     return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
-- 
2.43.0


From 81e148a7bd328c8c953476b5547bf1ac8bb153b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:11 +0000
Subject: [PATCH 39/44] fix: execute PHE programs on scalars and elements, and
 decrypt negative sums

---
 mplang/backends/phe_impl.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/mplang/backends/phe_impl.py b/mplang/backends/phe_impl.py
index afe8632..f501602 100644
--- a/mplang/backends/phe_impl.py
+++ b/mplang/backends/phe_impl.py
@@ -22,6 +22,7 @@ from typing import Any, cast
 from lightphe import LightPHE
 from lightphe.models.Ciphertext import Ciphertext
 
+from mplang.backends.tensor_impl import TensorValue
 from mplang.dialects import phe
 from mplang.edsl.graph import Operation
 from mplang.runtime.interpreter import Interpreter
@@ -39,7 +40,10 @@ class PHEContext:
         return self.cs.encrypt(value)
 
     def decrypt(self, ct: Ciphertext) -> int:
-        return cast(int, self.cs.decrypt(ct))
+        value = cast(int, self.cs.decrypt(ct))
+        # Plaintexts are residues; the upper half stands for negative integers
+        modulus = self.cs.cs.plaintext_modulo
+        return value - modulus if value > modulus // 2 else value
 
 
 @dataclass
@@ -74,6 +78,13 @@ class WrappedCiphertext:
         return NotImplemented
 
 
+def _raw(value: Any) -> Any:
+    """The number or object itself: elements and scalars arrive as 0-d tensors."""
+    if isinstance(value, TensorValue) and value.shape == ():
+        return value.unwrap().item()
+    return value
+
+
 @phe.keygen_p.def_impl
 def keygen_impl(
     interpreter: Interpreter, op: Operation, *args: Any
@@ -99,29 +110,29 @@ def create_encoder_impl(
 def encode_impl(
     interpreter: Interpreter, op: Operation, value: float, encoder: PHEEncoder
 ) -> int:
-    return int(value * encoder.scale)
+    return int(_raw(value) * _raw(encoder).scale)
 
 
 @phe.decode_p.def_impl
 def decode_impl(
     interpreter: Interpreter, op: Operation, value: int, encoder: PHEEncoder
 ) -> float:
-    return float(value) / encoder.scale
+    return float(_raw(value)) / _raw(encoder).scale
 
 
 @phe.encrypt_p.def_impl
 def encrypt_impl(
     interpreter: Interpreter, op: Operation, value: int, pk: PHEContext
 ) -> WrappedCiphertext:
-    ct = pk.encrypt(value)
-    return WrappedCiphertext(ct, pk)
+    ctx = _raw(pk)
+    return WrappedCiphertext(ctx.encrypt(_raw(value)), ctx)
 
 
 @phe.decrypt_p.def_impl
 def decrypt_impl(
     interpreter: Interpreter, op: Operation, wct: WrappedCiphertext, sk: PHEContext
 ) -> int:
-    return sk.decrypt(wct.ct)
+    return cast(int, _raw(sk).decrypt(_raw(wct).ct))
 
 
 @phe.add_cc_p.def_impl
@@ -131,18 +142,18 @@ def add_cc_impl(
     lhs: WrappedCiphertext,
     rhs: WrappedCiphertext,
 ) -> WrappedCiphertext:
-    return lhs + rhs
+    return cast(WrappedCiphertext, _raw(lhs) + _raw(rhs))
 
 
 @phe.add_cp_p.def_impl
 def add_cp_impl(
     interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: int
 ) -> WrappedCiphertext:
-    return lhs + rhs
+    return cast(WrappedCiphertext, _raw(lhs) + _raw(rhs))
 
 
 @phe.mul_cp_p.def_impl
 def mul_cp_impl(
     interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: int
 ) -> WrappedCiphertext:
-    return lhs * rhs
+    return cast(WrappedCiphertext, _raw(lhs) * _raw(rhs))
-- 
2.43.0


From 959913cb5ec47da3472996358783cdc9fbe07ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:11 +0000
Subject: [PATCH 40/44] fix: represent the identity point everywhere and refuse
 unknown KEM suites

---
 mplang/backends/crypto_impl.py | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/mplang/backends/crypto_impl.py b/mplang/backends/crypto_impl.py
index 859a80b..e99d7a5 100644
--- a/mplang/backends/crypto_impl.py
+++ b/mplang/backends/crypto_impl.py
@@ -171,6 +171,12 @@ def mul_impl(
     return ECPointValue.from_coincurve(result)
 
 
+def _opposite(k1: coincurve.PublicKey, k2: coincurve.PublicKey) -> bool:
+    """Whether two points add up to infinity, which coincurve cannot express."""
+    b1, b2 = k1.format(compressed=True), k2.format(compressed=True)
+    return b1[1:] == b2[1:] and b1[0] != b2[0]
+
+
 @crypto.add_p.def_impl
 def add_impl(
     interpreter: Interpreter,
@@ -182,7 +188,10 @@ def add_impl(
         return p2
     if p2 is None:
         return p1
-    result = p1.coincurve_key.combine([p2.coincurve_key])
+    k1, k2 = p1.coincurve_key, p2.coincurve_key
+    if _opposite(k1, k2):
+        return None
+    result = k1.combine([k2])
     return ECPointValue.from_coincurve(result)
 
 
@@ -204,7 +213,10 @@ def sub_impl(
     if p1 is None:
         return ECPointValue.from_coincurve(neg_p2)
 
-    result = p1.coincurve_key.combine([neg_p2])
+    k1 = p1.coincurve_key
+    if _opposite(k1, neg_p2):
+        return None
+    result = k1.combine([neg_p2])
     return ECPointValue.from_coincurve(result)
 
 
@@ -256,7 +268,7 @@ def point_to_bytes_impl(
 @crypto.bytes_to_point_p.def_impl
 def bytes_to_point_impl(
     interpreter: Interpreter, op: Operation, b: TensorValue | BytesValue
-) -> ECPointValue:
+) -> ECPointValue | None:
     if isinstance(b, TensorValue):
         raw = b.unwrap().tobytes()
     elif isinstance(b, BytesValue):
@@ -266,6 +278,9 @@ def bytes_to_point_impl(
             f"bytes_to_point expects TensorValue or BytesValue, got {type(b)}"
         )
 
+    # Infinity / Identity is written as zeros, see point_to_bytes_impl
+    if not any(raw):
+        return None
     return ECPointValue(raw)
 
 
@@ -576,13 +591,7 @@ def kem_keygen_impl(
             PublicKeyValue(suite=suite, key_bytes=pk_bytes),
         )
     else:
-        # Fallback to random bytes for unknown suites
-        sk_bytes = os.urandom(32)
-        pk_bytes = os.urandom(32)
-        return (
-            PrivateKeyValue(suite=suite, key_bytes=sk_bytes),
-            PublicKeyValue(suite=suite, key_bytes=pk_bytes),
-        )
+        raise NotImplementedError(f"Unsupported KEM suite: {suite!r}")
 
 
 @crypto.kem_derive_p.def_impl
@@ -607,11 +616,7 @@ def kem_derive_impl(
 
         return SymmetricKeyValue(suite=suite, key_bytes=shared_secret)
     else:
-        # Fallback for unknown suites: XOR the key bytes (not cryptographically secure)
-        sk_bytes = private_key.key_bytes
-        pk_bytes = public_key.key_bytes
-        secret = bytes(a ^ b for a, b in zip(sk_bytes, pk_bytes, strict=True))
-        return SymmetricKeyValue(suite=suite, key_bytes=secret)
+        raise NotImplementedError(f"Unsupported KEM suite: {suite!r}")
 
 
 @crypto.hkdf_p.def_impl
-- 
2.43.0


From cf302e03181bcfbb671db2fbbb6580adf4b13b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:56 +0000
Subject: [PATCH 41/44] fix: reduce the whole product in the native GF(2^128)
 multiplication

The selector 0x10 multiplied the low half of the upper product by the
(zero) high half of Q, so terms of degree 192 and more were dropped.
---
 mplang/kernels/gf128.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/kernels/gf128.cpp b/mplang/kernels/gf128.cpp
index f4c7bb2..4692b84 100644
--- a/mplang/kernels/gf128.cpp
+++ b/mplang/kernels/gf128.cpp
@@ -118,7 +118,7 @@ extern "C" {
         __m128i r1_lo = r1;
 
         __m128i m0 = _mm_clmulepi64_si128(r1, Q, 0x00); // r1_lo * Q
-        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x10); // r1_hi * Q
+        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x01); // r1_hi * Q
 
         __m128i m1_shifted = _mm_slli_si128(m1, 8);
         __m128i M_lo = _mm_xor_si128(m0, m1_shifted);
-- 
2.43.0


From 5478b50e609a9442cd5e6b81cd35623b81447334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:56 +0000
Subject: [PATCH 42/44] fix: separate OPRF inputs that differ in few bits

With the input itself as the code, inputs that differ in one bit had equal
outputs half of the time; use a pseudorandom code as KKRT does.
---
 mplang/libs/mpc/psi/oprf.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mplang/libs/mpc/psi/oprf.py b/mplang/libs/mpc/psi/oprf.py
index 45791e7..d882a86 100644
--- a/mplang/libs/mpc/psi/oprf.py
+++ b/mplang/libs/mpc/psi/oprf.py
@@ -29,6 +29,12 @@ from mplang.dialects import simp, tensor
 from mplang.libs.mpc.ot import extension as ot_extension
 
 
+def _hash_inputs(inputs: el.Object, num_items: int) -> el.Object:
+    """Hash (N, 16) byte inputs to the (N, 16) bytes of their codes."""
+    hashed = ot_extension.vec_hash(inputs, domain_sep=0x0C0D, num_rows=num_items)
+    return tensor.slice_tensor(hashed, (0, 0), (num_items, 16))
+
+
 def eval_oprf(
     receiver_inputs: el.Object,  # (N, 16) bytes
     sender: int,
@@ -89,14 +95,16 @@ def eval_oprf(
     # Step 1: Encode receiver's inputs to choice bits for IKNP
     # ═════════════════════════════════════════════════════════════════════════
     # For each input x_i, we need K choice bits for IKNP OT Extension.
-    # We use a deterministic encoding: unpack bytes to bits.
+    # We use a pseudorandom code: different inputs must differ in many bits, as
+    # each differing bit only separates their outputs with probability 1/2.
 
     def encode_inputs(inputs: el.Object) -> el.Object:
         """Encode (N, 16) byte inputs to (N, K) bit codes.
 
-        Each 16-byte input is unpacked to 128 bits.
+        Each 16-byte input is hashed to 128 bits.
         These bits serve as the receiver's OT choices.
         """
+        hashed = _hash_inputs(inputs, num_items)
 
         def _encode(x: Any) -> Any:
             # x: (N, 16) uint8 array
@@ -105,7 +113,7 @@ def eval_oprf(
             # Ensure exactly K bits
             return unpacked[:, :K].astype(jnp.uint8)  # (N, K)
 
-        return cast(el.Object, tensor.run_jax(_encode, inputs))
+        return cast(el.Object, tensor.run_jax(_encode, hashed))
 
     choice_codes = simp.pcall_static((receiver,), encode_inputs, receiver_inputs)
     # choice_codes: (N, K) bit matrix on receiver
@@ -250,7 +258,9 @@ def sender_eval_prf_batch(
 
             return packed
 
-        raw_outputs = cast(el.Object, tensor.run_jax(_eval, key, items))
+        raw_outputs = cast(
+            el.Object, tensor.run_jax(_eval, key, _hash_inputs(items, num_items))
+        )
 
         return ot_extension.vec_hash(raw_outputs, domain_sep=0x0CDF, num_rows=num_items)
 
-- 
2.43.0


From 3022b3bce6ae1a14e0660e63f3d19b20a497a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 43/44] fix: hash OKVS keys to three independent positions

The third position was the sum of the first two, so two keys met in all
three far too often and encoding failed: 0.4% of runs with ten items, up
to 8% with a thousand.
---
 mplang/kernels/okvs.cpp      | 4 +++-
 mplang/kernels/py_kernels.py | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mplang/kernels/okvs.cpp b/mplang/kernels/okvs.cpp
index 185d2e1..24cb163 100644
--- a/mplang/kernels/okvs.cpp
+++ b/mplang/kernels/okvs.cpp
@@ -41,7 +41,9 @@ extern "C" {
         Indices idx;
         idx.h1 = v1 % m;
         idx.h2 = v2 % m;
-        idx.h3 = (v1 ^ v2) % m;
+        // An index of its own: v1 ^ v2 would be determined by the others
+        // (completely, if m is a power of two), and peeling would often fail.
+        idx.h3 = (uint64_t)_mm_extract_epi64(_mm_aesenc_si128(h, seed), 0) % m;
 
         // Enforce distinct indices
         if(idx.h2 == idx.h1) {
diff --git a/mplang/kernels/py_kernels.py b/mplang/kernels/py_kernels.py
index aa9ade6..05d5745 100644
--- a/mplang/kernels/py_kernels.py
+++ b/mplang/kernels/py_kernels.py
@@ -200,9 +200,15 @@ def _hash_key_py(key: int, m: int, seed: tuple[int, int]) -> tuple[int, int, int
     h1 = ((h1 ^ (h1 >> 33)) * SPLITMIX64_GAMMA_3) & ((1 << 64) - 1)
     h2 = ((h2 ^ (h2 >> 33)) * SPLITMIX64_GAMMA_4) & ((1 << 64) - 1)
 
+    # An index of its own: h1 ^ h2 would be determined by the others (completely,
+    # if m is a power of two), and peeling would often fail.
+    h3 = ((h1 + h2) * GOLDEN_RATIO_64) & ((1 << 64) - 1)
+    h3 = ((h3 ^ (h3 >> 33)) * SPLITMIX64_GAMMA_2) & ((1 << 64) - 1)
+    h3 ^= h3 >> 29
+
     idx1 = h1 % m
     idx2 = h2 % m
-    idx3 = (h1 ^ h2) % m
+    idx3 = h3 % m
 
     # Enforce distinct indices
     if idx2 == idx1:
-- 
2.43.0


From a3cd304c9f778b444bc94cd6a2f0b3b0b7174741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 44/44] fix: report OKVS encodings that the native kernel could
 not solve

It prints a message and returns zeros; intersections then silently missed
items, where the Python kernel raises.
---
 mplang/backends/field_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index a73c8e6..c2c78c2 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -241,6 +241,9 @@ def _okvs_solve_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    # The kernel leaves all zeros if it cannot encode (see py_kernels.okvs_solve)
+    if values_c.any() and not output.any():
+        raise RuntimeError(f"OKVS: failed to peel all rows. n={n}, m={m}")
     return output
 
 
-- 
2.43.0

