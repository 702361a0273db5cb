From acdb7809f8dfbfb120578208ef6ef1ac0460765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 001/187] fix: reverse keeps its buffer per execution, not per
 operator object

---
 marcel/op/reverse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 11b8893..95f41c9 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -38,10 +38,13 @@ class Reverse(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
-        self.contents = []
+        self.contents = None
 
     # AbstractOp
 
+    def setup(self, env):
+        self.contents = []
+
     def receive(self, env, x):
         self.contents.append(x)
 
-- 
2.43.0


From 5df88e418791e06e3c12b561ccc988a1c75dca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 002/187] fix: window --overlap emits its last windows once,
 and propagates flush on empty input

---
 marcel/op/window.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 090d8b5..9e4656c 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -237,7 +237,9 @@ class OverlapWindow(WindowBase):
                 self.window = self.window[1:]
                 self.window.append(OverlapWindow.PADDING)
                 self.send_window(env)
-            self.op.propagate_flush(env)
+            # A second flush must be a noop.
+            self.window = []
+        self.op.propagate_flush(env)
 
 
 class DisjointWindow(WindowBase):
-- 
2.43.0


From 77cc5a74b222454954e19c213b905c64882a5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 003/187] fix: window --overlap emits one window per input when
 there are fewer inputs than the window size

---
 marcel/op/window.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 9e4656c..1cb3ad5 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -229,11 +229,14 @@ class OverlapWindow(WindowBase):
 
     def flush(self, env):
         if len(self.window) > 0:
+            # Each input starts one window. The first of the inputs still in the window started one already,
+            # unless the window was never full.
+            n_inputs = len(self.window)
             if len(self.window) < self.op.n:
                 while len(self.window) < self.op.n:
                     self.window.append(OverlapWindow.PADDING)
                 self.send_window(env)
-            for i in range(self.op.n - 1):
+            for i in range(n_inputs - 1):
                 self.window = self.window[1:]
                 self.window.append(OverlapWindow.PADDING)
                 self.send_window(env)
-- 
2.43.0


From 73046d20d0f81ce0e9ea081f637045f23a6538dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 004/187] fix: unique converts lists to tuples before looking
 for duplicates, as intended

---
 marcel/op/unique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/unique.py b/marcel/op/unique.py
index b1e4579..004b8b5 100644
--- a/marcel/op/unique.py
+++ b/marcel/op/unique.py
@@ -80,7 +80,7 @@ class GeneralUniquer(Uniquer):
         self.unique = set()
 
     def receive(self, env, x):
-        x = marcel.util.wrap_op_input(x)  # convert list to tuple
+        x = tuple(x)  # convert list to tuple
         try:
             if x not in self.unique:
                 self.unique.add(x)
-- 
2.43.0


From 1615e7b5d6a7227ebe9419d0e9ee2e7ec44aa09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 005/187] fix: expand rejects a negative position instead of
 failing an assertion

---
 marcel/op/expand.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/expand.py b/marcel/op/expand.py
index d8d1aaf..f4abe49 100644
--- a/marcel/op/expand.py
+++ b/marcel/op/expand.py
@@ -15,6 +15,7 @@
 
 import marcel.argsparser
 import marcel.core
+import marcel.exception
 import marcel.util
 
 
@@ -96,6 +97,8 @@ class Expand(marcel.core.Op):
 
     def setup(self, env):
         self.position = self.eval_function(env, 'position_arg', int)
+        if self.position is not None and self.position < 0:
+            raise marcel.exception.KillCommandException('Argument to expand must not be negative.')
         self.expander = SequenceExpander(self) if self.position is None else ComponentExpander(self)
 
     def receive(self, env, x):
-- 
2.43.0


From c202b5a7debcd5519f7a1875a366d2b823b500df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 006/187] fix: red --incremental accepts list-valued inputs

---
 marcel/op/red.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 37b666a..2a8464d 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -207,7 +207,7 @@ class NonGroupingReducer(Reducer):
             assert x is not None
             accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(accumulator))
+            op.send(env, tuple(x) + tuple(accumulator))
 
     def flush(self, env):
         op = self.op
@@ -238,7 +238,7 @@ class GroupingReducer(Reducer):
             reducer = op.functions[i]
             accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + tuple(self.data(accumulator)))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From bf9edd813b4d24e13b3f2df406f9bcbb727f396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 007/187] fix: red ignores an input completely when one of the
 functions fails on it

---
 marcel/op/red.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 2a8464d..66b887c 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -201,11 +201,14 @@ class NonGroupingReducer(Reducer):
             op.fatal_error(env, x, 'Input too short.')
         accumulator = self.accumulator
         functions = op.functions
+        # A function may fail on x, so don't modify self.accumulator until all the functions have been called.
+        updated = []
         for i in range(self.n):
             assert functions is not None
             assert accumulator is not None
             assert x is not None
-            accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
+            updated.append(op.call(env, functions[i], accumulator[i], x[i]))
+        self.accumulator = accumulator = updated
         if op.incremental:
             op.send(env, tuple(x) + tuple(accumulator))
 
@@ -233,10 +236,12 @@ class GroupingReducer(Reducer):
         accumulator = self.accumulators.get(group, None)
         if accumulator is None:
             accumulator = [None] * self.n
-            self.accumulators[group] = accumulator
+        # A function may fail on x, so don't modify self.accumulators until all the functions have been called.
+        updated = []
         for i in range(self.n):
             reducer = op.functions[i]
-            accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
+            updated.append(x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i]))
+        self.accumulators[group] = accumulator = updated
         if op.incremental:
             op.send(env, tuple(x) + tuple(self.data(accumulator)))
 
-- 
2.43.0


From 3402c1aa350d4a4b51f70874f153274cd052f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 008/187] fix: union runs its pipelines once, even if flushed
 more than once

---
 marcel/op/union.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 5a3dc2d..b314bb6 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -56,6 +56,7 @@ class Union(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipelines = None
+        self.flushed = None
 
     def __repr__(self):
         return 'union()'
@@ -63,6 +64,7 @@ class Union(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        self.flushed = False
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
 
@@ -72,8 +74,11 @@ class Union(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        for pipeline in self.pipelines:
-            pipeline.run_pipeline(env, {})
+        # A second flush must not run the pipelines again.
+        if not self.flushed:
+            self.flushed = True
+            for pipeline in self.pipelines:
+                pipeline.run_pipeline(env, {})
         self.propagate_flush(env)
 
     def ensure_functions_compiled(self, env):
-- 
2.43.0


From 568806c1d31e002b31db70ba18155364c8b12e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 009/187] fix: filter --compare matches a key of None

---
 marcel/op/filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1cc3491..868e093 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -116,7 +116,9 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.compare(*x))
+        c = self.compare(*x)
+        # Wrap as the right tuples are wrapped, (so a key of None can match).
+        c = c if type(c) in (tuple, list) else (c,)
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From 6647c17e4e22331a0b67b1e1d03e2d25a931c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 010/187] fix: filter turns a failure of the --compare function
 into an error for that input

---
 marcel/op/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 868e093..ba22dbf 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -116,7 +116,7 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = self.compare(*x)
+        c = self.call(env, self.compare, *x)
         # Wrap as the right tuples are wrapped, (so a key of None can match).
         c = c if type(c) in (tuple, list) else (c,)
         try:
-- 
2.43.0


From 5404c8dea00859917bf09258ea72cae8ab414ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 011/187] fix: composing API pipelines with | does not modify
 the left operand

---
 marcel/pipeline.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..a241536 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -149,17 +149,13 @@ class OpList(object):
         self.ops = None
 
     def __or__(self, other):
-        if self.ops is None:
-            # self must be the first op of a pipelines
-            self.ops = [self.op]
-            self.op = None
-        # Append ops from other. There could be one or more than one
+        # Either operand could be one op, or a list of them. The operands must not be modified, as
+        # they may be used in other pipelines.
         assert (other.op is None) != (other.ops is None)
-        if other.op:
-            self.ops.append(other.op)
-        else:
-            self.ops.extend(other.ops)
-        return self
+        composed = OpList(self.env, None)
+        composed.ops = (([self.op] if self.ops is None else self.ops) +
+                        ([other.op] if other.ops is None else other.ops))
+        return composed
 
     def __iter__(self):
         return PipelineIterator(self.env, PipelineOpList(self))
-- 
2.43.0


From 3e4b60c272a3b0a9de8284b1b4ec23ee2f29c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 012/187] fix: each use of an API pipeline gets its own copies
 of the ops

---
 marcel/core.py     | 3 ++-
 marcel/pipeline.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..80dac0c 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -128,7 +128,8 @@ class Op(AbstractOp):
         pass
 
     def copy(self):
-        copy = self.__class__()
+        # Not calling __init__ because it may have arguments.
+        copy = self.__class__.__new__(self.__class__)
         copy.__dict__.update(self.__dict__)
         return copy
 
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index a241536..f86d148 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -164,12 +164,14 @@ class OpList(object):
         assert args is None
         assert not (self.op is not None and self.ops is not None)
         # self.op and ops could both be None. E.g., this happens with upload, which starts with an empty pipeline.
+        # The ops are copied because there may be other uses of this OpList, even in the same command, and execution
+        # state (including Op.receiver) is kept in the ops.
         pipeline = PipelineExecutable()
         if self.op is not None:
-            pipeline.append(self.op)
+            pipeline.append(self.op.copy())
         elif self.ops is not None:
             for op in self.ops:
-                pipeline.append(op)
+                pipeline.append(op.copy())
         return pipeline
 
 
-- 
2.43.0


From c79f64a829b9c305fc5d49d6a24637be9e14e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 013/187] fix: ops with pipeline args keep no state from one
 execution to the next

---
 marcel/op/args.py       |  7 ++++---
 marcel/op/difference.py |  5 +++--
 marcel/op/filter.py     |  5 ++---
 marcel/op/intersect.py  |  6 ++++--
 marcel/op/join.py       |  5 +++--
 marcel/op/union.py      |  5 +++--
 marcel/pipeline.py      | 22 +++++++++-------------
 7 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 5a98ab6..0c95c62 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -66,6 +66,7 @@ class Args(marcel.core.Op):
         super().__init__()
         self.all = None
         self.pipeline = None
+        self.redirected_pipeline = None  # self.pipeline, customized to send its output downstream
         self.n_params = None
         self.args = None
 
@@ -84,7 +85,7 @@ class Args(marcel.core.Op):
         self.args.append(unwrap_op_output(x))
         if not self.all and len(self.args) == self.n_params:
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.redirected_pipeline.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
 
@@ -96,7 +97,7 @@ class Args(marcel.core.Op):
                 while len(self.args) < self.n_params:
                     self.args.append(None)
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.redirected_pipeline.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
                 # Need to ensure that flush is propagated no matter what happens
@@ -120,7 +121,7 @@ class Args(marcel.core.Op):
             raise marcel.exception.KillCommandException(error)
 
     def customize_pipelines(self, env):
-        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        self.redirected_pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index af966ee..2fc1c50 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -67,6 +67,7 @@ class Difference(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.load_pipeline = None  # self.pipeline, customized to load self.right
         self.right = None
         self.first = None
 
@@ -80,7 +81,7 @@ class Difference(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.load_pipeline.run_pipeline(env, {})
             self.first = False
         try:
             count = self.right.get(x, None)
@@ -103,7 +104,7 @@ class Difference(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.right = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        self.load_pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index ba22dbf..0654887 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -138,6 +138,5 @@ class Filter(marcel.core.Op):
             except TypeError:
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
-        self.pipeline.setup(env)
-        self.pipeline.run_pipeline(env, {})
+        load_pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        load_pipeline.run_pipeline(env, {})
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 24b529e..012f73a 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -61,11 +61,13 @@ class Intersect(marcel.core.Op):
         self.common = None  # item -> count: Accumulated intersection
         self.input = None   # item -> count: From one of the pipelines args
         self.pipelines = None
+        self.count_pipelines = None  # self.pipelines, customized to count their outputs in self.input
 
     def __repr__(self):
         return f'intersect({self.pipelines})'
 
     def setup(self, env):
+        self.common = None
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
 
@@ -97,12 +99,12 @@ class Intersect(marcel.core.Op):
         for pipeline in self.pipelines:
             pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
             customized.append(pipeline)
-        self.pipelines = customized
+        self.count_pipelines = customized
 
     def ensure_args_consumed(self, env):
         if self.common is None:
             # Compute the intersection of all the pipeline args
-            for pipeline in self.pipelines:
+            for pipeline in self.count_pipelines:
                 self.input = {}
                 pipeline.run_pipeline(env, {})  # Populates self.input
                 if self.common is None:
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 09cae51..06f7b80 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -92,6 +92,7 @@ class Join(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.load_pipeline = None  # self.pipeline, customized to load self.inner
         self.keep = None
         self.inner = None  # Map containing contents of pipelines, keyed by join value
         self.first = None
@@ -107,7 +108,7 @@ class Join(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.load_pipeline.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
         join_value = x[0]
@@ -147,4 +148,4 @@ class Join(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.inner = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        self.load_pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
diff --git a/marcel/op/union.py b/marcel/op/union.py
index b314bb6..9074c00 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -56,6 +56,7 @@ class Union(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipelines = None
+        self.routed_pipelines = None  # self.pipelines, customized to send their output to self.receiver
         self.flushed = None
 
     def __repr__(self):
@@ -77,7 +78,7 @@ class Union(marcel.core.Op):
         # A second flush must not run the pipelines again.
         if not self.flushed:
             self.flushed = True
-            for pipeline in self.pipelines:
+            for pipeline in self.routed_pipelines:
                 pipeline.run_pipeline(env, {})
         self.propagate_flush(env)
 
@@ -99,7 +100,7 @@ class Union(marcel.core.Op):
             pipeline = pipeline.append_immutable(PropagateFlushFromLast(last))
             pipeline.route_output(self.receiver)
             customized.append(pipeline)
-        self.pipelines = customized
+        self.routed_pipelines = customized
 
 
 class PropagateFlushFromLast(marcel.core.Op):
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index f86d148..8632e65 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -99,21 +99,18 @@ class PipelineExecutable(object):
         copy.params = self.params
         copy.source = self.source
         for op in self.ops:
-            copy.append(op.copy())
+            # Not op.copy(): ws has a field named copy.
+            copy.append(marcel.core.Op.copy(op))
         return copy
 
     def append(self, op):
         self.ops.append(op)
 
     def append_immutable(self, op):
-        copy = PipelineExecutable()
-        copy.params = self.params
-        copy.source = self.source
-        copy.ops = self.ops.copy()
-        if len(copy.ops) > 0:
-            current_last_op = copy.ops[-1]
-            current_last_op.receiver = op
-        copy.ops.append(op)
+        # The copy must not share ops with this pipeline, because execution state (including Op.receiver) is kept in
+        # the ops.
+        copy = self.copy()
+        copy.append(op)
         return copy
 
     def ensure_functions_compiled(self, env):
@@ -475,10 +472,9 @@ class PipelineFunction(Pipeline):
             self.executable.append(op)
 
     def append_immutable(self, op):
-        self.customizations.ops.append(op)
-        if self.executable:
-            self.executable = self.executable.append_immutable(op)
-        return self
+        copy = self.copy()
+        copy.customizations.ops.append(op)
+        return copy
 
     def route_output(self, receiver):
         self.customizations.receiver = receiver
-- 
2.43.0


From db7eb35eaacd9eb72b8340b6f93e4719f0d01bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 014/187] fix: case sets up its pipelines for each execution,
 from the API too, and compiles their functions

---
 marcel/op/case.py  | 49 +++++++++++++++++++++-------------------------
 marcel/pipeline.py |  3 ++-
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 50ac6ec..18081c5 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -82,7 +82,6 @@ class Case(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.branches = None
-        self.pipelines = None
         self.default_pipeline = None
         self.args = None
 
@@ -92,7 +91,22 @@ class Case(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        self.ensure_args_processed(env)
+        def customized(pipeline):
+            # The redirect has to be in place before setup. append_immutable copies, so that the pipeline
+            # keeps no state from earlier executions.
+            pipeline = pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+            try:
+                pipeline.setup(env)
+            except marcel.exception.KillAndResumeException as e:
+                # KARE is fatal during setup.
+                raise marcel.exception.KillCommandException(str(e))
+            return pipeline
+
+        self.ensure_args_processed()
+        for branch in self.branches:
+            branch.pipeline = customized(branch.pipeline)
+        if self.default_pipeline:
+            self.default_pipeline = customized(self.default_pipeline)
 
     def receive(self, env, x):
         pipeline = self.default_pipeline
@@ -118,31 +132,21 @@ class Case(marcel.core.Op):
             self.default_pipeline.cleanup()
 
     def ensure_functions_compiled(self, env):
-        self.ensure_args_processed(env)
+        self.ensure_args_processed()
         for branch in self.branches:
             self.ensure_function_compiled(branch.predicate, env)
-        for pipeline in self.pipelines:
-            pipeline.ensure_functions_compiled(env)
+            branch.pipeline.ensure_functions_compiled(env)
         if self.default_pipeline:
             self.default_pipeline.ensure_functions_compiled(env)
 
     # Internal
 
-    def ensure_args_processed(self, env):
+    def ensure_args_processed(self):
         def pipeline(pipeline):
-            # PyCharm sees a syntax error (on references to marcel.pipeline.Pipeline and
-            # marcel.exception) without these?!
-            import marcel.pipeline
-            import marcel.exception
-            try:
-                if not isinstance(pipeline, marcel.pipeline.Pipeline):
-                    raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
-                pipeline.setup(env)
-                return pipeline
-            except Exception as e:
-                raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
+            if not isinstance(pipeline, marcel.pipeline.Pipeline):
+                raise marcel.exception.KillCommandException(f'Expected pipeline, found {pipeline}')
+            return pipeline
 
-        self.pipelines = []
         if len(self.args) < 2:
             raise marcel.exception.KillCommandException('case requires at least 2 arguments')
         # Functions and args alternate. For the API, pipelines can show up as functions, so testing to distinguish
@@ -161,12 +165,3 @@ class Case(marcel.core.Op):
                 predicate = None
         if len(self.args) & 1 == 1:
             self.default_pipeline = pipeline(self.args[-1])
-
-    def customize_pipelines(self, env):
-        def redirect():
-            return marcel.op.redirect.Redirect(self)
-
-        if self.default_pipeline:
-            self.default_pipeline = self.default_pipeline.append_immutable(redirect())
-        for branch in self.branches:
-            branch.pipeline = branch.pipeline.append_immutable(redirect())
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 8632e65..424d4c7 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -370,7 +370,8 @@ class PipelineOpList(Pipeline):
     # Pipeline - execution
 
     def setup(self, env):
-        pass
+        # For a pipeline that receives input from its containing op (case). run_pipeline does its own setup.
+        self.executable.setup(env)
 
     def run_pipeline(self, env, bindings):
         try:
-- 
2.43.0


From b6671024a6cc2f4c8fc8d553d696114d38fac571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 015/187] fix: pos() starts from 0 in every execution of a
 pipeline

---
 marcel/core.py     | 3 +++
 marcel/pipeline.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index 80dac0c..4405ba9 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -106,6 +106,9 @@ class Op(AbstractOp):
     def pos(self):
         return self._count
 
+    def reset_pos(self):
+        self._count = -1
+
     def run(self, env):
         if self.must_not_be_first_in_pipeline():
             raise marcel.exception.KillCommandException(f'{self.op_name()} cannot be the first operator in a pipeline')
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 424d4c7..76a76fe 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -59,6 +59,7 @@ class PipelineExecutable(object):
         for op in self.ops:
             if env.trace.is_enabled():
                 env.trace.write(op, 'SETUP')
+            op.reset_pos()
             op.setup(env)
         for op in self.ops:
             op.customize_pipelines(env)
-- 
2.43.0


From 6f733fdb3c7c8f41970c3efb4a5d074c731418d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 016/187] fix: a variable hidden by a pipeline param reappears
 when the pipeline ends

---
 marcel/nestednamespace.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f82318..b83b3ea 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -307,6 +307,7 @@ class Scope(dict):
         super().__init__()
         self.parent = parent
         self.params = [] if params is None else params
+        self.hidden = {}
         self.env = env
         if parent is None:
             # Must be topmost scope
@@ -412,25 +413,24 @@ class NestedNamespace(dict):
 
     def push_scope(self, bindings):
         assert self.env
-        self.scopes.append(Scope(self.env, self.current_scope(), bindings))
+        scope = Scope(self.env, self.current_scope(), bindings)
+        self.scopes.append(scope)
         if bindings:
+            # A param hides any variable with the same name. pop_scope() reveals it.
+            scope.hidden = {var: self[var] for var in bindings if var in self}
             for var, value in bindings.items():
                 self[var] = value
 
     def pop_scope(self):
         assert len(self.scopes) > 0
-        # There are other ways to restore the namespace resulting from exiting the current scope.
-        # This is simplest and not obviously too slow:
         # - Remove (var, value) entries for vars in the scope being popped.
-        # - Insert (var, value) entries for remaining scopes, outermost first.
+        # - Restore the variables hidden by these vars. Such a variable may be a param of an outer scope, be in the
+        #   topmost scope, or be permanent (and then not be in any scope).
         popped_scope = self.scopes.pop()
         for var in popped_scope.keys():
             super().__delitem__(var)
-        # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
-        # known and EnvValue cache is unset.
-        for scope in self.scopes[1:]:
-            for var, value in scope.items():
-                super().__setitem__(var, value.unwrap())
+        for var, value in popped_scope.hidden.items():
+            super().__setitem__(var, value)
 
     def current_scope(self):
         return self.scopes[-1]
-- 
2.43.0


From 9885457cd910cddeb0543472150175486e863a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 017/187] fix: each name in marcel.builtin has its own value in
 the initial namespace

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..d4f77ed 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -155,7 +155,7 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From de512827a5cfb138daecf5116dc4b40fa70a8c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 018/187] fix: HOST and ITALIC are immutable (missing comma)

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index d4f77ed..4eb4c30 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -90,7 +90,7 @@ class Environment(object):
                                            'Color',
                                            'DIRS',
                                            'HOME',
-                                           'HOST'
+                                           'HOST',
                                            'ITALIC',
                                            'MARCEL_VERSION',
                                            'pos',
-- 
2.43.0


From 1a0ed1ff9d9c2a9faec7901e1bb6c78efc47089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 019/187] fix: first() stops after the first output, and raises
 the error if that is an Error

---
 marcel/op/apiop.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index b3e3d8d..fe179be 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -36,10 +36,9 @@ class APIOp(marcel.core.Op):
             x = x[0]
         self.output.append(x)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+            raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
+        self.output.append(error)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
-        else:
-            self.output.append(error)
+            raise marcel.exception.StopAfterFirst()
-- 
2.43.0


From 280326ca6d7cdfafb6cd8ba9e3d3ba3f49b3286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 020/187] fix: local variables of a function defining an API
 pipeline are not pipeline parameters

---
 marcel/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 76a76fe..644a2ea 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -441,7 +441,8 @@ class PipelineFunction(Pipeline):
         pass
 
     def parameters(self):
-        return self.function.__code__.co_varnames
+        code = self.function.__code__
+        return code.co_varnames[:code.co_argcount]
 
     def run_pipeline(self, env, bindings):
         self.create_executable(env, bindings)
-- 
2.43.0


From e9b7f0bc395b5a1e72136c19e8b31093dd30bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 021/187] fix: intersect without pipelines is rejected

---
 marcel/op/intersect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 012f73a..12d42fd 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -68,6 +68,8 @@ class Intersect(marcel.core.Op):
 
     def setup(self, env):
         self.common = None
+        if len(self.pipelines) == 0:
+            raise marcel.exception.KillCommandException('intersect: At least one pipeline must be provided.')
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
 
-- 
2.43.0


From 578054bce47353b8ff8a8238c76c7e26306cfe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 022/187] fix: a pipeline can be passed as an argument to a
 pipeline

---
 marcel/nestednamespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index b83b3ea..cd66453 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -123,7 +123,7 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            ev.assign(value, source)
+            ev.assign(value, value.source if source is None else source)
         else:
             ev = Simple(env)
             ev.assign(value)
-- 
2.43.0


From e74f6ce650d0c4b878aebd3fac4406353303ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 023/187] fix: a pipeline literal can be passed as an argument
 to a pipeline

---
 marcel/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index f9c0ce5..6eec2a5 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1302,9 +1302,7 @@ class Parser(object):
             if len(arg_tokens) > 0:
                 pipeline_args = []
                 for token in arg_tokens:
-                    pipeline_args.append(token
-                                         if type(token) is marcel.pipeline.PipelineExecutable else
-                                         token.value())
+                    pipeline_args.append(token.value() if isinstance(token, Token) else token)
                 args, kwargs = marcel.argsparser.PipelineArgsParser(var).parse_pipeline_args(pipeline_args)
                 op.set_pipeline_args(args, kwargs)
             return op
-- 
2.43.0


From 44ce585dfeda7cb27d7d0260b80a84d733056e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 024/187] fix: an unknown parameter name in the invocation of a
 pipeline is rejected

---
 marcel/op/runpipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 0de9303..b475b78 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -115,6 +115,10 @@ class RunPipeline(marcel.core.Op):
             bindings[params[i]] = self.args[i]
         # Set named args
         if self.kwargs is not None:
+            unknown = [name for name in self.kwargs if name not in params]
+            if len(unknown) > 0:
+                raise marcel.exception.KillCommandException(
+                    f'{self.var} has no parameter named {", ".join(unknown)}')
             already_set = set(bindings.keys()).intersection(self.kwargs.keys())
             if len(already_set) > 0:
                 raise marcel.exception.KillCommandException(
-- 
2.43.0


From e4f73012935b779153e6d9bc5c19e826c565567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 025/187] fix: join turns an empty input tuple into an error

---
 marcel/op/join.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/join.py b/marcel/op/join.py
index 06f7b80..8aae6b0 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -111,6 +111,8 @@ class Join(marcel.core.Op):
             self.load_pipeline.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
+        if len(x) == 0:
+            self.fatal_error(env, x, 'Input has no first element to join on.')
         join_value = x[0]
         try:
             match = self.inner.get(join_value, None)
-- 
2.43.0


From 7a1d25523d08838c53d696a2cae9fa79e5871aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 026/187] fix: red turns an input whose group is not hashable
 into an error

---
 marcel/op/red.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 66b887c..b0374c1 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -233,7 +233,10 @@ class GroupingReducer(Reducer):
         if len(x) < self.n:
             op.fatal_error(env, x, 'Input too short.')
         group = tuple(self.group(x))
-        accumulator = self.accumulators.get(group, None)
+        try:
+            accumulator = self.accumulators.get(group, None)
+        except TypeError:
+            op.fatal_error(env, x, f'{group} is not hashable')
         if accumulator is None:
             accumulator = [None] * self.n
         # A function may fail on x, so don't modify self.accumulators until all the functions have been called.
-- 
2.43.0


From 1e2a6492af004d8bf8eaf2315c20dd9e1abc05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 027/187] fix: whitespace at the beginning of a function is
 ignored

---
 marcel/function_args_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 718e8a9..c817c1b 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -58,7 +58,8 @@ class FunctionArgsParser(object):
         self.explicit_lambda = False
         self.explicit_colon = False
         self.has_args = False
-        self.input = io.BytesIO(source.encode('utf-8')).readline
+        # Leading whitespace would be tokenized as an indent.
+        self.input = io.BytesIO(source.lstrip().encode('utf-8')).readline
         self.transitions = {
             (State.START, Symbol.LAMBDA): self.start_lambda,
             (State.START, Symbol.STAR): self.start_star,
-- 
2.43.0


From a3f4636bac2c925e51c1b1efb111026939277eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 028/187] fix: first() stops if its first output is an error

---
 marcel/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 4405ba9..1f50cf0 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -146,11 +146,13 @@ class Op(AbstractOp):
         error = self.error(input=input, message=message)
         try:
             self.send_error(env, error)
+        except marcel.exception.StopAfterFirst:
+            # first() has its output, which is this error.
+            raise
         except:
             # If the error occurred during setup, then send_error can't work
             pass
-        finally:
-            raise marcel.exception.KillAndResumeException(message)
+        raise marcel.exception.KillAndResumeException(message)
 
     def must_be_first_in_pipeline(self):
         return False
-- 
2.43.0


From 98b415d6a65bb3c560be0bf7260986f94ff69e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 029/187] fix: reverse can be shown in error messages and
 traces

---
 marcel/op/reverse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 95f41c9..927ae02 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -40,6 +40,9 @@ class Reverse(marcel.core.Op):
         super().__init__()
         self.contents = None
 
+    def __repr__(self):
+        return 'reverse()'
+
     # AbstractOp
 
     def setup(self, env):
-- 
2.43.0


From 2c80e17038092ce9b2cae0bfd1208878738dadfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 030/187] fix: red --incremental emits the current contents of
 a list accumulated by concat

---
 marcel/op/red.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index b0374c1..3523e01 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -184,6 +184,11 @@ class Reducer:
     def flush(self, env):
         assert False
 
+    # concat accumulates in a list, which will be modified by later inputs.
+    @staticmethod
+    def snapshot(accumulated):
+        return list(accumulated) if type(accumulated) is list else accumulated
+
 
 class NonGroupingReducer(Reducer):
 
@@ -210,7 +215,7 @@ class NonGroupingReducer(Reducer):
             updated.append(op.call(env, functions[i], accumulator[i], x[i]))
         self.accumulator = accumulator = updated
         if op.incremental:
-            op.send(env, tuple(x) + tuple(accumulator))
+            op.send(env, tuple(x) + tuple([Reducer.snapshot(a) for a in accumulator]))
 
     def flush(self, env):
         op = self.op
@@ -246,7 +251,7 @@ class GroupingReducer(Reducer):
             updated.append(x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i]))
         self.accumulators[group] = accumulator = updated
         if op.incremental:
-            op.send(env, tuple(x) + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + tuple([Reducer.snapshot(a) for a in self.data(accumulator)]))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From f55b8db40a521e4520528916ad00cb49e32873a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 031/187] fix: concat ignores an input on which another
 function of red fails

---
 marcel/function.py |  3 +++
 marcel/op/red.py   | 14 ++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/marcel/function.py b/marcel/function.py
index a6dc400..f8c3f01 100644
--- a/marcel/function.py
+++ b/marcel/function.py
@@ -44,6 +44,9 @@ class Function(object):
     def is_count(self):
         return self.function is marcel.reduction.r_count
 
+    def is_concat(self):
+        return self.function is marcel.reduction.r_concat
+
 
 class NativeFunction(Function):
 
diff --git a/marcel/op/red.py b/marcel/op/red.py
index 3523e01..22279cc 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -177,6 +177,8 @@ class Reducer:
     def __init__(self, op):
         self.op = op
         self.n = len(self.op.functions)
+        # concat modifies its accumulator, so call it after the functions that may fail.
+        self.call_order = sorted(range(self.n), key=lambda i: self.op.functions[i].is_concat())
 
     def receive(self, env, x):
         assert False
@@ -207,12 +209,12 @@ class NonGroupingReducer(Reducer):
         accumulator = self.accumulator
         functions = op.functions
         # A function may fail on x, so don't modify self.accumulator until all the functions have been called.
-        updated = []
-        for i in range(self.n):
+        updated = [None] * self.n
+        for i in self.call_order:
             assert functions is not None
             assert accumulator is not None
             assert x is not None
-            updated.append(op.call(env, functions[i], accumulator[i], x[i]))
+            updated[i] = op.call(env, functions[i], accumulator[i], x[i])
         self.accumulator = accumulator = updated
         if op.incremental:
             op.send(env, tuple(x) + tuple([Reducer.snapshot(a) for a in accumulator]))
@@ -245,10 +247,10 @@ class GroupingReducer(Reducer):
         if accumulator is None:
             accumulator = [None] * self.n
         # A function may fail on x, so don't modify self.accumulators until all the functions have been called.
-        updated = []
-        for i in range(self.n):
+        updated = [None] * self.n
+        for i in self.call_order:
             reducer = op.functions[i]
-            updated.append(x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i]))
+            updated[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
         self.accumulators[group] = accumulator = updated
         if op.incremental:
             op.send(env, tuple(x) + tuple([Reducer.snapshot(a) for a in self.data(accumulator)]))
-- 
2.43.0


From 738bacb4577321f03ba6fb8d7f82db7d5005c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 032/187] fix: a failing window predicate gives an error,
 instead of failing in __repr__

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 1cb3ad5..d9c5374 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -137,7 +137,7 @@ class Window(marcel.core.Op):
         if self.disjoint:
             options.append(f'disjoint={self.disjoint}')
         if self.predicate:
-            options.append(f'predicate={self.predicate.source()}')
+            options.append(f'predicate={self.predicate.snippet()}')
         return f'window({", ".join(options)})'
 
     # AbstractOp
-- 
2.43.0


From d5cdfdf7fd6314017631713c9693bec37cc4eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 033/187] fix: sort turns an input for which the key fails into
 an error, and sorts the others

---
 marcel/op/sort.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marcel/op/sort.py b/marcel/op/sort.py
index 336a853..1288a68 100644
--- a/marcel/op/sort.py
+++ b/marcel/op/sort.py
@@ -75,7 +75,15 @@ class Sort(marcel.core.Op):
         if self.contents is not None:
             try:
                 if self.key:
-                    self.contents.sort(key=(lambda t: self.call(env, self.key, *t)))
+                    keyed = []
+                    for x in self.contents:
+                        try:
+                            keyed.append((self.call(env, self.key, *x), x))
+                        except marcel.exception.KillAndResumeException:
+                            # The key could not be computed for x. The error has been sent already.
+                            pass
+                    keyed.sort(key=lambda k: k[0])
+                    self.contents = [x for _, x in keyed]
                 else:
                     self.contents.sort()
                 for x in self.contents:
-- 
2.43.0


From b890e5f844ae39d4c8240d1f60e5beeaa1e979bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 034/187] fix: tracing of union and filter no longer fails

---
 marcel/op/filter.py | 4 ++--
 marcel/op/union.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 0654887..df23b26 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -97,8 +97,8 @@ class Filter(marcel.core.Op):
         self.right = None
 
     def __repr__(self):
-        assert self.keep != self.discard
-        behavior = 'keep' if self.keep else 'discard'
+        # Before setup, keep may not have been set yet
+        behavior = 'discard' if self.discard else 'keep'
         return f'filter({behavior}, {self.pipeline})'
 
     # AbstractOp
diff --git a/marcel/op/union.py b/marcel/op/union.py
index 9074c00..86ea94a 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -109,6 +109,9 @@ class PropagateFlushFromLast(marcel.core.Op):
         super().__init__()
         self.last = last
 
+    def __repr__(self):
+        return f'propagateflushfromlast(last={self.last})'
+
     # Op
 
     def receive(self, env, x):
-- 
2.43.0


From e47c7169e3e73a2b61ffac9ef3cea9481a59d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 035/187] fix: help works without a terminal

---
 marcel/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/util.py b/marcel/util.py
index 8de08e8..74fa4fd 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -154,10 +154,11 @@ def colorize(s, color):
     return f'{style}\033[38;5;{color.code}m{s}\033[0m'
 
 
+# Returns None if stdin is not a terminal, or if the width of the terminal is unknown.
 def console_width():
     process = subprocess.run('stty size', shell=True, capture_output=True)
-    console_columns = int(process.stdout.split()[1])
-    return console_columns
+    size = process.stdout.split()
+    return int(size[1]) or None if len(size) == 2 else None
 
 
 # Utility to print to stderr, flushing stdout first, to minimize weird ordering due to buffering.
-- 
2.43.0


From ab97f9bf1bb2611927a69eba7377da96b9231dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 036/187] fix: malformed commands (trailing backslash,
 unfinished string or parameter list) are rejected instead of crashing the
 parser

---
 marcel/parser.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 6eec2a5..86b8a9d 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -312,7 +312,9 @@ class PythonString(Token):
                     chars.append(c)
             elif c == Token.ESCAPE_CHAR:
                 c = self.next_char()
-                if c in Token.ESCAPABLE:
+                if c is None:
+                    raise LexerException(self, "Not a python string")
+                elif c in Token.ESCAPABLE:
                     chars.append(c)
                 else:
                     chars.append(Token.ESCAPE_CHAR)
@@ -456,7 +458,6 @@ class String(Token):
                     quote = None
             elif c == Token.ESCAPE_CHAR:
                 if quote is None:
-                    # TODO: ESCAPE at end of line
                     chars.append(c)
                     c = self.next_char()
                     if c is None:
@@ -465,10 +466,13 @@ class String(Token):
                 elif quote == Token.SINGLE_QUOTE:
                     chars.append(c)
                 elif quote == Token.DOUBLE_QUOTE:
-                    # TODO: no next char
                     c = self.next_char()
                     # TODO: Other escaped chars inside double quotes
-                    if c == Token.ESCAPE_CHAR:
+                    if c is None:
+                        # The missing quote is reported later.
+                        chars.append(Token.ESCAPE_CHAR)
+                        break
+                    elif c == Token.ESCAPE_CHAR:
                         chars.append(c)
                     else:
                         chars.append(Token.ESCAPE_CHAR)
@@ -477,7 +481,11 @@ class String(Token):
                     raise LexerException(self, 'Malformed string')
             else:
                 chars.append(c)
-        self.string = StringLiteral(''.join(chars))
+        try:
+            self.string = StringLiteral(''.join(chars))
+        except Exception as e:
+            # E.g. there is nothing after an escape.
+            raise LexerException(self, str(e))
 
 
 class MarcelString(String):
@@ -693,7 +701,7 @@ class Lexer(Source):
                 # Don't consume the next token if it isn't going to be consollidated.
                 mark = self.mark()
                 token = self.next_unconsolidated_token()
-                if consolidatable(token):
+                if token and consolidatable(token):
                     adjacent_tokens.append(token)
                 else:
                     # token is not consolidatable, so loop condition will be false.
@@ -1228,6 +1236,8 @@ class Parser(object):
                     raise SyntaxError(self.token, f'Expected a var, found {self.token}')
             else:
                 self.next_token()  # Should be string or colon
+                if self.token is None:
+                    raise PrematureEndError()
         # Shouldn't have called vars() unless the token (on entry) was a string.
         assert len(vars) > 0
         if not self.token.is_colon():
-- 
2.43.0


From 1f0de4a7bcfb44bc4d04ee5b071a49fef948863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 037/187] fix: sudo without a pipeline is an error, and a
 pipeline with sudo can be executed repeatedly

---
 marcel/op/sudo.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 8d79a73..665ba67 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -74,26 +74,25 @@ class Sudo(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.args = None
+        self.pipeline = None
 
     def __repr__(self):
-        return f'sudo({self.pipeline})'
+        return f'sudo({", ".join([str(arg) for arg in self.args])})' if self.args else 'sudo()'
 
     # AbstractOp
 
     def setup(self, env):
         if len(self.args) == 0:
             raise marcel.exception.KillCommandException('Missing pipeline')
-        pipeline_arg = self.args.pop()
-        self.pipeline = marcel.pipeline.convert_to_pipeline(env, pipeline_arg)
-        assert isinstance(self.pipeline, marcel.pipeline.Pipeline)
-        if self.pipeline is None:
+        self.pipeline = marcel.pipeline.convert_to_pipeline(env, self.args[-1])
+        if not isinstance(self.pipeline, marcel.pipeline.Pipeline):
             raise marcel.exception.KillCommandException('Missing pipeline')
 
     # Op
 
     def run(self, env):
         # Start the remote process
-        command = ' '.join(['sudo'] + self.args + ['farcel.py'])
+        command = ' '.join(['sudo'] + self.args[:-1] + ['farcel.py'])
         self.process = subprocess.Popen(command,
                                         stdin=subprocess.PIPE,
                                         stdout=subprocess.PIPE,
-- 
2.43.0


From 08fcab7b447901c986cf473c48cfde672dd241f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 038/187] fix: env can be shown in error messages whatever its
 argument is

---
 marcel/op/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index ef9ac87..3d79b88 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -115,7 +115,7 @@ class Env(marcel.core.Op):
         if self.pattern:
             buffer.append(f'pattern {self.pattern}')
         if self.var:
-            buffer.append(self.var)
+            buffer.append(str(self.var))
         return f'env({", ".join(buffer)})'
 
     # AbstractOp
-- 
2.43.0


From 4cd69e23d2370dbeb332a8cf32b59bf4ea0f10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 039/187] fix: text adjacent to an expression is taken
 literally, whatever its characters

---
 marcel/parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 86b8a9d..630718b 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -712,17 +712,17 @@ class Lexer(Source):
 
     def consolidate(self, tokens):
         # Generate a new Expression token that combines the strings and expressions into
-        # a Python f'...' string.
-        buffer = ["(f'''"]
+        # a sequence of Python string literals, which Python concatenates: '...' for a string, f'...'
+        # for an expression.
+        buffer = []
         for token in tokens:
             if token.is_string():
-                buffer.append(token.value())
+                buffer.append(repr(marcel.util.string_value(token.value())))
             elif token.is_expr():
-                buffer.extend(['{', token.source(), '}'])
+                buffer.append(f"f'''{{{token.source()}}}'''")
             else:
                 assert False, token
-        buffer.append("''')")
-        token = Expression(self.parser, ''.join(buffer), 0)
+        token = Expression(self.parser, f'({" ".join(buffer)})', 0)
         return token
 
     def next_unconsolidated_token(self):
-- 
2.43.0


From 56ab1cad156d8dd319252a7c799d27e8ee8b8ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 040/187] fix: a parameter name without a value is rejected in
 the invocation of a pipeline

---
 marcel/argsparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index a403ee2..29c34d1 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -515,6 +515,8 @@ class PipelineArgsParser:
             if flag_name:
                 if flags_done:
                     raise ArgsError(self.var, f'Flag {flag_name} appears after anonymous arguments.')
+                if param_name is not None:
+                    raise ArgsError(self.var, f'Flag {param_name} requires a value.')
                 param_name = flag_name
             else:
                 if param_name is None:
@@ -525,6 +527,8 @@ class PipelineArgsParser:
                         raise ArgsError(self.var, f'Flag {param_name} given more than once.')
                     kwargs[param_name] = arg
                     param_name = None
+        if param_name is not None:
+            raise ArgsError(self.var, f'Flag {param_name} requires a value.')
         return args, kwargs
 
     @staticmethod
-- 
2.43.0


From 8254d3ed8764dcdd63a1f24f3df4da7e820d5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 041/187] fix: string arguments of pipelines are passed without
 quotes and escapes

---
 marcel/argsparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index 29c34d1..1b36433 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -519,6 +519,9 @@ class PipelineArgsParser:
                     raise ArgsError(self.var, f'Flag {param_name} requires a value.')
                 param_name = flag_name
             else:
+                if isinstance(arg, str):
+                    # The pipeline gets the string, without the quotes and escapes used to write it.
+                    arg = marcel.util.string_value(arg)
                 if param_name is None:
                     flags_done = True
                     args.append(arg)
-- 
2.43.0


From 85e8ef151f47e35a7551e9f56deea8fd9a4c7d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 042/187] fix: a function or expression may span several lines

---
 marcel/function.py             | 3 ++-
 marcel/function_args_parser.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/function.py b/marcel/function.py
index f8c3f01..0fa3e2b 100644
--- a/marcel/function.py
+++ b/marcel/function.py
@@ -80,7 +80,8 @@ class SourceFunction(Function):
 
     def ensure_compiled(self, globals):
         if self.function is None:
-            self.function = eval(self.source, globals)
+            # The parens allow for source that spans lines.
+            self.function = eval(f'({self.source}\n)', globals)
 
 
 class SymbolFunction(Function):
diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index c817c1b..4d82310 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -87,7 +87,7 @@ class FunctionArgsParser(object):
         for token in tkn.tokenize(self.input):
             if token.type == tkn.ENDMARKER:
                 break
-            if token.type not in (tkn.ENCODING, tkn.NEWLINE):
+            if token.type not in (tkn.ENCODING, tkn.NEWLINE, tkn.NL):
                 self.state = transition(Symbol.of(token))
                 if self.state.terminal():
                     break
-- 
2.43.0


From bac18e967deac27e7429cd04b307e072702589e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 043/187] fix: filenames with special characters can be named,
 quoted or escaped, or as File or Path; an invalid pattern or unknown user is
 an error

---
 marcel/argsparser.py     |  4 +++
 marcel/op/cd.py          |  8 ++---
 marcel/op/download.py    |  2 +-
 marcel/op/filenames.py   | 74 ++++++++++++++++++----------------------
 marcel/op/filenamesop.py |  2 +-
 marcel/op/pushd.py       |  4 +--
 marcel/op/upload.py      |  2 +-
 marcel/stringliteral.py  | 16 +++++++++
 8 files changed, 62 insertions(+), 50 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index 1b36433..ba415ae 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -220,6 +220,10 @@ class ArgsParser:
             raise ArgsError(arg.op_name, f'{arg.name} must be a string: {x}')
         return x
 
+    # x is a filename or a glob pattern.
+    def check_filename(self, arg, x):
+        return x.pattern() if type(x) is marcel.stringliteral.StringLiteral else self.check_str_or_file(arg, x)
+
     def check_pipeline(self, arg, x):
         pipeline = marcel.pipeline.convert_to_pipeline(self.env, x)
         if pipeline is None:
diff --git a/marcel/op/cd.py b/marcel/op/cd.py
index 9e0f6ed..9262220 100644
--- a/marcel/op/cd.py
+++ b/marcel/op/cd.py
@@ -39,7 +39,7 @@ class CdArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('cd', env)
-        self.add_anon('directory', convert=self.check_str_or_file, default='~', target='directory_arg')
+        self.add_anon('directory', convert=self.check_filename, default='~', target='directory_arg')
         self.validate()
 
 
@@ -56,9 +56,9 @@ class Cd(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        dir_arg = pathlib.Path(self.eval_function(env,
-                                                  'directory_arg',
-                                                  str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File))
+        dir_arg = self.eval_function(env,
+                                     'directory_arg',
+                                     str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File)
         try:
             dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
         except Exception as e:
diff --git a/marcel/op/download.py b/marcel/op/download.py
index cb4cf26..760ed3f 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -59,7 +59,7 @@ class DownloadArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('download', env)
-        self.add_anon('dir', convert=self.check_str_or_file, target='dir_arg')
+        self.add_anon('dir', convert=self.check_filename, target='dir_arg')
         self.add_anon('cluster', convert=self.cluster)
         self.add_anon_list('filenames', convert=self.check_str_or_file, target='filenames_arg')
         self.validate()
diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index 7fb2988..ec34586 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -13,15 +13,12 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import glob
 import os
 import pathlib
 
-import marcel.argsparser
-import marcel.core
 import marcel.exception
-import marcel.object.error
 import marcel.object.file
-import marcel.util
 
 File = marcel.object.file.File
 
@@ -32,6 +29,8 @@ File = marcel.object.file.File
 # - Resolve . and ..
 # - Eliminate duplicates
 # - Convert to pathlib.Path
+#
+# A string is a filename or a glob pattern. A File or Path identifies one file, whatever characters are in its name.
 
 class Filenames(object):
 
@@ -43,44 +42,37 @@ class Filenames(object):
 
     def normalize(self):
         # Expand globs and eliminate duplicates
-        paths = self._normalize_paths()
         roots = []
         roots_set = set()
-        for path in paths:
-            # Proceed as if path is a glob pattern, but this works for non-globs too.
-            path_str = path.as_posix()
-            if path_str == '/':
-                roots.append(Filenames.ROOT)
-            else:
-                glob_base, glob_pattern = ((Filenames.ROOT, path_str[1:])
-                                           if path.is_absolute() else
-                                           (self.current_dir, path_str))
-                for root in (glob_base.glob(glob_pattern)
-                             if len(glob_pattern) > 0 else
-                             glob_base.iterdir()):
-                    if root not in roots_set:
-                        roots_set.add(root)
-                        roots.append(root)
+        for filename in self.filenames:
+            for root in self._paths(self._pattern(filename)):
+                if root not in roots_set:
+                    roots_set.add(root)
+                    roots.append(root)
         return roots
 
-    def _normalize_paths(self):
-        # Unescape escaped chars
-        # Resolve ~
-        # Resolve . and ..
-        # Convert to Path
-        paths = []
-        for filename in self.filenames:
-            if type(filename) is File:
-                filename = filename.path
-            filename = str(filename)
-            # Unescape escaped chars
-            filename = marcel.util.unescape(filename)
-            # Resolve . and ..
-            filename = os.path.normpath(filename)
-            # Convert to Path and resolve ~
-            path = pathlib.Path(filename).expanduser()
-            # If path is relative, specify what it is relative to.
-            if not path.is_absolute():
-                path = self.current_dir / path
-            paths.append(path)
-        return paths
+    # An absolute pattern, in which ~, . and .. have been resolved.
+    def _pattern(self, filename):
+        if type(filename) is File:
+            filename = filename.path
+        if isinstance(filename, pathlib.Path):
+            pattern = glob.escape(os.path.expanduser(str(filename)))
+        else:
+            pattern = filename
+            if pattern.startswith('~'):
+                # The home directory is not a pattern.
+                home, slash, rest = pattern.partition('/')
+                pattern = glob.escape(os.path.expanduser(home)) + slash + rest
+        # The current directory is not a pattern.
+        pattern = os.path.join(glob.escape(str(self.current_dir)), pattern)
+        pattern = os.path.normpath(pattern)
+        # normpath may keep two leading slashes.
+        return '/' + pattern.lstrip('/')
+
+    @staticmethod
+    def _paths(pattern):
+        # Proceed as if path is a glob pattern, but this works for non-globs too.
+        try:
+            return [Filenames.ROOT] if pattern == '/' else list(Filenames.ROOT.glob(pattern[1:]))
+        except ValueError as e:
+            raise marcel.exception.KillCommandException(f'{pattern}: {e}')
diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index 263d83c..dc8d805 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -34,7 +34,7 @@ class FilenamesOpArgsParser(marcel.argsparser.ArgsParser):
         self.add_flag_no_value('d0', '-0', None)
         self.add_flag_no_value('d1', '-1', None)
         self.add_flag_no_value('dr', '-r', '--recursive')
-        self.add_anon_list('filenames', convert=self.check_str_or_file, target='filenames_arg')
+        self.add_anon_list('filenames', convert=self.check_filename, target='filenames_arg')
         self.at_most_one('d0', 'd1', 'dr')
 
 
diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 8604d23..5836cfa 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -42,7 +42,7 @@ class PushdArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('pushd', env)
-        self.add_anon('directory', convert=self.check_str_or_file, default=None, target='directory_arg')
+        self.add_anon('directory', convert=self.check_filename, default=None, target='directory_arg')
         self.validate()
 
 
@@ -68,7 +68,7 @@ class Pushd(marcel.core.Op):
         if dir_arg is None:
             self.directory = None
         else:
-            dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+            dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
             if len(dirs) == 0:
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
diff --git a/marcel/op/upload.py b/marcel/op/upload.py
index bfd24a2..16a4b3f 100644
--- a/marcel/op/upload.py
+++ b/marcel/op/upload.py
@@ -62,7 +62,7 @@ class UploadArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('upload', env)
         self.add_anon('cluster', convert=self.cluster)
         self.add_anon('dir', convert=self.check_str_or_file, target='dir_arg')
-        self.add_anon_list('filenames', convert=self.check_str_or_file, target='filenames_arg')
+        self.add_anon_list('filenames', convert=self.check_filename, target='filenames_arg')
         self.validate()
 
 
diff --git a/marcel/stringliteral.py b/marcel/stringliteral.py
index 0b470bb..3b466ce 100644
--- a/marcel/stringliteral.py
+++ b/marcel/stringliteral.py
@@ -13,6 +13,9 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import glob
+
+
 # Subclass of str that includes metacharacters from the string's creation as a literal: quotes, escape.
 class StringLiteral(str):
 
@@ -38,6 +41,19 @@ class StringLiteral(str):
                 f'quote={self.quote}, '
                 f'missing_quote={self.missing_quote}')
 
+    # The string as a glob pattern, in which the characters that were quoted or escaped stand for themselves.
+    def pattern(self):
+        if self.quote:
+            return glob.escape(self.string)
+        elif self.escape:
+            buffer = []
+            chars = iter(self.original)
+            for c in chars:
+                buffer.append(glob.escape(next(chars)) if c == '\\' else c)
+            return ''.join(buffer)
+        else:
+            return self.string
+
     def escaped(self):
         return self.escape
 
-- 
2.43.0


From 362729fed66adb8b39c2d4b85870fc7455cf5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 044/187] fix: executing a pipeline without arguments for its
 parameters is an error, instead of ending the session

---
 marcel/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 644a2ea..3f41bb2 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -309,6 +309,10 @@ class PipelineMarcel(Pipeline):
     def run_pipeline(self, env, bindings):
         assert self.state in (PipelineMarcel.State.IDLE, PipelineMarcel.State.SETUP), self.state
         params = self.executable.parameters()
+        unbound = [param for param in params if param not in bindings]
+        if unbound:
+            raise marcel.exception.KillCommandException(
+                f'Pipeline parameters are not bound: {", ".join(unbound)}')
         assert set(params) == set(bindings.keys()), f'params = {params}, binding keys = {bindings.keys()}'
         env.vars().push_scope(bindings)
         try:
-- 
2.43.0


From f4f464ea52983d5ca405cc61cd84f6b77589f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 045/187] fix: jobs, bg and fg report that there is no such
 job, or no job control, instead of crashing

---
 marcel/op/jobop.py | 6 +++++-
 marcel/op/jobs.py  | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 8eabc4d..c80e01c 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -43,11 +43,15 @@ class JobOp(marcel.core.Op):
 
     def setup(self, env):
         job_control = marcel.job.JobControl.only
+        if job_control is None:
+            raise marcel.exception.KillCommandException(f'{self.op_name()} can only be used interactively')
         if self.job_id is not None:
             self.jid = self.job_id
-        if self.jid is not None and self.jid >= len(job_control.jobs()):
+        if self.jid is not None and not 0 <= self.jid < len(job_control.jobs()):
             raise marcel.exception.KillCommandException(f'There is no job {self.jid}')
         self.job = job_control.job(jid=self.jid, pid=self.pid)
+        if self.job is None:
+            raise marcel.exception.KillCommandException(f'There is no job whose process id is {self.pid}')
 
     def run(self, env):
         self.action()
diff --git a/marcel/op/jobs.py b/marcel/op/jobs.py
index 1c3d0b6..44dee18 100644
--- a/marcel/op/jobs.py
+++ b/marcel/op/jobs.py
@@ -15,6 +15,7 @@
 
 import marcel.argsparser
 import marcel.core
+import marcel.exception
 import marcel.job
 
 
@@ -55,6 +56,8 @@ class Jobs(marcel.core.Op):
     # AbstractOp
     
     def run(self, env):
+        if marcel.job.JobControl.only is None:
+            raise marcel.exception.KillCommandException('jobs can only be used interactively')
         job_id = 0
         for job in marcel.job.JobControl.only.jobs():
             # TODO: If job were a marcel.renderable.Renderable, then it would have render_compact/full methods.
-- 
2.43.0


From 58d210d646e37ae2eb8c25ef8ba175cbaa76192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 046/187] fix: read with neither filenames nor input is an
 error, instead of ending the session

---
 marcel/op/read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index e8f7648..a95a139 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -200,7 +200,8 @@ class Read(marcel.op.filenamesop.FilenamesOp):
         if self.filenames:
             return super().run(env)
         else:
-            return self.receive(env, None)
+            raise marcel.exception.KillCommandException(
+                'read requires filenames, or a stream of Files as input.')
 
     def receive(self, env, x):
         if x is None:
-- 
2.43.0


From fcac0e898b44ce15d1eec728938a76e32188ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 047/187] fix: history, run and edit are errors in a script,
 instead of crashing

---
 marcel/env.py        | 1 +
 marcel/op/edit.py    | 4 +++-
 marcel/op/history.py | 2 ++
 marcel/op/run.py     | 2 ++
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index 4eb4c30..e7ae870 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -82,6 +82,7 @@ class Environment(object):
         self.locations = marcel.locations.Locations()
         self.directory_state = marcel.directorystate.DirectoryState(self)
         self.config_path = None
+        self.reader = None  # Set in an interactive session
         self.op_modules = marcel.opmodule.import_op_modules()
         self.current_op = None  # Needed for pos()
         self.trace = trace if trace else Trace()
diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index f3aac87..18edc7d 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -80,7 +80,9 @@ class Edit(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        assert self.command is None  # edit COMMAND should be handled by Reader, shouldn't get here.
+        if self.command is not None:
+            # An interactive edit COMMAND is handled by Reader.
+            raise marcel.exception.KillCommandException('Commands can only be edited interactively')
         self.ws_name = None if self.startup is True else self.startup
 
     def run(self, env):
diff --git a/marcel/op/history.py b/marcel/op/history.py
index fba7f4b..f55f274 100644
--- a/marcel/op/history.py
+++ b/marcel/op/history.py
@@ -93,6 +93,8 @@ class History(marcel.core.Op):
         assert (not self.all and type(self.n) is int) or (self.all and self.n is None), self
 
     def run(self, env):
+        if env.reader is None:
+            raise marcel.exception.KillCommandException('The history is only available interactively')
         history = env.reader.history()
         selected = []
         n_history = len(history)
diff --git a/marcel/op/run.py b/marcel/op/run.py
index 9dafaa3..b96c6ca 100644
--- a/marcel/op/run.py
+++ b/marcel/op/run.py
@@ -71,6 +71,8 @@ class Run(marcel.core.Op):
             raise marcel.exception.KillCommandException('No arguments permitted after !!')
 
     def run(self, env):
+        if env.reader is None:
+            raise marcel.exception.KillCommandException('Commands can only be run again interactively')
         env.next_command = env.reader.command_by_id(self.id)
 
     # Op
-- 
2.43.0


From d492c93e89ff67c7c465f28ca020532b637ef664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 048/187] fix: tracing stays on after the environment has been
 sent to another process

---
 marcel/env.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index e7ae870..2541243 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -355,8 +355,10 @@ class Trace(object):
         self.description = None
 
     def __getstate__(self):
-        self.tracefile = None
-        return self.__dict__
+        # The trace file can't be sent to another process, but this process still needs it.
+        state = self.__dict__.copy()
+        state['tracefile'] = None
+        return state
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From 4543eae5bb9dd89b7bdab61121f929cd9a66a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 049/187] fix: writing to a file that cannot be opened, for any
 reason, is an error, instead of ending the session

---
 marcel/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marcel/util.py b/marcel/util.py
index 74fa4fd..6f64e38 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -192,8 +192,7 @@ def iterable(x):
 def open_file(path, mode, exception_class):
     try:
         return open(path, mode)
-    # FileNotFoundError should not occur. Missing files handled by FilenamesOp.
-    except (IsADirectoryError, FileExistsError, PermissionError) as e:
+    except OSError as e:
         raise exception_class(f'Unable to open {path} with mode {mode}: {str(e)}')
 
 
-- 
2.43.0


From daba44dee6a44332b264210e8d423cb4a9b0f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 050/187] fix: redirection without input stores nothing,
 instead of an empty list

---
 marcel/op/store.py | 4 ++++
 marcel/op/write.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..4ac147e 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -119,6 +119,10 @@ class Store(marcel.core.Op):
         except marcel.picklefile.PickleFileUsageError:
             raise marcel.exception.KillCommandException(f'store {self.var}: Pickle file already in use')
 
+    def run(self, env):
+        # First in a pipeline, e.g. >$ VAR. There is no input.
+        pass
+
     def receive(self, env, x):
         try:
             self.writer.write(x)
diff --git a/marcel/op/write.py b/marcel/op/write.py
index df23d78..8066517 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -144,6 +144,10 @@ class Write(marcel.core.Op):
                        PickleWriter(self) if self.pickle else
                        DefaultWriter(self, env.color_scheme()))
 
+    def run(self, env):
+        # First in a pipeline, e.g. > FILENAME. There is no input.
+        pass
+
     def receive(self, env, x):
         try:
             self.writer.receive(env, x)
-- 
2.43.0


From 538d0d55fb62decd82940bdaf34b547d8c290481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 051/187] fix: write --csv, --tsv and --format write errors,
 instead of failing on them

---
 marcel/op/write.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index 8066517..9affd23 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -161,7 +161,7 @@ class Write(marcel.core.Op):
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
-        self.writer.receive(env, error)
+        self.writer.receive_error(env, error)
 
     def flush(self, env):
         self.writer.flush(env)
@@ -197,6 +197,9 @@ class Writer(object):
     def receive(self, env, x):
         assert False
 
+    def receive_error(self, env, error):
+        self.receive(env, error)
+
     def flush(self, env):
         pass
 
@@ -217,6 +220,11 @@ class TextWriter(Writer):
         if self.output() != sys.stdout:
             self.output().close()
 
+    # Errors are not subject to formatting specifications.
+    def receive_error(self, env, error):
+        color_scheme = env.color_scheme() if self.output() == sys.__stdout__ else None
+        self.write_line(error.render_full(color_scheme))
+
     def write_line(self, x):
         print(x, file=self.output(), flush=True)
 
-- 
2.43.0


From b953d67a19c920723ec1861f688e46bf6fd9b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 052/187] fix: a pickle file that has been appended to is read
 correctly, as are values modified after being written

---
 marcel/picklefile.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..a32500d 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -136,24 +136,23 @@ class Reader(Access):
 class Writer(Access):
 
     FLUSH_INTERVAL_SEC = 1.0
+    PICKLE_PROTOCOL = 3
 
     def __init__(self, owner, append):
         super().__init__(owner)
         self.append = append
         owner.path.touch(mode=0o600)
         self.file = open(owner.path, 'ab' if self.append else 'wb')
-        self.pickler = dill.Pickler(self.file)
         self.last_flush = time.time()
 
     def write(self, x):
         assert self.file is not None
-        try:
-            self.pickler.dump(x)
-            now = time.time()
-            if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
-                self.file.flush()
-                self.last_flush = now
-        except:
-            print(f'{os.getpid()}: Closing writer')
-            self.close()
-            raise
+        # Each value is pickled by itself, so that there are no references to values written earlier: these values may
+        # have been modified since, or they may have been written by another Writer, before appending. Later
+        # protocols don't number memoized objects explicitly, so the values in a file, which are read by one
+        # Unpickler, would not be independent. If x can't be pickled, then nothing is written.
+        self.file.write(dill.dumps(x, protocol=Writer.PICKLE_PROTOCOL))
+        now = time.time()
+        if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
+            self.file.flush()
+            self.last_flush = now
-- 
2.43.0


From 5b03765db224c806bbbdb4348d70a09fec7cd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 053/187] fix: storing a value that cannot be pickled is an
 error for that value, instead of ending the session

---
 marcel/op/store.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/op/store.py b/marcel/op/store.py
index 4ac147e..6964c98 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -126,9 +126,9 @@ class Store(marcel.core.Op):
     def receive(self, env, x):
         try:
             self.writer.write(x)
-        except:
-            self.writer.close()
-            raise
+        except Exception as e:
+            # E.g. x can't be pickled
+            self.fatal_error(env, x, str(e))
 
     def cleanup(self):
         self.writer.close()
-- 
2.43.0


From e062df535f1312c3032211608b3ecd99afca890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 054/187] fix: a reservoir can be read more than once in a
 command, and is released when a command using it fails

---
 marcel/op/load.py    |  8 +++++++-
 marcel/picklefile.py | 28 +++++++++++++++-------------
 marcel/pipeline.py   | 22 +++++++++++++++-------
 3 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index f8ee8a4..d8cad0f 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -97,7 +97,10 @@ class Load(marcel.core.Op):
         elif self.var is not None:
             raise marcel.exception.KillCommandException(
                 f'The type of {self.var} is {type(self.var)}. Only a Reservoir can be loaded')
-        self.reader = iter(self.picklefile)
+        try:
+            self.reader = iter(self.picklefile)
+        except marcel.picklefile.PickleFileUsageError:
+            raise marcel.exception.KillCommandException(f'load {self.var}: Pickle file already in use')
 
     def run(self, env):
         try:
@@ -109,5 +112,8 @@ class Load(marcel.core.Op):
             self.reader.close()
             raise
 
+    def cleanup(self):
+        self.reader.close()
+
     def must_be_first_in_pipeline(self):
         return True
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index a32500d..48c2c11 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -27,7 +27,7 @@ class PickleFile:
 
     def __init__(self, path):
         self.path = pathlib.Path(path)
-        self._readers = {}  # path -> Reader
+        self._readers = {}  # id(Reader) -> Reader
         self._writer = None
 
     def __repr__(self):
@@ -55,7 +55,7 @@ class PickleFile:
     def reader(self):
         self.check_availability(self._writer is None)
         reader = Reader(self)
-        self._readers[self.path] = reader
+        self._readers[id(reader)] = reader
         return reader
 
     def writer(self, append):
@@ -72,13 +72,16 @@ class PickleFile:
             pass
 
     def close(self):
-        try:
-            access = self._readers.pop(self.path)
-        except KeyError:
-            access = self._writer
+        for reader in list(self._readers.values()):
+            reader.close()
+        if self._writer is not None:
+            self._writer.close()
+
+    # access is a Reader or Writer
+    def release(self, access):
+        self._readers.pop(id(access), None)
+        if access is self._writer:
             self._writer = None
-        if access is not None:
-            access.close_file()
 
     # A reservoir owned by a default workspace has a filename of the form PID.varname.pickle. Return the pid,
     # or None if there is none.
@@ -99,11 +102,10 @@ class Access(object):
         self.file = None
 
     def close(self):
-        self.owner.close()
-
-    def close_file(self):
-        self.file.close()
-        self.file = None
+        self.owner.release(self)
+        if self.file is not None:
+            self.file.close()
+            self.file = None
 
 
 class Reader(Access):
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 3f41bb2..b8a3cb6 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,13 +56,21 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
-        for op in self.ops:
-            if env.trace.is_enabled():
-                env.trace.write(op, 'SETUP')
-            op.reset_pos()
-            op.setup(env)
-        for op in self.ops:
-            op.customize_pipelines(env)
+        ready = []
+        try:
+            for op in self.ops:
+                if env.trace.is_enabled():
+                    env.trace.write(op, 'SETUP')
+                op.reset_pos()
+                op.setup(env)
+                ready.append(op)
+            for op in self.ops:
+                op.customize_pipelines(env)
+        except BaseException:
+            # The pipeline won't run. Release the resources acquired, e.g. reservoirs being loaded.
+            for op in ready:
+                op.cleanup()
+            raise
 
     def run(self, env):
         if env.trace.is_enabled():
-- 
2.43.0


From 2d568e2ba26d033cf6746006ffe54253c1edde86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 055/187] fix: an executable with empty input is run, instead
 of failing; and can be cleaned up before it was started

---
 marcel/op/bash.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 0c3fed8..99aa519 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -166,6 +166,8 @@ class NonInteractive(Escape):
             self.process.stdin.flush()
 
     def flush(self, env):
+        # The command has to be run even if there was no input.
+        self.ensure_command_running(env)
         self.process.stdin.close()
         self.output_handler.join()
 
@@ -189,7 +191,7 @@ class NonInteractive(Escape):
             self.output_handler.start()
 
     def shutdown(self):
-        while self.output_handler.is_alive():
+        while self.output_handler is not None and self.output_handler.is_alive():
             self.output_handler.join(0.1)
         self.lock.acquire()
         try:
-- 
2.43.0


From 66c0d8778ce74148d1ed17ccead792efba026db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 056/187] fix: the API can be used in a home directory that
 marcel has not been run in

---
 marcel/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/api.py b/marcel/api.py
index 9dc288b..9622f0e 100644
--- a/marcel/api.py
+++ b/marcel/api.py
@@ -22,6 +22,7 @@ import marcel.exception as _exception
 import marcel.main as _main
 import marcel.object.error as _error
 import marcel.opmodule
+import marcel.persistence.storagelayout as _storagelayout
 import marcel.pipeline as _pipeline
 import marcel.reservoir as _reservoir
 import marcel.structish
@@ -85,6 +86,7 @@ class _Initialization(object):
         if not self.initialized:
             # Environment and Main
             global _ENV, _MAIN
+            _storagelayout.ensure_current()
             _ENV = _env_.Environment.create(globals=globals(), usage='api')
             _MAIN = _main.MainAPI(_ENV)
             _ENV.enforce_var_immutability()
-- 
2.43.0


From 5a094799b4b7244048026a9870e4c0a0cc89bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 057/187] fix: a reservoir that is in use, or whose file is
 gone, is an error, instead of ending the session

---
 marcel/object/workspace.py | 6 +++---
 marcel/op/load.py          | 3 +++
 marcel/picklefile.py       | 8 ++++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..23a904d 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -148,11 +148,11 @@ class VarHandler(object):
         assert var is not None
         self.check_mutability(var)
         if var in self.namespace:
-            self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            value = self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
-            return value
+            self.vars_written.discard(var)
+            return self.namespace.pop(var)
         else:
             raise KeyError(var)
 
diff --git a/marcel/op/load.py b/marcel/op/load.py
index d8cad0f..f3aa477 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -101,6 +101,9 @@ class Load(marcel.core.Op):
             self.reader = iter(self.picklefile)
         except marcel.picklefile.PickleFileUsageError:
             raise marcel.exception.KillCommandException(f'load {self.var}: Pickle file already in use')
+        except FileNotFoundError:
+            # E.g. the Reservoir was deleted, using another variable.
+            raise marcel.exception.KillCommandException(f'load {self.var}: {self.picklefile} does not exist')
 
     def run(self, env):
         try:
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index 48c2c11..c4cd11b 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -18,9 +18,13 @@ import pathlib
 import os
 import time
 
+import marcel.exception
 
-class PickleFileUsageError(BaseException):
-    pass
+
+class PickleFileUsageError(marcel.exception.KillCommandException):
+
+    def __init__(self, pickle_file):
+        super().__init__(f'{pickle_file}: Pickle file already in use')
 
 
 class PickleFile:
-- 
2.43.0


From 44145871e4a476d2505cfea0fcf035b721f2daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 058/187] fix: reassigning or deleting one of several variables
 with the same reservoir keeps the reservoir

---
 marcel/object/workspace.py | 10 ++++++++--
 marcel/op/store.py         |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 23a904d..27906c6 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -136,7 +136,7 @@ class VarHandler(object):
         current_value = self.namespace.get(var, None)
         self.vars_written.add(var)
         if type(current_value) is marcel.reservoir.Reservoir and value != current_value:
-            current_value.ensure_deleted()
+            self.delete_reservoir(var, current_value)
         self.namespace.assign(var, value, source)
 
     def setvar_import(self, var, module, symbol, value):
@@ -150,7 +150,7 @@ class VarHandler(object):
         if var in self.namespace:
             value = self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
-                value.ensure_deleted()
+                self.delete_reservoir(var, value)
             self.vars_written.discard(var)
             return self.namespace.pop(var)
         else:
@@ -194,6 +194,12 @@ class VarHandler(object):
                 f'so it cannot be modified or deleted programmatically. '
                 f'Edit the startup script instead.')
 
+    # var is about to be deleted or assigned a different value. Its reservoir is deleted, unless it
+    # is also the value of another variable.
+    def delete_reservoir(self, var, reservoir):
+        if not any(other != var and value == reservoir for other, value in self.reservoirs()):
+            reservoir.ensure_deleted()
+
     # Returns (var, value), where type(value) is Reservoir.
     def reservoirs(self):
         reservoirs = []
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 6964c98..865990f 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -91,6 +91,7 @@ class Store(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        append = self.append
         if type(self.var) is Reservoir:
             # API
             self.reservoir = self.var
@@ -104,6 +105,7 @@ class Store(marcel.core.Op):
                         f'because it stores a value of type {type(value)}.')
                 if type(value) is not Reservoir:
                     value = Reservoir(self.var, env.locations.data_ws_res(env.workspace, self.var))
+                    append = False  # Ignore the contents of any reservoir that var used to refer to.
                 self.reservoir = value
                 env.setvar(self.var, value)
                 env.mark_possibly_changed(self.var)
@@ -115,7 +117,7 @@ class Store(marcel.core.Op):
             raise marcel.exception.KillCommandException(
                 f'{self.var} is not usable as a reservoir, it stores a value of type {type(self.reservoir)}.')
         try:
-            self.writer = self.reservoir.writer(append=self.append)
+            self.writer = self.reservoir.writer(append=append)
         except marcel.picklefile.PickleFileUsageError:
             raise marcel.exception.KillCommandException(f'store {self.var}: Pickle file already in use')
 
-- 
2.43.0


From 1565a51c5aba66cd9c547a79ffba41fd263da1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 059/187] fix: a deleted variable is removed from its scope
 too, so that it isn't saved, and pipeline parameters can be deleted

---
 marcel/object/workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 27906c6..c77a959 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -152,7 +152,9 @@ class VarHandler(object):
             if type(value) is marcel.reservoir.Reservoir:
                 self.delete_reservoir(var, value)
             self.vars_written.discard(var)
-            return self.namespace.pop(var)
+            # Not pop, which doesn't remove the variable from its scope.
+            del self.namespace[var]
+            return value
         else:
             raise KeyError(var)
 
-- 
2.43.0


From f4fe36d413902cc75ff369214fa4791fe3742e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 060/187] fix: env shows a variable whose value is None,
 instead of claiming that it is undefined

---
 marcel/op/env.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index 3d79b88..38b6866 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -168,11 +168,10 @@ class EnvMarcel(EnvImpl):
 
     def one_var(self, env):
         var = self.op.var
-        value = env.getvar(var)
-        if value is None:
-            self.no_such_var(env, var)
+        if env.hasvar(var):
+            self.op.send(env, (var, env.getvar(var)))
         else:
-            self.op.send(env, (var, value))
+            self.no_such_var(env, var)
 
     def delete_var(self, env):
         try:
-- 
2.43.0


From ae86ed6c51053a7fa9444daf05d0a788961757ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 061/187] fix: failure to import a module, for any reason, is
 an error, instead of ending the session

---
 marcel/op/import.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marcel/op/import.py b/marcel/op/import.py
index ce8b5c8..72bbce8 100644
--- a/marcel/op/import.py
+++ b/marcel/op/import.py
@@ -116,6 +116,11 @@ class Import(marcel.core.Op):
             raise marcel.exception.KillCommandException(f'Module {self.module} not found.')
         except KeyError:
             raise marcel.exception.KillCommandException(f'{self.symbol} is not defined in {self.module}')
+        except marcel.exception.KillCommandException:
+            raise
+        except (Exception, SystemExit) as e:
+            # An unusable module name, or the module's code failed.
+            raise marcel.exception.KillCommandException(f'Unable to import {self.module}: {e}')
 
     def must_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 2b98ae0b9a4310babc489544dafb237f6434d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 062/187] fix: import of a submodule, a.b, defines a, as in
 Python, instead of an unusable variable a.b

---
 marcel/nestednamespace.py | 12 ++++++++----
 marcel/op/import.py       | 10 ++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index cd66453..83b6342 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -244,16 +244,20 @@ class Import(EnvValue):
                 f'import({self.module}.{self.symbol} -> {self.name})')
 
     def to_persistent_state(self):
-        return {'module': self.module, 'symbol': self.symbol}
+        return {'module': self.module, 'symbol': self.symbol, 'name': self.name}
 
     def from_persistent_state(self, persisted):
         self.module = persisted['module']
         self.symbol = persisted['symbol']
+        self.name = persisted.get('name', self.symbol)  # Older versions did not save name.
 
     def reconstitute(self):
-        return (marcel.util.import_module(self.module)
-                if self.symbol is None else
-                marcel.util.import_symbol(self.module, self.symbol))
+        if self.symbol is None:
+            module = marcel.util.import_module(self.module)
+            package = self.module.split('.')[0]
+            return marcel.util.import_module(package) if self.name == package else module
+        else:
+            return marcel.util.import_symbol(self.module, self.symbol)
 
     def assign(self, module, symbol, name, value):
         assert type(module) is str, module
diff --git a/marcel/op/import.py b/marcel/op/import.py
index 72bbce8..a661112 100644
--- a/marcel/op/import.py
+++ b/marcel/op/import.py
@@ -92,11 +92,17 @@ class Import(marcel.core.Op):
         try:
             module = marcel.util.import_module(self.module)
             if self.symbol is None:
-                name = self.module if self.name is None else self.name
+                if self.name is None:
+                    # As in Python, import a.b.c defines a.
+                    name = self.module.split('.')[0]
+                    value = marcel.util.import_module(name)
+                else:
+                    name = self.name
+                    value = module
                 workspace.setvar_import(var=name,
                                         module=self.module,
                                         symbol=None,
-                                        value=module)
+                                        value=value)
             elif self.symbol == '*':
                 for name, value in module.__dict__.items():
                     if not name.startswith('_'):
-- 
2.43.0


From a5f3e95de8839a2b228669e3f9b9d533868dcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 063/187] fix: functions with default values, * and **
 parameters are recognized in all notations, and can be assigned

---
 marcel/function_args_parser.py | 41 ++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 4d82310..8500492 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -25,6 +25,7 @@ class State(Enum):
     ARG = 4
     END = 5
     NO_ARGS = 6
+    DEFAULT = 7
 
     def terminal(self):
         return self in (State.END, State.NO_ARGS)
@@ -37,13 +38,21 @@ class Symbol(Enum):
     STAR = 4,
     COLON = 5,
     OTHER = 6
+    SLASH = 7
+    EQUALS = 8
+    OPEN = 9
+    CLOSE = 10
 
     @staticmethod
     def of(token):
         return (Symbol.LAMBDA if token.type == tkn.NAME and token.string == 'lambda' else
                 Symbol.NAME if token.type == tkn.NAME else
                 Symbol.COMMA if token.type == tkn.OP and token.string == ',' else
-                Symbol.STAR if token.type == tkn.OP and token.string == '*' else
+                Symbol.STAR if token.type == tkn.OP and token.string in ('*', '**') else
+                Symbol.SLASH if token.type == tkn.OP and token.string == '/' else
+                Symbol.EQUALS if token.type == tkn.OP and token.string == '=' else
+                Symbol.OPEN if token.type == tkn.OP and token.string in ('(', '[', '{') else
+                Symbol.CLOSE if token.type == tkn.OP and token.string in (')', ']', '}') else
                 Symbol.COLON if token.type == tkn.OP and token.string == ':' else
                 Symbol.OTHER)
 
@@ -58,6 +67,7 @@ class FunctionArgsParser(object):
         self.explicit_lambda = False
         self.explicit_colon = False
         self.has_args = False
+        self.nesting = 0  # Of brackets in a default value
         # Leading whitespace would be tokenized as an indent.
         self.input = io.BytesIO(source.lstrip().encode('utf-8')).readline
         self.transitions = {
@@ -68,9 +78,12 @@ class FunctionArgsParser(object):
             (State.ARGLIST, Symbol.NAME): self.arglist_name,
             (State.ARGLIST, Symbol.STAR): self.arglist_star,
             (State.ARGLIST, Symbol.COLON): self.arglist_colon,
+            (State.ARGLIST, Symbol.SLASH): self.arglist_slash,
             (State.STAR, Symbol.NAME): self.star_name,
+            (State.STAR, Symbol.COMMA): self.star_comma,
             (State.ARG, Symbol.COMMA): self.arg_comma,
-            (State.ARG, Symbol.COLON): self.arg_colon
+            (State.ARG, Symbol.COLON): self.arg_colon,
+            (State.ARG, Symbol.EQUALS): self.arg_equals
         }
 
     def __repr__(self):
@@ -81,6 +94,8 @@ class FunctionArgsParser(object):
 
     def parse(self):
         def transition(symbol):
+            if self.state is State.DEFAULT:
+                return self.default(symbol)
             handler = self.transitions.get((self.state, symbol), None)
             return handler() if handler else State.NO_ARGS
 
@@ -122,12 +137,34 @@ class FunctionArgsParser(object):
         self.explicit_colon = True
         return State.END
 
+    def arglist_slash(self):
+        return State.ARG
+
     def star_name(self):
+        self.has_args = True
         return State.ARG
 
+    def star_comma(self):
+        return State.ARGLIST
+
     def arg_comma(self):
         return State.ARGLIST
 
     def arg_colon(self):
         self.explicit_colon = True
         return State.END
+
+    def arg_equals(self):
+        return State.DEFAULT
+
+    # A default value is followed by another arg, or the body of the function.
+    def default(self, symbol):
+        if symbol is Symbol.OPEN:
+            self.nesting += 1
+        elif symbol is Symbol.CLOSE:
+            self.nesting -= 1
+        elif self.nesting == 0 and symbol is Symbol.COMMA:
+            return State.ARGLIST
+        elif self.nesting == 0 and symbol is Symbol.COLON:
+            return self.arg_colon()
+        return State.DEFAULT
-- 
2.43.0


From 49a7710c45b75d2ee250c61d52a07b0ade489ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 064/187] fix: a new reservoir doesn't overwrite that of
 another variable, once assigned from a variable with the same name, or hidden
 by a pipeline parameter

---
 marcel/nestednamespace.py  |  5 +++++
 marcel/object/workspace.py | 16 +++++++++++++++-
 marcel/op/store.py         |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 83b6342..ee65ae7 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -436,6 +436,11 @@ class NestedNamespace(dict):
         for var, value in popped_scope.hidden.items():
             super().__setitem__(var, value)
 
+    # The values of variables hidden by pipeline params with the same names.
+    def hidden_values(self):
+        for scope in self.scopes:
+            yield from scope.hidden.values()
+
     def current_scope(self):
         return self.scopes[-1]
 
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index c77a959..8e26c06 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -199,9 +199,23 @@ class VarHandler(object):
     # var is about to be deleted or assigned a different value. Its reservoir is deleted, unless it
     # is also the value of another variable.
     def delete_reservoir(self, var, reservoir):
-        if not any(other != var and value == reservoir for other, value in self.reservoirs()):
+        if not (any(other != var and value == reservoir for other, value in self.reservoirs()) or
+                any(value == reservoir for value in self.namespace.hidden_values())):
             reservoir.ensure_deleted()
 
+    # Path for a new reservoir. Another variable (possibly one hidden by a pipeline param) may have the usual
+    # path for var.
+    def new_reservoir_path(self, var):
+        in_use = {value.path for _, value in self.reservoirs()}
+        in_use.update(value.path for value in self.namespace.hidden_values()
+                      if type(value) is marcel.reservoir.Reservoir)
+        n = 0
+        path = self.locations.data_ws_res(self, var)
+        while path in in_use:
+            n += 1
+            path = self.locations.data_ws_res(self, f'{var}-{n}')
+        return path
+
     # Returns (var, value), where type(value) is Reservoir.
     def reservoirs(self):
         reservoirs = []
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 865990f..5bfdb26 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -104,7 +104,7 @@ class Store(marcel.core.Op):
                         f'A stream cannot be appended to {self.var} '
                         f'because it stores a value of type {type(value)}.')
                 if type(value) is not Reservoir:
-                    value = Reservoir(self.var, env.locations.data_ws_res(env.workspace, self.var))
+                    value = Reservoir(self.var, env.workspace.new_reservoir_path(self.var))
                     append = False  # Ignore the contents of any reservoir that var used to refer to.
                 self.reservoir = value
                 env.setvar(self.var, value)
-- 
2.43.0


From 30773123047a4e7d313ad345f621750117ff6973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 065/187] fix: read reports a file that can't be opened or
 parsed as an error for that file, instead of ignoring it, or ending the
 session

---
 marcel/op/read.py | 87 +++++++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 30 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index a95a139..5106095 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -231,6 +231,17 @@ class Reader:
     def read_file(self, env, file, label):
         assert False
 
+    def open(self, env, file):
+        try:
+            return open(file.path, 'r')
+        except OSError as e:
+            self.unreadable(env, file, e)
+
+    # file can't be opened, or its contents aren't in the expected format. This raises a KillAndResumeException,
+    # so other files will be read.
+    def unreadable(self, env, file, e):
+        self.op.fatal_error(env, file, f'Unable to read {file.path}: {e}')
+
 
 class TextReader(Reader):
 
@@ -238,17 +249,18 @@ class TextReader(Reader):
         super().__init__(op)
 
     def read_file(self, env, file, label):
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
-            try:
-                line = input.readline()
-                while len(line) > 0:
-                    line = line.rstrip('\r\n')
-                    self.op.send(env, label + (line,) if label else line)
-                    line = input.readline()
-            except StopIteration:
-                pass
+        with self.open(env, file) as input:
+            line = self.read_line(env, file, input)
+            while len(line) > 0:
+                line = line.rstrip('\r\n')
+                self.op.send(env, label + (line,) if label else line)
+                line = self.read_line(env, file, input)
+
+    def read_line(self, env, file, input):
+        try:
+            return input.readline()
+        except ValueError as e:  # Not text
+            self.unreadable(env, file, e)
 
 
 class PickleReader(Reader):
@@ -257,13 +269,19 @@ class PickleReader(Reader):
         super().__init__(op)
 
     def read_file(self, env, file, label):
-        with marcel.picklefile.PickleFile(file.path).reader() as input:
-            try:
-                while True:
+        try:
+            reader = marcel.picklefile.PickleFile(file.path).reader()
+        except OSError as e:
+            self.unreadable(env, file, e)
+        with reader as input:
+            while True:
+                try:
                     x = input.read()
-                    self.op.send(env, (label, x) if label else x)
-            except EOFError:
-                pass
+                except EOFError:
+                    break
+                except Exception as e:  # Unpickling can fail in any number of ways
+                    self.unreadable(env, file, e)
+                self.op.send(env, (label, x) if label else x)
 
 
 class JSONReader(Reader):
@@ -272,13 +290,12 @@ class JSONReader(Reader):
         super().__init__(op)
 
     def read_file(self, env, file, label):
-        lines = None
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
-            lines = input.readlines()
-        assert lines is not None
-        json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
+        with self.open(env, file) as input:
+            try:
+                lines = input.readlines()
+                json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
+            except (ValueError, RecursionError) as e:  # Not text, or not JSON
+                self.unreadable(env, file, e)
         self.op.send(env, json)
 
 
@@ -296,16 +313,14 @@ class CSVReader(Reader):
         self.n_columns = None
 
     def read_file(self, env, file, label):
-        with marcel.util.open_file(file.path,
-                                   'r',
-                                   marcel.exception.KillAndResumeException) as input:
+        with self.open(env, file) as input:
             try:
                 first = True
-                line = input.readline()
+                line = self.read_line(env, file, input)
                 while len(line) > 0:
                     line = line.rstrip('\r\n')
                     self.input.set_current(line)
-                    out = tuple(next(self.reader))
+                    out = self.parse_line(env, file)
                     if first and (self.headings or self.skip_headings):
                         if self.headings:
                             try:
@@ -332,11 +347,23 @@ class CSVReader(Reader):
                                 out = None
                         if out is not None:
                             self.op.send(env, out)
-                    line = input.readline()
+                    line = self.read_line(env, file, input)
                     first = False
             except StopIteration:
                 pass
 
+    def read_line(self, env, file, input):
+        try:
+            return input.readline()
+        except ValueError as e:  # Not text
+            self.unreadable(env, file, e)
+
+    def parse_line(self, env, file):
+        try:
+            return tuple(next(self.reader))
+        except csv.Error as e:
+            self.unreadable(env, file, e)
+
     def extract_headings(self, fields):
         headings = []
         if self.op.label:
-- 
2.43.0


From cee15b0904985ef419a5e6b05637477df1360fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 066/187] fix: read --csv and --tsv read fields containing
 end-of-line characters, and lines following a blank line

---
 marcel/op/read.py | 117 +++++++++++++++++-----------------------------
 1 file changed, 44 insertions(+), 73 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index 5106095..d570165 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -231,9 +231,9 @@ class Reader:
     def read_file(self, env, file, label):
         assert False
 
-    def open(self, env, file):
+    def open(self, env, file, newline=None):
         try:
-            return open(file.path, 'r')
+            return open(file.path, 'r', newline=newline)
         except OSError as e:
             self.unreadable(env, file, e)
 
@@ -304,8 +304,7 @@ class CSVReader(Reader):
 
     def __init__(self, op, delimiter):
         super().__init__(op)
-        self.input = InputIterator(self)
-        self.reader = csv.reader(self.input, delimiter=delimiter)
+        self.delimiter = delimiter
         self.headings = op.headings
         self.skip_headings = op.skip_headings
         # For --headings
@@ -313,55 +312,48 @@ class CSVReader(Reader):
         self.n_columns = None
 
     def read_file(self, env, file, label):
-        with self.open(env, file) as input:
-            try:
-                first = True
-                line = self.read_line(env, file, input)
-                while len(line) > 0:
-                    line = line.rstrip('\r\n')
-                    self.input.set_current(line)
-                    out = self.parse_line(env, file)
-                    if first and (self.headings or self.skip_headings):
-                        if self.headings:
-                            try:
-                                headings = self.extract_headings(out)
-                                self.named_tuple = namedtuple('csvtuple', headings)
-                                self.n_columns = len(headings)
-                            except ValueError as e:
-                                self.op.non_fatal_error(env,
-                                                        line,
-                                                        f'Cannot generate identifiers from headings: {e}')
-                    else:
-                        if label:
-                            out = label + tuple(out)
-                        if self.named_tuple:
-                            try:
-                                if len(out) < self.n_columns:
-                                    out = out + ((None,) * (self.n_columns - len(out)))
-                                out = self.named_tuple(*out)
-                            except Exception as e:
-                                self.op.non_fatal_error(env,
-                                                        line,
-                                                        'Incompatible with headings, '
-                                                        '(probably too many fields).')
-                                out = None
-                        if out is not None:
-                            self.op.send(env, out)
-                    line = self.read_line(env, file, input)
-                    first = False
-            except StopIteration:
-                pass
-
-    def read_line(self, env, file, input):
-        try:
-            return input.readline()
-        except ValueError as e:  # Not text
-            self.unreadable(env, file, e)
-
-    def parse_line(self, env, file):
+        # A quoted field can contain end-of-line characters, so records aren't the same as lines. newline='' leaves
+        # the handling of end-of-line characters to csv.reader.
+        with self.open(env, file, newline='') as input:
+            reader = csv.reader(input, delimiter=self.delimiter)
+            first = True
+            out = self.read_record(env, file, reader)
+            while out is not None:
+                if first and (self.headings or self.skip_headings):
+                    if self.headings:
+                        try:
+                            headings = self.extract_headings(out)
+                            self.named_tuple = namedtuple('csvtuple', headings)
+                            self.n_columns = len(headings)
+                        except ValueError as e:
+                            self.op.non_fatal_error(env,
+                                                    self.delimiter.join(out),
+                                                    f'Cannot generate identifiers from headings: {e}')
+                else:
+                    fields = out
+                    if label:
+                        out = label + tuple(out)
+                    if self.named_tuple:
+                        try:
+                            if len(out) < self.n_columns:
+                                out = out + ((None,) * (self.n_columns - len(out)))
+                            out = self.named_tuple(*out)
+                        except Exception as e:
+                            self.op.non_fatal_error(env,
+                                                    self.delimiter.join(fields),
+                                                    'Incompatible with headings, '
+                                                    '(probably too many fields).')
+                            out = None
+                    if out is not None:
+                        self.op.send(env, out)
+                out = self.read_record(env, file, reader)
+                first = False
+
+    def read_record(self, env, file, reader):
         try:
-            return tuple(next(self.reader))
-        except csv.Error as e:
+            record = next(reader, None)
+            return None if record is None else tuple(record)
+        except (ValueError, csv.Error) as e:  # ValueError: Not text
             self.unreadable(env, file, e)
 
     def extract_headings(self, fields):
@@ -378,24 +370,3 @@ class CSVReader(Reader):
             # namedtuple construction will complain if this is the case.
             headings.append(field)
         return headings
-
-
-class InputIterator:
-
-    def __init__(self, op):
-        self.op = op
-        self.current = None
-
-    def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self.current:
-            next = self.current
-            self.current = None
-            return next
-        else:
-            raise StopIteration()
-
-    def set_current(self, x):
-        self.current = x
-- 
2.43.0


From 03107f9cc1d5a61ba8f35d349d2f01613a2fa32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 067/187] fix: headings of one file are not applied to the
 next, if that one's headings are unusable

---
 marcel/op/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index d570165..c328f10 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -317,6 +317,9 @@ class CSVReader(Reader):
         with self.open(env, file, newline='') as input:
             reader = csv.reader(input, delimiter=self.delimiter)
             first = True
+            # Headings of a previously read file don't apply to this one.
+            self.named_tuple = None
+            self.n_columns = None
             out = self.read_record(env, file, reader)
             while out is not None:
                 if first and (self.headings or self.skip_headings):
-- 
2.43.0


From 7f2c6823240a89cbd4aaf246764ae9358df2d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 068/187] fix: read --label adds the label to --json output,
 and as the first value of --pickle output

---
 marcel/op/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index c328f10..f446d52 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -281,7 +281,7 @@ class PickleReader(Reader):
                     break
                 except Exception as e:  # Unpickling can fail in any number of ways
                     self.unreadable(env, file, e)
-                self.op.send(env, (label, x) if label else x)
+                self.op.send(env, label + (tuple(x) if type(x) in (tuple, list) else (x,)) if label else x)
 
 
 class JSONReader(Reader):
@@ -296,7 +296,7 @@ class JSONReader(Reader):
                 json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
             except (ValueError, RecursionError) as e:  # Not text, or not JSON
                 self.unreadable(env, file, e)
-        self.op.send(env, json)
+        self.op.send(env, label + (json,) if label else json)
 
 
 class CSVReader(Reader):
-- 
2.43.0


From a3a2e93ef7745a94ef7abf42e4af92037623bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 069/187] fix: write --pickle resolves ~, and reports a file
 that can't be opened, instead of ending the session

---
 marcel/op/write.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index 9affd23..bd816df 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -303,7 +303,11 @@ class PickleWriter(Writer):
     def __init__(self, op):
         super().__init__(op)
         assert op.filename is not None  # Should have been checked in setup
-        self.writer = marcel.picklefile.PickleFile(op.filename).writer(op.append)
+        path = pathlib.Path(os.path.normpath(op.filename)).expanduser()
+        try:
+            self.writer = marcel.picklefile.PickleFile(path).writer(op.append)
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'Unable to open {path}: {e}')
 
     def receive(self, env, x):
         self.writer.write(x)
-- 
2.43.0


From 576c74a32ee10ad170ded7008b1f0eaca8098a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 070/187] fix: timer accepts an expression as the interval, and
 rejects an unusable one, instead of hanging

---
 marcel/op/timer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/op/timer.py b/marcel/op/timer.py
index f583f00..ec6de6d 100644
--- a/marcel/op/timer.py
+++ b/marcel/op/timer.py
@@ -59,8 +59,11 @@ class Timer(marcel.core.Op):
     # AbstractOp
     
     def setup(self, env):
+        interval = self.eval_function(env, 'interval', int, float)
+        if interval < 0:
+            raise marcel.exception.KillCommandException(f'timer interval must not be negative: {interval}')
         self.lock = threading.Condition()
-        self.metronome = Metronome(self)
+        self.metronome = Metronome(self, interval)
 
     # AbstractOp
     
@@ -100,9 +103,9 @@ class Timer(marcel.core.Op):
 
 class Metronome(threading.Thread):
 
-    def __init__(self, op):
+    def __init__(self, op, interval):
         threading.Thread.__init__(self)
-        self.interval = op.interval
+        self.interval = interval
         self.timer = op
         self.daemon = True
 
-- 
2.43.0


From 348ebd3d271d51d803762280ad0328662a2b40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 071/187] fix: edit --startup WORKSPACE raised a TypeError

---
 marcel/op/edit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index 18edc7d..855b2ae 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -90,7 +90,7 @@ class Edit(marcel.core.Op):
             workspace = env.workspace
         else:
             workspace = marcel.object.workspace.Workspace.named(self.ws_name)
-            if not workspace.exists(env):
+            if not workspace.exists():
                 raise marcel.exception.KillCommandException(f'Workspace does not exist: {self.ws_name}')
         marcel.runeditor.edit_file(env, env.locations.config_ws_startup(workspace))
 
-- 
2.43.0


From 7b1e0a72db0dbf3fee339613d64d791465b1f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 072/187] fix: read skips a file that can't be opened, whatever
 its format

---
 marcel/op/read.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index f446d52..2d50deb 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -235,9 +235,13 @@ class Reader:
         try:
             return open(file.path, 'r', newline=newline)
         except OSError as e:
-            self.unreadable(env, file, e)
+            self.inaccessible(e)
+
+    # file can't be opened. Go on to the next one.
+    def inaccessible(self, e):
+        raise marcel.exception.KillAndResumeException(str(e))
 
-    # file can't be opened, or its contents aren't in the expected format. This raises a KillAndResumeException,
+    # The contents of file aren't in the expected format. This raises a KillAndResumeException,
     # so other files will be read.
     def unreadable(self, env, file, e):
         self.op.fatal_error(env, file, f'Unable to read {file.path}: {e}')
@@ -272,7 +276,7 @@ class PickleReader(Reader):
         try:
             reader = marcel.picklefile.PickleFile(file.path).reader()
         except OSError as e:
-            self.unreadable(env, file, e)
+            self.inaccessible(e)
         with reader as input:
             while True:
                 try:
-- 
2.43.0


From 4c75d7547df19ad2679061853e3d3fc69310b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 073/187] fix: an error of ls with File or Path arguments ended
 the session

---
 marcel/op/ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/ls.py b/marcel/op/ls.py
index f0cf6da..30cc6b2 100644
--- a/marcel/op/ls.py
+++ b/marcel/op/ls.py
@@ -100,7 +100,7 @@ class Ls(marcel.op.filenamesop.FilenamesOp):
         if len(include) > 0:
             buffer.append(f'include={include}')
         if self.filenames:
-            buffer.extend(self.filenames)
+            buffer.extend(str(f) for f in self.filenames)
         args = ','.join(buffer)
         return f'ls({args})'
 
-- 
2.43.0


From cb6c321acf46277e81c9b7b5623bb1777cb53f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 074/187] fix: ls of a file in a directory that can't be
 searched ended the session; ls of a broken link showed '.'

---
 marcel/op/filenamesop.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index dc8d805..11ea113 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -105,6 +105,10 @@ class  FilenamesOp(marcel.core.Op):
         for root in self.roots:
             try:
                 self.visit(env, root, 0)
+            except PermissionError:
+                self.non_fatal_error(env, input=root, message='Permission denied')
+            except FileNotFoundError:
+                self.non_fatal_error(env, input=root, message='No such file or directory')
             except marcel.exception.KillAndResumeException:
                 pass
 
@@ -155,7 +159,10 @@ class  FilenamesOp(marcel.core.Op):
                     i += 1
                 nca = i
         self.base = pathlib.Path('/' + '/'.join(nca_parts[1:nca]))
-        if self.base.is_file():
+        try:
+            if not self.base.is_dir():
+                self.base = self.base.parent
+        except PermissionError:
             self.base = self.base.parent
 
     def dir_already_visited(self, path):
-- 
2.43.0


From 65c35bf62135fd73c05f85a23fd59dffab1a2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 075/187] fix: ls didn't find a named file in a directory that
 can be searched but not listed

---
 marcel/op/filenames.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index ec34586..0474f08 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -16,6 +16,7 @@
 import glob
 import os
 import pathlib
+import re
 
 import marcel.exception
 import marcel.object.file
@@ -71,8 +72,29 @@ class Filenames(object):
 
     @staticmethod
     def _paths(pattern):
-        # Proceed as if path is a glob pattern, but this works for non-globs too.
+        # Patterns are expanded one component at a time. Directories are listed only to match components that really
+        # are patterns, because a file can be accessible even if its directory cannot be listed.
+        paths = [Filenames.ROOT]
         try:
-            return [Filenames.ROOT] if pattern == '/' else list(Filenames.ROOT.glob(pattern[1:]))
+            for component in pattern[1:].split('/') if pattern != '/' else []:
+                name = Filenames._unescape(component)
+                if name is None:
+                    paths = [path for parent in paths for path in Filenames._glob(parent, component)]
+                else:
+                    paths = [parent / name for parent in paths if os.path.lexists(parent / name)]
         except ValueError as e:
             raise marcel.exception.KillCommandException(f'{pattern}: {e}')
+        return paths
+
+    @staticmethod
+    def _glob(parent, pattern):
+        try:
+            return list(parent.glob(pattern))
+        except PermissionError:
+            return []
+
+    # The one name that the pattern (a component of a path) matches, or None if there isn't just one.
+    @staticmethod
+    def _unescape(pattern):
+        name = re.sub(r'\[([*?[])]', r'\1', pattern)
+        return name if glob.escape(name) == pattern or not glob.has_magic(pattern) else None
-- 
2.43.0


From 79f02501a2489614c34266af29cc20c837d40fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 076/187] fix: pushd of a file, or of a link that leads
 nowhere, ended the session or went to the home directory

---
 marcel/op/cd.py    | 3 ++-
 marcel/op/pushd.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/op/cd.py b/marcel/op/cd.py
index 9262220..4664fdc 100644
--- a/marcel/op/cd.py
+++ b/marcel/op/cd.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import os
 import pathlib
 
 import marcel.argsparser
@@ -67,7 +68,7 @@ class Cd(marcel.core.Op):
             raise marcel.exception.KillCommandException('No qualifying path')
         elif len(dirs) > 1:
             raise marcel.exception.KillCommandException('Too many paths')
-        elif not dirs[0].is_dir():
+        elif not os.path.isdir(dirs[0]):
             raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
         self.directory = dirs[0]
 
diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 5836cfa..e80af51 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import os
 import pathlib
 
 import marcel.argsparser
@@ -73,6 +74,8 @@ class Pushd(marcel.core.Op):
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
                 raise marcel.exception.KillCommandException('Too many paths')
+            elif not os.path.isdir(dirs[0]):
+                raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
             self.directory = dirs[0]
 
     def run(self, env):
-- 
2.43.0


From 340127669e5c5735b57dd819940dc19a7fd0507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 077/187] fix: the directory stack lost an entry, or raised
 IndexError, after the current directory was removed

---
 marcel/directorystate.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/marcel/directorystate.py b/marcel/directorystate.py
index 2c319d9..cb20a1d 100644
--- a/marcel/directorystate.py
+++ b/marcel/directorystate.py
@@ -43,10 +43,10 @@ class DirectoryState:
             new_dir = new_dir.as_posix()
             # So that executables have the same view of the current directory.
             os.chdir(new_dir)
-            if len(dir_stack) == 0:
-                dir_stack.append(new_dir)
-            else:
+            if self._current_dir_on_stack():
                 dir_stack[-1] = new_dir
+            else:
+                dir_stack.append(new_dir)
             self.env.assign_permanent('PWD', new_dir)
         else:
             home = pathlib.Path.home().resolve()
@@ -67,20 +67,23 @@ class DirectoryState:
         else:
             assert isinstance(directory, pathlib.Path)
             dir_stack.append(directory.resolve().as_posix())
-        self.change_current_dir(pathlib.Path(dir_stack[-1]))
+        if len(dir_stack) > 0:
+            self.change_current_dir(pathlib.Path(dir_stack[-1]))
         self.env.assign_permanent('DIRS', dir_stack)
 
     def pop_dir(self):
         self._clean_dir_stack()
         dir_stack = self._dir_stack()
-        if len(dir_stack) > 1:
-            self.change_current_dir(pathlib.Path(dir_stack[-2]))
+        # If the current directory is no longer on the stack, then its removal was the pop.
+        new_top = -2 if self._current_dir_on_stack() else -1
+        if len(dir_stack) >= -new_top:
+            self.change_current_dir(pathlib.Path(dir_stack[new_top]))
             dir_stack.pop()
 
     def reset_dir_stack(self):
         dir_stack = self._dir_stack()
         dir_stack.clear()
-        dir_stack.append(self.current_dir())
+        dir_stack.append(self.current_dir().as_posix())
 
     def dirs(self):
         self._clean_dir_stack()
@@ -91,7 +94,12 @@ class DirectoryState:
     def _dir_stack(self):
         return self.env.getvar('DIRS')
 
-    # Remove entries that are not files, and not accessible, (presumably due to changes since they entered the stack).
+    # False if the current directory is gone, and has been removed from the stack for that reason.
+    def _current_dir_on_stack(self):
+        dir_stack = self._dir_stack()
+        return len(dir_stack) > 0 and str(dir_stack[-1]) == self.env.getvar('PWD')
+
+    # Remove entries that are not accessible directories, (presumably due to changes since they entered the stack).
     def _clean_dir_stack(self):
         clean = []
         removed = []
@@ -99,7 +107,7 @@ class DirectoryState:
         for dir in dirs:
             if isinstance(dir, pathlib.Path):
                 dir = dir.as_posix()
-            if os.path.exists(dir) and os.access(dir, mode=os.X_OK, follow_symlinks=True):
+            if os.path.isdir(dir) and os.access(dir, mode=os.X_OK, follow_symlinks=True):
                 clean.append(dir)
             else:
                 removed.append(dir)
-- 
2.43.0


From 7ea2306fb7ff151036bbdfc36aeccd7382627514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 078/187] fix: a variable whose value is a builtin method, e.g.
 'abc'.upper, made it impossible to reopen the workspace

---
 marcel/nestednamespace.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index ee65ae7..00ce029 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -112,7 +112,16 @@ class EnvValue(object):
     def wrap(env, value, source=None):
         def is_pipeline(value):
             return isinstance(value, marcel.pipeline.Pipeline)
-        if inspect.isbuiltin(value):
+
+        # Can value be obtained later by importing it? Not so for a builtin method of an object, for example.
+        def is_importable(value):
+            try:
+                return (inspect.isroutine(value) and
+                        marcel.util.import_symbol(value.__module__, value.__name__) is value)
+            except Exception:
+                return False
+
+        if is_importable(value):
             ev = Function(env)
             ev.assign(value)
         elif inspect.ismodule(value):
-- 
2.43.0


From 8a0e80fe14c315f58f7b6ad8face0d4b73243645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 079/187] fix: after x = (y), for a pipeline or function y, x
 was restored incorrectly, or the workspace could not be reopened

---
 marcel/nestednamespace.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 00ce029..8b964da 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -132,7 +132,8 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            ev.assign(value, value.source if source is None else source)
+            # source denotes another variable, in an assignment such as x = (y)
+            ev.assign(value, source if value.source is None else value.source)
         else:
             ev = Simple(env)
             ev.assign(value)
@@ -341,6 +342,14 @@ class Scope(dict):
 
     def assign(self, var, value, source=None):
         assert not isinstance(value, EnvValue)
+        # In an assignment such as x = (y), where y is a function, the source refers to y, which may be reassigned.
+        scope = self
+        while scope is not None:
+            for ev in scope.values():
+                if isinstance(ev, CompilableFunction) and ev.cached is value:
+                    self.store_item(var, ev)
+                    return
+            scope = scope.parent
         self.store_item(var, EnvValue.wrap(self.env, value, source))
 
     def assign_import(self, var, module, symbol, value):
-- 
2.43.0


From 1fa9a2bf66543c1af5926fe387b50e43c5720856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 080/187] fix: a variable that can't be restored, possibly just
 because of the order of variables, made it impossible to open the workspace

---
 marcel/nestednamespace.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 8b964da..ba36ae0 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -127,7 +127,7 @@ class EnvValue(object):
         elif inspect.ismodule(value):
             ev = Module(env)
             ev.assign(value)
-        elif callable(value):
+        elif callable(value) and source is not None:
             ev = CompilableFunction(env)
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
@@ -231,7 +231,6 @@ class Module(EnvValue):
 
     def from_persistent_state(self, persisted):
         self.module_name = persisted['module_name']
-        return marcel.util.import_module(self.module_name)
 
     def reconstitute(self):
         return marcel.util.import_module(self.module_name)
@@ -476,7 +475,19 @@ class NestedNamespace(dict):
             classname, persisted_state = persisted_value
             value = EnvValue.restore(env, classname, persisted_state)
             scope.__setitem__(var, value)
-            super().__setitem__(var, value.unwrap())
+        # The source of a function may refer to other variables, in which case they have to be restored first.
+        unrestored = list(persisted)
+        errors = None
+        while errors is None or len(errors) < len(unrestored):
+            unrestored = unrestored if errors is None else list(errors)
+            errors = {}
+            for var in unrestored:
+                try:
+                    super().__setitem__(var, scope[var].unwrap())
+                except Exception as e:
+                    errors[var] = e
+        for var, e in errors.items():
+            marcel.util.print_to_stderr(env, f'Unable to restore the value of {var}: {e}')
 
     # TODO: With set_env, is reconstitute needed? That's just an eager form of reconstitution.
     # TODO: Having the env available in all the EnvValues is a lazy form.
-- 
2.43.0


From b687443ba5d4b9648f4325d27b6fcb69076b6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 081/187] fix: a variable whose value can't be pickled, or
 contains a function, destroyed all variables of the workspace

---
 marcel/object/workspace.py | 59 ++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 8e26c06..e1cb507 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -13,9 +13,11 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import io
 import shutil
 import pathlib
 import time
+import types
 
 import dill
 import psutil
@@ -226,6 +228,35 @@ class VarHandler(object):
         return reservoirs
 
 
+# A function defined in a marcel expression has a reference to the namespace. E.g., the value of a variable can be a
+# list of such functions. The namespace itself must not be pickled with the function.
+class EnvironmentPickler(dill.Pickler):
+
+    def __init__(self, file, namespace):
+        super().__init__(file)
+        self.namespace = namespace
+
+    def persistent_id(self, x):
+        return 'namespace' if x is self.namespace and x is not None else None
+
+    def reducer_override(self, x):
+        return ((types.FunctionType,
+                 (x.__code__, x.__globals__, x.__name__, x.__defaults__, x.__closure__),
+                 (None, {'__kwdefaults__': x.__kwdefaults__}))
+                if type(x) is types.FunctionType and x.__globals__ is self.namespace else
+                NotImplemented)
+
+
+class EnvironmentUnpickler(dill.Unpickler):
+
+    def __init__(self, file, namespace):
+        super().__init__(file)
+        self.namespace = namespace
+
+    def persistent_load(self, id):
+        return self.namespace
+
+
 class Workspace(marcel.object.renderable.Renderable, VarHandler):
     DEFAULT = None
 
@@ -289,7 +320,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 assert type(reservoir) is marcel.reservoir.Reservoir
                 reservoir.close()
             # Environment
-            self.write_environment(self.persistent_state())
+            self.write_environment(self.persistent_state(), env)
             # Mark this workspace object as closed
             self.properties = None
             # Discard workspace
@@ -460,14 +491,30 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
-                unpickler = dill.Unpickler(environment_file)
+                unpickler = EnvironmentUnpickler(environment_file, self.namespace)
                 return unpickler.load()
 
-    def write_environment(self, persistent_state):
+    def write_environment(self, persistent_state, env=None):
         assert persistent_state is not None
+        # Pickle before opening the file, so that a value that can't be pickled doesn't destroy the file.
+        try:
+            pickled = self.pickle_environment(persistent_state)
+        except Exception:
+            picklable = {}
+            for var, state in persistent_state.items():
+                try:
+                    self.pickle_environment(state)
+                    picklable[var] = state
+                except Exception as e:
+                    marcel.util.print_to_stderr(env, f'Unable to save the value of {var}: {e}')
+            pickled = self.pickle_environment(picklable)
         with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            pickler = dill.Pickler(environment_file)
-            pickler.dump(persistent_state)
+            environment_file.write(pickled)
+
+    def pickle_environment(self, state):
+        buffer = io.BytesIO()
+        EnvironmentPickler(buffer, self.namespace).dump(state)
+        return buffer.getvalue()
 
     # Return pid of owning process, or None if unowned.
     def owner(self):
@@ -553,7 +600,7 @@ class WorkspaceDefault(Workspace):
                 if not restart:
                     reservoir.ensure_deleted()
         if restart:
-            self.write_environment(self.persistent_state())
+            self.write_environment(self.persistent_state(), env)
         else:
             self.locations.data_ws_env(self).unlink(missing_ok=True)
 
-- 
2.43.0


From d6138cdd9ec1906fe346d7b950a06bb4dbd1ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 082/187] fix: ws rejects names that can't be used for
 directories, e.g. a/b, .., or that of the default workspace's directory

---
 marcel/object/workspace.py | 13 ++++++++++++-
 marcel/op/ws.py            |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index e1cb507..1e365ef 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import io
+import os
 import shutil
 import pathlib
 import time
@@ -285,10 +286,20 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         return False
 
     def exists(self):
-        return self.marker.exists()
+        return self.is_name_valid() and self.marker.exists()
+
+    # The name of a workspace is also the name of its directories.
+    def is_name_valid(self):
+        return not (self.name in ('', '.', '..', marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME) or
+                    '/' in self.name or
+                    '\0' in self.name or
+                    len(os.fsencode(self.name)) > 255)
 
     def create(self):
         assert not self.exists()
+        if not self.is_name_valid():
+            raise marcel.exception.KillCommandException(
+                f'Workspace name must be usable as a legal filename: {self.name}')
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
         self.create_on_disk(initial_config_contents)
 
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index f4f1ce9..9665334 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -234,6 +234,8 @@ class WsImpl(object):
     def check_anon_arg_present(self, arg_name):
         if self.anon_arg is None:
             raise marcel.exception.KillCommandException(f'Anonymous argument {arg_name} required.')
+        if not isinstance(self.anon_arg, str):
+            raise marcel.exception.KillCommandException(f'{arg_name} must be a string.')
 
 
 class WsIdentify(WsImpl):
-- 
2.43.0


From c15b3ce161515e50c342c783f51a55c6940a2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 083/187] fix: opening or deleting a workspace whose owner died
 without closing it ended the session

---
 marcel/object/workspace.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 1e365ef..0608e61 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -450,7 +450,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             # Lock the file by renaming it. Check for success, to guard against another process trying to
             # lock the same workspace.
             owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
+            try:
+                self.marker.unowned().rename(owned_marker_path)
+            except FileNotFoundError:
+                # Another process locked, or deleted, the workspace.
+                return False
             return owned_marker_path.exists()
         elif owner == self.locations.pid:
             # Already locked
@@ -537,16 +541,15 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             return None
         # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
         self.delete_abandoned_markers()
-        # Now find the marker. Something is very wrong if there is anything other than one.
+        # Now find the marker of an owner, if there is one. Something is very wrong if there is more than one.
         marker_filename = None
         for file in self.locations.config_ws(self).iterdir():
-            if file.name.startswith(Marker.FILENAME_ROOT):
+            if file.name.startswith(Marker.FILENAME_ROOT) and file.name != Marker.FILENAME_ROOT:
                 if marker_filename is None:
                     marker_filename = file.name
                 else:
                     assert False, f'Multiple marker files in {self.locations.config_ws_startup(self)}'
-        assert marker_filename is not None
-        return Workspace.marker_filename_pid(marker_filename)
+        return None if marker_filename is None else Workspace.marker_filename_pid(marker_filename)
 
     def validate(self):
         return WorkspaceValidater(self).validate()
@@ -568,7 +571,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
                 pid = Workspace.marker_filename_pid(file.name)
                 if not marcel.util.process_exists(pid):
-                    file.unlink()
+                    # The workspace is now unowned. Renaming the marker, instead of deleting and creating it, guards
+                    # against another process doing the same thing, and possibly locking the workspace.
+                    try:
+                        file.rename(self.marker.unowned())
+                    except FileNotFoundError:
+                        pass
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
-- 
2.43.0


From a78cd02f557afb45c4517288314e2518ff1fc2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 084/187] fix: ws -o of a workspace in use by another process
 claimed success, and ended a script

---
 marcel/op/ws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index 9665334..213216c 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -301,6 +301,9 @@ class WsOpen(WsImpl):
         workspace = Workspace(name)
         if workspace.exists():
             if env.workspace.name != name:
+                # Lock now, so that the current workspace stays open if that's impossible.
+                if not workspace.lock_workspace():
+                    workspace.cannot_lock_workspace()
                 self.op.send(env, workspace)
                 self.reconfigure(workspace)
                 # The workspace will be opened in the handling of the ReconfigurationException
-- 
2.43.0


From 3899b069b380d890e5d253dcddcb5e1295d4765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 085/187] fix: a marcel process run by another one could open
 and delete the other's workspace

---
 marcel/object/workspace.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 0608e61..700e02d 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -459,9 +459,6 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         elif owner == self.locations.pid:
             # Already locked
             return True
-        elif owner == self.locations.ppid:
-            # Locked by parent. This process must be owned by a job executing on behalf of the parent.
-            return True
         else:
             # Locked by another process
             if marcel.util.process_exists(owner):
-- 
2.43.0


From b1e589797d6f15b94b598fade2c86734e01f0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:36 +0000
Subject: [PATCH 086/187] fix: two processes creating a workspace at the same
 time could both own it

---
 marcel/object/workspace.py | 8 +++++++-
 marcel/op/ws.py            | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 700e02d..dc5ff97 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -301,6 +301,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             raise marcel.exception.KillCommandException(
                 f'Workspace name must be usable as a legal filename: {self.name}')
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
+        try:
+            # Fails if another process is creating a workspace with the same name.
+            self.locations.config_ws(self).mkdir()
+        except FileExistsError:
+            raise marcel.exception.KillCommandException(f'Workspace {self.name} already exists.')
         self.create_on_disk(initial_config_contents)
 
     def open(self, env, initial_namespace=None):
@@ -422,7 +427,6 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         config_file_path = locations.config_ws_startup(self)
         config_file_path.write_text(initial_config_contents)
         config_file_path.chmod(0o600)
-        self.marker.ensure_exists()
         # data
         self.create_dir(locations.data_ws(self))
         self.create_dir(locations.data_ws_res(self))
@@ -432,6 +436,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.properties = WorkspaceProperties()
             self.write_properties()
         locations.data_ws_hist(self).touch(mode=0o600, exist_ok=True)
+        # The workspace can be opened once it has a marker
+        self.marker.ensure_exists()
 
     def create_dir(self, dir):
         try:
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index 213216c..34d49c5 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -281,6 +281,8 @@ class WsNew(WsImpl):
             raise marcel.exception.KillCommandException(f'Workspace {name} already exists.')
         else:
             workspace.create()
+            if not workspace.lock_workspace():
+                workspace.cannot_lock_workspace()
             self.op.send(env, workspace)
             self.reconfigure(workspace)
 
-- 
2.43.0


From e69e89456f1487b57bfb28c69e85d3999705fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 087/187] fix: an error in the default workspace's startup
 script was reported forever

---
 marcel/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/main.py b/marcel/main.py
index d79147b..6696d67 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -286,6 +286,8 @@ def main_interactive_run():
         try:
             env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
         except Exception as e:
+            if workspace.is_default():
+                raise
             # Something ws-related? Try starting in default
             marcel.util.print_to_stderr(
                 old_env,
@@ -383,7 +385,7 @@ def main():
                 raise marcel.exception.KillShellException('Unable to determine input source!')
             started = True
         except marcel.exception.StartupScriptException as e:
-            print(str(e), file=sys.stderr)
+            fail(str(e))
         except:
             raise
 
-- 
2.43.0


From 3039ce67cf8df5df9e4d3f3016f429ca2f4ee84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:34 +0000
Subject: [PATCH 088/187] fix: damage to the default workspace moved all
 workspaces to the broken area

---
 marcel/main.py                    | 2 +-
 marcel/persistence/persistence.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 6696d67..6ceec69 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -146,7 +146,7 @@ class MainScript(Main):
             for validation_error in errors:
                 marcel.util.print_to_stderr(self.env, str(validation_error))
                 ws_name = validation_error.workspace_name
-                broken_ws = Workspace (ws_name)
+                broken_ws = Workspace(ws_name) if ws_name else Workspace.default()
                 started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
                 broken_ws.mark_broken(now)
             if started_in_broken_ws:
diff --git a/marcel/persistence/persistence.py b/marcel/persistence/persistence.py
index a730476..9cd0367 100644
--- a/marcel/persistence/persistence.py
+++ b/marcel/persistence/persistence.py
@@ -57,12 +57,12 @@ def validate_all(error_handler):
     data_workspace_names = set([f.name for f in locations.data_ws().iterdir()])
     broken_workspace_names = set()
     for missing_data_dir in (config_workspace_names - data_workspace_names):
-        broken = Workspace(missing_data_dir)
-        broken_workspace_names.add(broken.name)
+        broken = workspace_named(missing_data_dir)
+        broken_workspace_names.add(missing_data_dir)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.data_ws(broken)} is missing'))
     for missing_config_dir in (data_workspace_names - config_workspace_names):
-        broken = Workspace(missing_config_dir)
-        broken_workspace_names.add(broken.name)
+        broken = workspace_named(missing_config_dir)
+        broken_workspace_names.add(missing_config_dir)
         errors.append(WorkspaceValidater.Error(broken.name, f'{locations.config_ws(broken)} is missing'))
     # Validate each workspace. Don't rely on Workspace.list(), which assumes valid workspaces.
     # E.g., a missing marker file will cause the broken workspace to not be included in the output.
-- 
2.43.0


From d866a44c9dbdbadb28bba1b535bb4fe3379aae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 089/187] fix: damage to the default workspace made it
 impossible to start marcel

---
 marcel/main.py | 64 ++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 6ceec69..6ee6f71 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -133,31 +133,16 @@ class MainScript(Main):
     # Internal
 
     def handle_persistence_validation_errors(self, broken_workspace_names, errors):
-        if len(errors) > 0:
-            now = time.time()
-            broken_ws_config = self.env.locations.config_bws() / str(now)
-            broken_ws_data = self.env.locations.data_bws() / str(now)
-            marcel.util.print_to_stderr(self.env,
-                                        f'Damaged workspaces have been detected: {sorted(broken_workspace_names)}. '
-                                        f'Their contents will be moved to:'
-                                        f'\n    {broken_ws_config}'
-                                        f'\n    {broken_ws_data}')
-            started_in_broken_ws = False
-            for validation_error in errors:
-                marcel.util.print_to_stderr(self.env, str(validation_error))
-                ws_name = validation_error.workspace_name
-                broken_ws = Workspace(ws_name) if ws_name else Workspace.default()
-                started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
-                broken_ws.mark_broken(now)
-            if started_in_broken_ws:
-                # This marks this MainScript object as needing a restart. Don't want to continue with a broken
-                # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
-                # is messy, since we're then shutting down an incompletely initialized main.
-                self.needs_restart = True
-                message = ('Default workspace was damaged. Starting in a recreated default workspace.'
-                           if self.env.workspace.is_default() else
-                           f'Selected workspace {self.env.workspace.name} is damaged, starting in default workspace.')
-                marcel.util.print_to_stderr(self.env, message)
+        quarantine_broken_workspaces(self.env, broken_workspace_names, errors)
+        if any(self.env.workspace.name == error.workspace_name for error in errors):
+            # This marks this MainScript object as needing a restart. Don't want to continue with a broken
+            # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
+            # is messy, since we're then shutting down an incompletely initialized main.
+            self.needs_restart = True
+            if not self.env.workspace.is_default():
+                marcel.util.print_to_stderr(
+                    self.env,
+                    f'Selected workspace {self.env.workspace.name} is damaged, starting in default workspace.')
 
     def run_startup_scripts(self):
         startup_scripts = self.env.getvar('STARTUP_SCRIPTS')
@@ -273,6 +258,29 @@ def commands_in_script(script):
         yield command
 
 
+# env is None during startup.
+def quarantine_broken_workspaces(env, broken_workspace_names, errors):
+    if len(errors) > 0:
+        locations = marcel.locations.Locations()
+        now = time.time()
+        broken_ws_config = locations.config_bws() / str(now)
+        broken_ws_data = locations.data_bws() / str(now)
+        marcel.util.print_to_stderr(env,
+                                    f'Damaged workspaces have been detected: {sorted(broken_workspace_names)}. '
+                                    f'Their contents will be moved to:'
+                                    f'\n    {broken_ws_config}'
+                                    f'\n    {broken_ws_data}')
+        for validation_error in errors:
+            marcel.util.print_to_stderr(env, str(validation_error))
+            ws_name = validation_error.workspace_name
+            broken_ws = Workspace(ws_name) if ws_name else Workspace.default()
+            broken_ws.mark_broken(now)
+        if any(error.workspace_name == '' for error in errors):
+            Workspace.default().create_on_disk(marcel.persistence.storagelayout.default_initial_config())
+            marcel.util.print_to_stderr(env,
+                                        'Default workspace was damaged. Starting in a recreated default workspace.')
+
+
 def fail(message):
     print(message, file=sys.stderr)
     exit(1)
@@ -368,9 +376,9 @@ def read_script(script_path):
 def main():
     multiprocessing.set_start_method(os.getenv('MARCEL_MULTIPROCESSING_START_METHOD', default='spawn'))
     marcel.persistence.storagelayout.ensure_current(testing=False)
-    # Check that default workspace exists
-    if not Workspace.default().exists():
-        Workspace.default().does_not_exist()
+    # Check workspaces before opening one of them.
+    marcel.persistence.persistence.validate_all(
+        lambda broken_workspace_names, errors: quarantine_broken_workspaces(None, broken_workspace_names, errors))
     input_source = marcel.util.InputSource()
     started = False
     while not started:
-- 
2.43.0


From 0ce94676b781f1effcd6bf94295ee65baa79113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 090/187] fix: a file or directory of the wrong type, in a
 workspace, ended marcel at startup, or wasn't noticed

---
 marcel/object/workspace.py | 40 +++++++++++++++++++++++++-------------
 marcel/util.py             |  2 +-
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index dc5ff97..c51f6d9 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -561,19 +561,22 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         # TODO: Probably not OK to do the following to an open workspace. The marker file indicates in-use.
         locations = self.locations
         config_source = locations.config_ws(self)
-        if config_source.exists():
+        if os.path.lexists(config_source):
             config_target = locations.config_bws(self, now)
             shutil.move(config_source, config_target)
         data_source = locations.data_ws(self)
-        if data_source.exists():
+        if os.path.lexists(data_source):
             data_target = locations.data_bws(self, now)
             shutil.move(data_source, data_target)
 
     def delete_abandoned_markers(self):
         for file in self.locations.config_ws(self).iterdir():
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
-                pid = Workspace.marker_filename_pid(file.name)
-                if not marcel.util.process_exists(pid):
+                try:
+                    abandoned = not marcel.util.process_exists(Workspace.marker_filename_pid(file.name))
+                except ValueError:
+                    abandoned = True
+                if abandoned:
                     # The workspace is now unowned. Renaming the marker, instead of deleting and creating it, guards
                     # against another process doing the same thing, and possibly locking the workspace.
                     try:
@@ -675,6 +678,9 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
+        if not config_dir_path.is_dir():
+            self.not_a_directory(config_dir_path)
+            return self.errors
         # Workspace.owner() gets rid of unowned marker files.
         self.workspace.delete_abandoned_markers()
         if not self.workspace.marker.exists():
@@ -682,22 +688,22 @@ class WorkspaceValidater(object):
             # a process that no longer exists. Create a new marker.
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
-        if not locations.config_ws_startup(workspace).exists():
-            self.missing(locations.config_ws_startup(workspace))
+        self.validate_file(locations.config_ws_startup(workspace))
         # Config dir has nothing else.
         if len(list(config_dir_path.iterdir())) > 2:
             self.extraneous(config_dir_path)
         # Data dir exists
         if not locations.data_ws(workspace).exists():
             self.missing(locations.data_ws(workspace))
+        elif not locations.data_ws(workspace).is_dir():
+            self.not_a_directory(locations.data_ws(workspace))
         else:
             # env.pickle
             self.validate_env_file()
             # properties.pickle
             self.validate_properties_file()
             # history
-            if not locations.data_ws_hist(workspace).exists():
-                self.missing(locations.data_ws_hist(workspace))
+            self.validate_file(locations.data_ws_hist(workspace))
             # reservoirs
             if not locations.data_ws_res(workspace).exists():
                 self.missing(locations.data_ws_res(workspace))
@@ -715,14 +721,19 @@ class WorkspaceValidater(object):
     def validate_env_file(self):
         locations = self.locations
         workspace = self.workspace
-        if not locations.data_ws_env(workspace).exists():
-            self.missing(locations.data_ws_env(workspace))
+        self.validate_file(locations.data_ws_env(workspace))
 
     def validate_properties_file(self):
         locations = self.locations
         workspace = self.workspace
-        if not workspace.is_default() and not locations.data_ws_prop(workspace).exists():
-            self.missing(locations.data_ws_prop(workspace))
+        if not workspace.is_default():
+            self.validate_file(locations.data_ws_prop(workspace))
+
+    def validate_file(self, path):
+        if not path.exists():
+            self.missing(path)
+        elif not path.is_file():
+            self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is not actually a file'))
 
     def missing(self, path):
         self.errors.append(WorkspaceValidater.Error(self.workspace.name, f'{path} is missing'))
@@ -738,8 +749,9 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
 
     def validate(self):
         def delete_abandoned(dir, suffix):
-            for file in dir.iterdir():
-                if file.name.endswith(suffix):
+            # If dir isn't a directory, that will be noticed later.
+            for file in dir.iterdir() if dir.is_dir() else []:
+                if file.is_file() and file.name.endswith(suffix):
                     dot = file.name.find('.')
                     try:
                         file_pid = int(file.name[:dot])
diff --git a/marcel/util.py b/marcel/util.py
index 6f64e38..3937cca 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -204,7 +204,7 @@ def process_exists(pid):
     try:
         os.kill(pid, 0)
         return True
-    except ProcessLookupError:
+    except (ProcessLookupError, OverflowError):
         return False
     except PermissionError:
         return True
-- 
2.43.0


From 1c04276721749de9c6639e6ad38b8782f47d6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 091/187] fix: a missing, empty or truncated history file of
 the default workspace could prevent startup, or delete all histories

---
 marcel/persistence/storagelayout.py | 58 ++++++++++++++---------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 832e0ed..289b9ee 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 import datetime
 import pathlib
+import re
 import shutil
 
 import marcel.exception
@@ -256,6 +257,8 @@ class StorageLayoutWS3(StorageLayout):
         layout = None
         for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
             history_file = workspace_dir / 'history'
+            if not self.is_old_history(history_file):
+                continue
             history_file.unlink()
             # Write something that looks like a prompt_toolkit history file
             with open(history_file, 'w') as f:
@@ -268,13 +271,31 @@ class StorageLayoutWS3(StorageLayout):
         assert layout.layout() == 'pt'
         return layout
 
+    @staticmethod
+    def is_old_history(history_file):
+        # The top of a prompt_toolkit history looks like this:
+        #
+        #     # 2025-04-02 16:54:22.895547
+        #
+        # i.e., a blank line followed by a timestamp. An empty file is the history of a new workspace.
+        if not history_file.is_file():
+            return False
+        with open(history_file, 'rb') as f:
+            top = f.read(100)
+        return len(top) > 0 and not re.match(rb'\n# \d{4}-\d\d-\d\d \d\d:\d\d:\d\d', top)
+
     def match(self):
-        return (self.config.exists() and
-                (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists())
+        # The default workspace might be missing, due to damage. But in older layouts, 'workspace' could be a
+        # user's workspace.
+        return ((self.config / 'workspace').is_dir() and
+                ((self.config / 'workspace' / '__DEFAULT__').exists() or
+                 not ((self.config / '__DEFAULT_WORKSPACE__').exists() or
+                      (self.config / '.WORKSPACE').exists() or
+                      (self.config / 'startup.py').exists())))
+
 
 # Version >= 0.32.0. Switch from readline history format to that of prompt_toolkit.
-class StorageLayoutPromptToolkit(StorageLayout):
+class StorageLayoutPromptToolkit(StorageLayoutWS3):
 
     def layout(self):
         return 'pt'
@@ -283,29 +304,6 @@ class StorageLayoutPromptToolkit(StorageLayout):
         return None
 
     def match(self):
-        # Same layout as ws3, but the top of this history file looks like this:
-        #
-        #     # 2025-04-02 16:54:22.895547
-        # Look for a blank line followed by "# 2...-..-.. ..:  :  ."
-        #    positions:                      0  3  6  9  12 15 18 21
-        # where . is any character
-
-        if not (self.config.exists() and
-                (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists()):
-            return False
-        history_file = self.data / 'workspace' / '__DEFAULT__' / 'history'
-        if history_file.exists():
-            with open(history_file) as f:
-                l1 = f.readline().strip()
-                l2 = f.readline().strip()
-                if (len(l1) == 0 and len(l2) > 0 and
-                    l2[:3] == '# 2' and
-                    l2[6] == '-' and
-                    l2[9] == '-' and
-                    l2[12] == ' ' and
-                    l2[15] == ':' and
-                    l2[18] == ':' and
-                    l2[21] == '.'):
-                    return True
-        return False
\ No newline at end of file
+        # Same layout as ws3, but with prompt_toolkit history.
+        return (super().match() and
+                not self.is_old_history(self.data / 'workspace' / '__DEFAULT__' / 'history'))
-- 
2.43.0


From a66332e89fa45c0186624c8f09d75b6c07b43235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 092/187] fix: marcel could not be started after being
 interrupted while creating its directories

---
 marcel/persistence/persistence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/persistence/persistence.py b/marcel/persistence/persistence.py
index 9cd0367..a5d43c5 100644
--- a/marcel/persistence/persistence.py
+++ b/marcel/persistence/persistence.py
@@ -56,6 +56,10 @@ def validate_all(error_handler):
     config_workspace_names = set([f.name for f in locations.config_ws().iterdir()])
     data_workspace_names = set([f.name for f in locations.data_ws().iterdir()])
     broken_workspace_names = set()
+    default_name = locations.DEFAULT_WORKSPACE_DIR_NAME
+    if not (default_name in config_workspace_names or default_name in data_workspace_names):
+        broken_workspace_names.add(default_name)
+        errors.append(WorkspaceValidater.Error('', f'{locations.config_ws(Workspace.default())} is missing'))
     for missing_data_dir in (config_workspace_names - data_workspace_names):
         broken = workspace_named(missing_data_dir)
         broken_workspace_names.add(missing_data_dir)
-- 
2.43.0


From f94c9b8e0710481cba91de108dd2f84ca5533a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 093/187] fix: VERSION wasn't updated by an upgrade from e.g.
 0.9.0 to 0.37.3

---
 marcel/persistence/storagelayout.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 289b9ee..92d63f0 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -62,6 +62,12 @@ def ensure_current(testing=False, initial_config=None):
             installed_version = '0.0.0'
         return installed_version
 
+    def version_number(version):
+        try:
+            return [int(n) for n in version.split('.')]
+        except ValueError:
+            return []
+
     def initialize_persistent_config_and_data(initial_config):
         # These calls ensure the config and data directories exist.
         locations.config()
@@ -90,7 +96,7 @@ def ensure_current(testing=False, initial_config=None):
                 if before == after:
                     raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
     # Write version file
-    if installed_version() < marcel.version.VERSION:
+    if version_number(installed_version()) < version_number(marcel.version.VERSION):
         write_version(marcel.version.VERSION)
 
 
-- 
2.43.0


From 760cf53cc5d137f013478b046a220c166841616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 094/187] fix: migration failed if there was no startup script
 or history

---
 marcel/persistence/storagelayout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 92d63f0..1324c29 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -195,6 +195,11 @@ class StorageLayoutWS1(StorageLayout):
             for filename in filenames:
                 shutil.move(base_dir / filename, new_default_workspace_dir)
 
+        # The user may not have had a startup script or history.
+        if not (self.config / 'startup.py').exists():
+            (self.config / 'startup.py').write_text(default_initial_config())
+        (self.data / 'history').touch(mode=0o600)
+        (self.data / 'reservoirs').mkdir(exist_ok=True)
         # Move default workspace files to __DEFAULT_WORKSPACE__ directory
         fix_default_workspace(self.config, '.WORKSPACE', 'startup.py')
         fix_default_workspace(self.data, 'history', 'reservoirs')
-- 
2.43.0


From fc2f3004a4f3984e3b5b30bbec9aea7b53605bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 095/187] fix: migration damaged a workspace named 'workspace'

---
 marcel/persistence/storagelayout.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 1324c29..462a145 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 import datetime
+import os
 import pathlib
 import re
 import shutil
@@ -222,21 +223,22 @@ class StorageLayoutWS2(StorageLayout):
     def migrate(self):
         def move_workspace_dirs(workspace_dirs, new_workspace_base):
             for workspace_dir in workspace_dirs:
-                if workspace_dir.name != marcel.locations.Locations.WORKSPACE_DIR_NAME:
-                    moved_dir = shutil.move(workspace_dir, new_workspace_base)
-                    if moved_dir:
-                        self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
-                    else:
-                        raise marcel.exception.KillShellException(
-                            f'Attempt to move workspace dir {workspace_dir} failed.')
-                    self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
+                moved_dir = shutil.move(workspace_dir, new_workspace_base)
+                if moved_dir:
+                    self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
+                else:
+                    raise marcel.exception.KillShellException(
+                        f'Attempt to move workspace dir {workspace_dir} failed.')
+                self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
 
         def fix_dirs(base_dir):
             new_workspace_dir = base_dir / 'workspace'
-            new_workspace_dir.mkdir(parents=True, exist_ok=True)
-            # Move workspace directories
+            # Move workspace directories. One of them could be named 'workspace'.
             old_workspace_dirs = StorageLayout.subdirs(base_dir)
-            move_workspace_dirs(old_workspace_dirs, new_workspace_dir)
+            temp_workspace_dir = base_dir / f'{os.getpid()}.workspace'
+            temp_workspace_dir.mkdir()
+            move_workspace_dirs(old_workspace_dirs, temp_workspace_dir)
+            temp_workspace_dir.rename(new_workspace_dir)
             # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
             old_default_workspace_dir = new_workspace_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir = new_workspace_dir / '__DEFAULT__'
-- 
2.43.0


From b0f6f3fef09e80c12e93424436b360d7dcb28b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 096/187] fix: a workspace created before workspaces had a home
 property could not be opened or listed

---
 marcel/object/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index c51f6d9..673b44f 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -100,7 +100,8 @@ class WorkspaceProperties(object):
                 'save_time': self.save_time}
 
     def from_persistent_state(self, persistent):
-        self.home = persistent['home']
+        # Older workspaces won't have a home property
+        self.home = persistent.get('home', None)
         self.create_time = persistent['create_time']
         self.open_time = persistent['open_time']
         self.save_time = persistent['save_time']
-- 
2.43.0


From fdf21247cb5fd1f814299b69fcf4ccf3b9570402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 097/187] fix: a workspace whose files can't be read prevented
 ws -l, and ended the session or stayed locked on an attempt to open it

---
 marcel/object/workspace.py | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 673b44f..c6241ed 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -312,16 +312,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def open(self, env, initial_namespace=None):
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
-                self.read_properties()  # Noop for default workspace
-                self.namespace = marcel.nestednamespace.NestedNamespace(env)
-                if initial_namespace:
-                    initial_namespace.add_to_namespace(self.namespace, env)
-                config_dict = self.config_script.run()
-                for var, value in config_dict.items():
-                    self.namespace.assign_permanent(var, value)
-                self.add_immutable_vars(config_dict.keys())
-                persistent_state = self.read_environment()
-                self.namespace.from_persistent_state(env, persistent_state)
+                try:
+                    self.open_locked(env, initial_namespace)
+                except BaseException:
+                    if not self.is_default():
+                        self.unlock_workspace()
+                    raise
             else:
                 self.cannot_lock_workspace()
         else:
@@ -404,7 +400,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 if name != marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME:
                     workspace = Workspace(name)
                     if workspace.marker.exists():
-                        workspace.read_properties()  # So that home is known
+                        try:
+                            workspace.read_properties()  # So that home is known
+                        except Exception:
+                            # Damaged. This will be noticed on an attempt to open it.
+                            pass
                         workspaces.append(workspace)
         workspaces.sort(key=lambda ws: ws.name)
         return workspaces
@@ -420,6 +420,24 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     # Internal
 
+    def open_locked(self, env, initial_namespace):
+        self.read_file(self.read_properties)  # Noop for default workspace
+        self.namespace = marcel.nestednamespace.NestedNamespace(env)
+        if initial_namespace:
+            initial_namespace.add_to_namespace(self.namespace, env)
+        config_dict = self.config_script.run()
+        for var, value in config_dict.items():
+            self.namespace.assign_permanent(var, value)
+        self.add_immutable_vars(config_dict.keys())
+        self.read_file(lambda: self.namespace.from_persistent_state(env, self.read_environment()))
+
+    def read_file(self, read):
+        try:
+            return read()
+        except Exception as e:
+            raise marcel.exception.KillCommandException(
+                f'Workspace {self.name} cannot be opened because it is damaged: {e}')
+
     def create_on_disk(self, initial_config_contents):
         locations = self.locations
         # config
-- 
2.43.0


From d85464521198cf17a903db74826807695caf3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 098/187] fix: loading a reservoir whose file is damaged ended
 the session

---
 marcel/op/load.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index f3aa477..a687c3d 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -108,13 +108,21 @@ class Load(marcel.core.Op):
     def run(self, env):
         try:
             while True:
-                self.send(env, next(self.reader))
+                self.send(env, self.next())
         except StopIteration:
             self.reader.close()
         except:
             self.reader.close()
             raise
 
+    def next(self):
+        try:
+            return next(self.reader)
+        except StopIteration:
+            raise
+        except Exception as e:
+            raise marcel.exception.KillCommandException(f'load {self.var}: {self.picklefile} cannot be read: {e}')
+
     def cleanup(self):
         self.reader.close()
 
-- 
2.43.0


From 031e63566b5eda08fafc7048265c2332a3215d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 099/187] fix: migration failed if the default workspace's
 history is empty

---
 marcel/persistence/storagelayout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 462a145..78ff394 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -251,7 +251,8 @@ class StorageLayoutWS2(StorageLayout):
         fix_dirs(self.data)
         layout = storage_layout()
         assert layout
-        assert layout.layout() == 'ws3'
+        # An empty history needs no conversion to prompt_toolkit format.
+        assert layout.layout() in ('ws3', 'pt')
         return layout
 
     def match(self):
-- 
2.43.0


From d7e9f41b4c48595bad88801189a3221c85586ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 100/187] fix: opening a workspace while another process
 deletes it could end the session

---
 marcel/object/workspace.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index c6241ed..82a2006 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -41,12 +41,16 @@ class Marker(object):
         self.workspace = workspace
 
     def exists(self):
-        config_dir = self.workspace.locations.config_ws(self.workspace)
-        if config_dir.exists():
-            for file in config_dir.iterdir():
-                if file.name.startswith(Marker.FILENAME_ROOT):
-                    return True
-        return False
+        return len(self.files()) > 0
+
+    # All markers, owned or not. There are none if the workspace is missing, possibly because another process is
+    # deleting it.
+    def files(self):
+        try:
+            return [file for file in self.workspace.locations.config_ws(self.workspace).iterdir()
+                    if file.name.startswith(Marker.FILENAME_ROOT)]
+        except FileNotFoundError:
+            return []
 
     def unowned(self):
         return self.workspace.locations.config_ws(self.workspace) / Marker.FILENAME_ROOT
@@ -565,8 +569,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.delete_abandoned_markers()
         # Now find the marker of an owner, if there is one. Something is very wrong if there is more than one.
         marker_filename = None
-        for file in self.locations.config_ws(self).iterdir():
-            if file.name.startswith(Marker.FILENAME_ROOT) and file.name != Marker.FILENAME_ROOT:
+        for file in self.marker.files():
+            if file.name != Marker.FILENAME_ROOT:
                 if marker_filename is None:
                     marker_filename = file.name
                 else:
@@ -589,8 +593,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             shutil.move(data_source, data_target)
 
     def delete_abandoned_markers(self):
-        for file in self.locations.config_ws(self).iterdir():
-            if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
+        for file in self.marker.files():
+            if len(file.name) > len(Marker.FILENAME_ROOT):
                 try:
                     abandoned = not marcel.util.process_exists(Workspace.marker_filename_pid(file.name))
                 except ValueError:
-- 
2.43.0


From c324e34531ca267beff410aea67475ea491f6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 101/187] fix: fork lost output if one child finished before
 the others

---
 marcel/op/forkmanager.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1ba4e30..657ce03 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import multiprocessing as mp
+import multiprocessing.connection as mpc
 import os
 
 import dill
@@ -100,14 +101,13 @@ class ForkManager(object):
         for worker in self.workers:
             worker.start()
             dump(f'{self} started {worker}')
-        completed = 0
-        w = 0
-        while completed < len(self.workers):
-            more = self.workers[w].consume_input()
-            if not more:
-                completed += 1
-            w = (w + 1) % len(self.workers)
-            dump(f'completed: {completed}')
+        active = {worker.reader: worker for worker in self.workers}
+        while len(active) > 0:
+            for reader in mpc.wait(list(active)):
+                more = active[reader].consume_input()
+                if not more:
+                    del active[reader]
+            dump(f'active: {len(active)}')
         for worker in self.workers:
             worker.close()
 
@@ -169,11 +169,11 @@ class ForkWorker(object):
     def consume_input(self):
         more = True
         try:
-            if self.reader.poll(timeout=0.1):
-                input = self.reader.recv()
-                x = dill.loads(input)
-                dump(f'{self} consume_input receive {x}')
-                self.op.send(self.env, x)
+            # The reader is known to be ready.
+            input = self.reader.recv()
+            x = dill.loads(input)
+            dump(f'{self} consume_input receive {x}')
+            self.op.send(self.env, x)
         except EOFError:
             dump(f'{self} consume_input EOF')
             self.writer.close()
-- 
2.43.0


From 74c1789df3de0274ac5823288429b908adb82251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 102/187] fix: operators following fork treated errors as input

---
 marcel/op/forkmanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 657ce03..3471174 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -173,7 +173,10 @@ class ForkWorker(object):
             input = self.reader.recv()
             x = dill.loads(input)
             dump(f'{self} consume_input receive {x}')
-            self.op.send(self.env, x)
+            if isinstance(x, marcel.object.error.Error):
+                self.op.send_error(self.env, x)
+            else:
+                self.op.send(self.env, x)
         except EOFError:
             dump(f'{self} consume_input EOF')
             self.writer.close()
-- 
2.43.0


From 31f55968f39b9d6dfbd2b884b529d8124266183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 103/187] fix: expressions as arguments, e.g. gen (n), failed
 in pipelines executed by fork, remote and sudo

---
 marcel/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index 1f50cf0..8222584 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -174,6 +174,8 @@ class Op(AbstractOp):
         def call(x):
             try:
                 if isinstance(x, marcel.function.Function):
+                    # The function isn't compiled if this op was sent from another process.
+                    x.ensure_compiled(env.workspace.namespace)
                     x = self.call(env, x)
                 else:
                     x = x()
-- 
2.43.0


From 720e7f8282bc303f9a87c65e7ad52c2be64a73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 104/187] fix: output of fork containing functions corrupted
 the session, and output that can't be pickled was lost

---
 marcel/op/forkmanager.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 3471174..67d226f 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -13,17 +13,17 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import io
 import multiprocessing as mp
 import multiprocessing.connection as mpc
 import os
 
-import dill
-
 import marcel.argsparser
 import marcel.core
 import marcel.exception
 import marcel.object.cluster
 import marcel.object.error
+import marcel.object.workspace
 import marcel.util
 
 
@@ -34,6 +34,17 @@ def dump(message):
         print(f'{os.getpid()}: {message}')
 
 
+# Functions have references to the namespace, which cannot be pickled.
+def dumps(env, x):
+    buffer = io.BytesIO()
+    marcel.object.workspace.EnvironmentPickler(buffer, env.workspace.namespace).dump(x)
+    return buffer.getvalue()
+
+
+def loads(env, pickled):
+    return marcel.object.workspace.EnvironmentUnpickler(io.BytesIO(pickled), env.workspace.namespace).load()
+
+
 class SendToParent(marcel.core.Op):
 
     def __init__(self, writer, thread_id):
@@ -47,12 +58,17 @@ class SendToParent(marcel.core.Op):
 
     def receive(self, env, x):
         dump(f'{self} receive {x}')
-        self.writer.send(dill.dumps(x))
+        try:
+            pickled = dumps(env, x)
+        except Exception as e:
+            self.receive_error(env, marcel.object.error.Error(f'Unable to send output of fork: {e}'))
+        else:
+            self.writer.send(pickled)
         dump(f'{self} receive sent {x}')
 
     def receive_error(self, env, error):
         dump(f'{self} receive_error {error}')
-        self.writer.send(dill.dumps(error))
+        self.writer.send(dumps(env, error))
 
     def cleanup(self):
         dump(f'{self} cleanup, close writer {id(self.writer)}')
@@ -61,7 +77,7 @@ class SendToParent(marcel.core.Op):
 
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
-        pipeline = dill.loads(pipeline)
+        pipeline = loads(env, pipeline)
         pipeline.append(SendToParent(writer, thread_id))
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
@@ -70,7 +86,7 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         marcel.util.print_stack_of_current_exception()
-        writer.send(dill.dumps(e))
+        writer.send(dumps(env, e))
         writer.close()
     finally:
         dump(f'closed writer {id(writer)}')
@@ -150,7 +166,7 @@ class ForkWorker(object):
     def start(self):
         dump(f'{self} start_process {self.pipeline}')
         self.process = mp.Process(target=run_pipeline_in_child,
-                                  args=(self.env, dill.dumps(self.pipeline), self.thread_id, self.writer))
+                                  args=(self.env, dumps(self.env, self.pipeline), self.thread_id, self.writer))
         dump(f'{self} created {self.process}')
         self.process.daemon = True
         #
@@ -171,7 +187,7 @@ class ForkWorker(object):
         try:
             # The reader is known to be ready.
             input = self.reader.recv()
-            x = dill.loads(input)
+            x = loads(self.env, input)
             dump(f'{self} consume_input receive {x}')
             if isinstance(x, marcel.object.error.Error):
                 self.op.send_error(self.env, x)
-- 
2.43.0


From ed66928ec92503a0053300c8164303e8dbf608a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 105/187] fix: failure of a command run by fork printed a stack
 trace, and could send an exception as output, or be ignored

---
 marcel/op/forkmanager.py | 54 +++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 67d226f..d7c1b94 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -70,9 +70,12 @@ class SendToParent(marcel.core.Op):
         dump(f'{self} receive_error {error}')
         self.writer.send(dumps(env, error))
 
-    def cleanup(self):
-        dump(f'{self} cleanup, close writer {id(self.writer)}')
-        self.writer.close()
+
+# Sent to the parent when a command can't be completed.
+class ChildFailure(object):
+
+    def __init__(self, message):
+        self.message = message
 
 
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
@@ -82,13 +85,17 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
         dump(f'child running pipeline {pipeline}, writer {id(writer)}')
-        pipeline.run_pipeline(env, bindings)  # Closes writer
+        pipeline.run_pipeline(env, bindings)
+    except marcel.exception.KillAndResumeException:
+        # The error has been sent
+        pass
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
-        marcel.util.print_stack_of_current_exception()
-        writer.send(dumps(env, e))
-        writer.close()
+        if not isinstance(e, marcel.exception.KillCommandException):
+            marcel.util.print_stack_of_current_exception()
+        writer.send(dumps(env, ChildFailure(str(e))))
     finally:
+        writer.close()
         dump(f'closed writer {id(writer)}')
 
 
@@ -114,19 +121,25 @@ class ForkManager(object):
         self.workers = [ForkWorker(env, self, thread_id, fork_customizer) for thread_id in self.thread_ids]
 
     def run(self, env):
-        for worker in self.workers:
-            worker.start()
-            dump(f'{self} started {worker}')
-        active = {worker.reader: worker for worker in self.workers}
-        while len(active) > 0:
-            for reader in mpc.wait(list(active)):
-                more = active[reader].consume_input()
-                if not more:
-                    del active[reader]
-            dump(f'active: {len(active)}')
+        try:
+            for worker in self.workers:
+                worker.start()
+                dump(f'{self} started {worker}')
+            active = {worker.reader: worker for worker in self.workers}
+            while len(active) > 0:
+                for reader in mpc.wait(list(active)):
+                    more = active[reader].consume_input()
+                    if not more:
+                        del active[reader]
+                dump(f'active: {len(active)}')
+        except BaseException:
+            for worker in self.workers:
+                worker.terminate()
+            raise
         for worker in self.workers:
             worker.close()
 
+
 class ForkWorker(object):
 
     def __init__(self, env, fork_manager, thread_id, fork_customizer):
@@ -188,6 +201,8 @@ class ForkWorker(object):
             # The reader is known to be ready.
             input = self.reader.recv()
             x = loads(self.env, input)
+            if isinstance(x, ChildFailure):
+                raise marcel.exception.KillCommandException(x.message)
             dump(f'{self} consume_input receive {x}')
             if isinstance(x, marcel.object.error.Error):
                 self.op.send_error(self.env, x)
@@ -199,6 +214,11 @@ class ForkWorker(object):
             more = False
         return more
 
+    def terminate(self):
+        if self.process:
+            self.process.terminate()
+            self.close()
+
     def close(self):
         dump(f'{self} joining ...')
         first = True
-- 
2.43.0


From da9f3b8b9fe5329eebb2dbbbabf95e7b5b401c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 106/187] fix: fork couldn't be used inside fork

---
 marcel/op/forkmanager.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index d7c1b94..6b9adc5 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -181,7 +181,6 @@ class ForkWorker(object):
         self.process = mp.Process(target=run_pipeline_in_child,
                                   args=(self.env, dumps(self.env, self.pipeline), self.thread_id, self.writer))
         dump(f'{self} created {self.process}')
-        self.process.daemon = True
         #
         # from marcel.util import PickleDebugger
         # import sys
-- 
2.43.0


From ebfdd5e0ca1a04be10e38874f6c8ed88afc8a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 107/187] fix: functions of filter, case, etc. could not be
 called in pipelines executed by fork

---
 marcel/op/forkmanager.py | 1 +
 marcel/pipeline.py       | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 6b9adc5..00c9d40 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -81,6 +81,7 @@ class ChildFailure(object):
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
         pipeline = loads(env, pipeline)
+        pipeline.ensure_functions_compiled(env)
         pipeline.append(SendToParent(writer, thread_id))
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index b8a3cb6..32e9bd3 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -452,6 +452,10 @@ class PipelineFunction(Pipeline):
     def setup(self, env):
         pass
 
+    def ensure_functions_compiled(self, env):
+        # Functions in the API are not compiled by marcel.
+        pass
+
     def parameters(self):
         code = self.function.__code__
         return code.co_varnames[:code.co_argcount]
-- 
2.43.0


From 452ee356145d599af2233adeed4b9389dbbac712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 108/187] fix: an unparenthesized generator expression was
 accepted as a function

---
 marcel/function.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marcel/function.py b/marcel/function.py
index 0fa3e2b..2dd6c26 100644
--- a/marcel/function.py
+++ b/marcel/function.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import ast
+
 import marcel.reduction
 
 import dill
@@ -80,8 +82,12 @@ class SourceFunction(Function):
 
     def ensure_compiled(self, globals):
         if self.function is None:
-            # The parens allow for source that spans lines.
-            self.function = eval(f'({self.source}\n)', globals)
+            # The parens allow for source that spans lines. But they must not turn e.g. "lambda: x for x in y" into a
+            # generator.
+            source = f'({self.source}\n)'
+            if isinstance(ast.parse(source, mode='eval').body, ast.GeneratorExp):
+                raise SyntaxError('Generator expression must be parenthesized')
+            self.function = eval(source, globals)
 
 
 class SymbolFunction(Function):
-- 
2.43.0


From 7fbc9b98492cce0315414eba6da55a700745c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 109/187] fix: pos() is wrong on either side of a host
 executable (C25)

The output of an executable is processed by another thread, and both threads
were setting the current op.
---
 marcel/env.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marcel/env.py b/marcel/env.py
index 2541243..89a8c51 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -18,6 +18,7 @@ import os
 import pathlib
 import socket
 import sys
+import threading
 
 import marcel.builtin
 import marcel.cliargs
@@ -84,6 +85,8 @@ class Environment(object):
         self.config_path = None
         self.reader = None  # Set in an interactive session
         self.op_modules = marcel.opmodule.import_op_modules()
+        # Output from an executable is handled by a thread of its own, so more than one op may be running.
+        self.running = threading.local()
         self.current_op = None  # Needed for pos()
         self.trace = trace if trace else Trace()
         self.workspace.add_immutable_vars(('BOLD',
@@ -123,6 +126,15 @@ class Environment(object):
         env.trace = trace
         self.__dict__ = env.__dict__
 
+    # The op running in the current thread.
+    @property
+    def current_op(self):
+        return getattr(self.running, 'op', None)
+
+    @current_op.setter
+    def current_op(self, op):
+        self.running.op = op
+
     def initial_namespace(self):
         def home_dir():
             try:
-- 
2.43.0


From 698c4c2ded52825e70ee31bafbd0d759509e949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 110/187] fix: an executable in a pipeline can lose output, end
 the session, or hang it (C25)

- Lines already read into the buffer of a stream were lost if the process ended
  while a process it had started still held the stream.
- Output not in the encoding of the locale killed the thread reading it.
- An exception raised downstream (e.g. KillCommandException) killed that thread
  too, without failing the command, and left it waiting for the process.
- Input to an executable that stopped reading raised BrokenPipeError.
- A command that failed upstream left the executable waiting for input, and the
  command waiting for the executable.
- Lines of stderr were handed to downstream operators as input instead of as errors.
---
 marcel/op/bash.py | 130 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 91 insertions(+), 39 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 99aa519..db28eb5 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -13,8 +13,11 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import codecs
+import io
 import os
 import selectors
+import signal
 import subprocess
 import threading
 
@@ -154,22 +157,27 @@ class NonInteractive(Escape):
         super().__init__(op)
         self.process = None
         self.output_handler = None
-        self.lock = threading.Lock()
 
     def receive(self, env, x):
         self.ensure_command_running(env)
         if x is not None:
             if len(x) == 1:
                 x = x[0]
-            self.process.stdin.write(str(x))
-            self.process.stdin.write('\n')
-            self.process.stdin.flush()
+            try:
+                self.process.stdin.write(str(x))
+                self.process.stdin.write('\n')
+                self.process.stdin.flush()
+            except BrokenPipeError:
+                # The command stopped reading its input.
+                pass
+            self.output_handler.check_failure()
 
     def flush(self, env):
         # The command has to be run even if there was no input.
         self.ensure_command_running(env)
-        self.process.stdin.close()
+        self.close_stdin()
         self.output_handler.join()
+        self.output_handler.check_failure()
 
     def cleanup(self):
         self.shutdown()
@@ -186,22 +194,30 @@ class NonInteractive(Escape):
                                             stdout=subprocess.PIPE,
                                             stderr=subprocess.PIPE,
                                             universal_newlines=True,
+                                            errors='surrogateescape',
                                             preexec_fn=os.setsid)
             self.output_handler = ProcessOutputHandler(env, self)
             self.output_handler.start()
 
-    def shutdown(self):
-        while self.output_handler is not None and self.output_handler.is_alive():
-            self.output_handler.join(0.1)
-        self.lock.acquire()
+    def close_stdin(self):
         try:
-            if self.process:
-                self.process.wait()
-                self.process.stdout.close()
-                self.process.stderr.close()
-                self.process = None
-        finally:
-            self.lock.release()
+            self.process.stdin.close()
+        except BrokenPipeError:
+            # The command stopped reading its input.
+            pass
+
+    def shutdown(self):
+        if self.process:
+            if self.output_handler.is_alive():
+                # The pipeline was abandoned, so flush didn't wait for the command to finish.
+                self.output_handler.kill_process()
+                self.close_stdin()
+                self.output_handler.join()
+            self.close_stdin()
+            self.process.stdout.close()
+            self.process.stderr.close()
+            self.process.wait()
+            self.process = None
 
 
 class Interactive(Escape):
@@ -237,41 +253,77 @@ class BashShell(Escape):
 
 class ProcessOutputHandler(threading.Thread):
 
+    BUFFER_SIZE = 64 * 1024
+
     def __init__(self, env, owner):
         super().__init__()
         self.env = env
         self.owner = owner
+        self.failure = None
 
     def run(self):
+        try:
+            self.handle_output()
+        except BaseException as e:
+            # Raised downstream. The thread running the pipeline has to deal with it, see check_failure().
+            self.failure = e
+            self.kill_process()
+
+    def check_failure(self):
+        failure = self.failure
+        if failure is not None:
+            self.failure = None
+            raise failure
+
+    def kill_process(self):
+        try:
+            # The process is the leader of its process group.
+            os.killpg(self.owner.process.pid, signal.SIGTERM)
+        except ProcessLookupError:
+            pass
+
+    # Implementation
+
+    def handle_output(self):
         process = self.owner.process
         op = self.owner.op
-        lock = self.owner.lock
         sel = selectors.DefaultSelector()
-        sel.register(process.stdout, selectors.EVENT_READ)
-        sel.register(process.stderr, selectors.EVENT_READ)
-        while True:
-            events = sel.select(timeout=0.1)
-            lock.acquire()
-            try:
+        sel.register(process.stdout, selectors.EVENT_READ,
+                     Lines(lambda line: op.send(self.env, line)))
+        sel.register(process.stderr, selectors.EVENT_READ,
+                     Lines(lambda line: op.send_error(self.env, marcel.object.error.Error(line))))
+        with sel:
+            while len(sel.get_map()) > 0:
+                events = sel.select(timeout=0.1)
                 if not events and process.poll() is not None:
+                    # The process has terminated, but a process that it started may have the streams open.
                     break
                 for key, _ in events:
-                    stream = key.fileobj
-                    line = stream.readline()
-                    if not line:
+                    # Read the file descriptor, so that there is no data in a buffer invisible to the selector.
+                    data = os.read(key.fd, ProcessOutputHandler.BUFFER_SIZE)
+                    key.data.add(data)
+                    if not data:
                         sel.unregister(key.fileobj)
-                    else:
-                        output = ProcessOutputHandler.normalize_output(line)
-                        if stream is process.stdout:
-                            op.send(self.env, output)
-                        elif stream is process.stderr:
-                            op.send(self.env, marcel.object.error.Error(output))
-            finally:
-                lock.release()
+            for key in list(sel.get_map().values()):
+                key.data.add(b'')
         process.wait()
 
-    @staticmethod
-    def normalize_output(x):
-        if x[-1] == '\n':
-            x = x[:-1]
-        return x
+
+# Splits a process's output into lines, as reading from a text file would do.
+class Lines:
+
+    def __init__(self, send):
+        self.send = send
+        decoder = codecs.getincrementaldecoder('utf-8')(errors='surrogateescape')
+        self.decoder = io.IncrementalNewlineDecoder(decoder, translate=True)
+        self.partial = ''
+
+    # An empty data marks the end of the output.
+    def add(self, data):
+        lines = (self.partial + self.decoder.decode(data, final=not data)).split('\n')
+        self.partial = lines.pop()
+        for line in lines:
+            self.send(line)
+        if not data and self.partial:
+            self.send(self.partial)
+            self.partial = ''
-- 
2.43.0


From 7e650d44c9dc6eeb357280aaf38f2a20e6bfaee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 111/187] fix: items that write cannot write at the end of a
 pipeline vanish without an error, and a full disk ends the session (C13)

---
 marcel/op/write.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index bd816df..77e0308 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -152,19 +152,25 @@ class Write(marcel.core.Op):
         try:
             self.writer.receive(env, x)
         except marcel.exception.KillAndResumeException as e:
-            self.non_fatal_error(env, input=x, message=str(e))
+            self.report_error(env, x, e)
         except Exception as e:  # E.g. UnicodeEncodeError
-            self.non_fatal_error(env, input=x, message=str(e))
+            self.report_error(env, x, e)
         finally:
             self.send(env, x)
 
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
-        self.writer.receive_error(env, error)
+        try:
+            self.writer.receive_error(env, error)
+        except Exception as e:  # E.g. UnicodeEncodeError
+            self.report_error(env, error, e)
 
     def flush(self, env):
-        self.writer.flush(env)
+        try:
+            self.writer.flush(env)
+        except Exception as e:
+            self.report_error(env, None, e)
         super().flush(env)
 
     def cleanup(self):
@@ -172,6 +178,14 @@ class Write(marcel.core.Op):
 
     # For use by this class
 
+    def report_error(self, env, x, e):
+        if self.receiver:
+            self.non_fatal_error(env, input=x, message=str(e))
+        else:
+            # There is no downstream op to print the error.
+            color_scheme = env.color_scheme() if sys.stdout == sys.__stdout__ else None
+            print(self.error(x, str(e)).render_full(color_scheme), flush=True)
+
     @staticmethod
     def ensure_quoted(x):
         if x is None:
@@ -218,7 +232,11 @@ class TextWriter(Writer):
 
     def cleanup(self):
         if self.output() != sys.stdout:
-            self.output().close()
+            try:
+                self.output().close()
+            except OSError:
+                # Lines that couldn't be written have been reported.
+                pass
 
     # Errors are not subject to formatting specifications.
     def receive_error(self, env, error):
@@ -312,5 +330,8 @@ class PickleWriter(Writer):
     def receive(self, env, x):
         self.writer.write(x)
 
+    def flush(self, env):
+        self.writer.close()
+
     def cleanup(self):
         self.writer.close()
-- 
2.43.0


From 8e39e4e2907f886b6230d241a75d1185cd1c1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 112/187] fix: an executable cannot be given an argument that
 is a flag of the bash operator, e.g. grep -i (C25)

---
 marcel/op/bash.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index db28eb5..d0ed602 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -85,6 +85,15 @@ class BashArgsParser(marcel.argsparser.ArgsParser):
         self.add_anon_list('args', convert=self.check_str, target='args_arg')
         self.validate()
 
+    # Arguments following the executable belong to it, even if they look like flags of bash.
+    def extract_flags_and_anon(self, args):
+        n_flags = 0
+        while n_flags < len(args) and marcel.argsparser.Flag.plausible(args[n_flags]):
+            n_flags += 1
+        flags, anon, anon_list = super().extract_flags_and_anon(args[:n_flags])
+        anon_list.extend([self.anon_list_arg.convert(self.anon_list_arg, arg) for arg in args[n_flags:]])
+        return flags, anon, anon_list
+
 
 class Bash(marcel.core.Op):
 
-- 
2.43.0


From 050e6c0615b1a351754526dc01156c7a35cb2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 113/187] fix: an interactive executable runs during setup, and
 fails on input (C25)

---
 marcel/op/bash.py | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index d0ed602..7e4085c 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -233,31 +233,38 @@ class Interactive(Escape):
 
     def __init__(self, op):
         super().__init__(op)
-        self.process = subprocess.Popen(self.command(),
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True,
-                                        preexec_fn=os.setsid)
+        self.process = None
 
-    def run(self, env):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+    # The input is ignored. stdin, stdout, and stderr of the process are not handled by marcel.
+    def receive(self, env, _):
+        self.run_process()
 
+    def flush(self, env):
+        # The command has to be run even if there was no input.
+        self.run_process()
 
-class BashShell(Escape):
+    # Implementation
 
-    def __init__(self, op):
-        super().__init__(op)
-        self.process = subprocess.Popen('bash',
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True)
+    def run_process(self):
+        if self.process is None:
+            self.process = self.start_process()
+            self.process.wait()
 
-    def receive(self, env, _):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+    def start_process(self):
+        return subprocess.Popen(self.command(),
+                                shell=True,
+                                executable=self.bash,
+                                universal_newlines=True,
+                                preexec_fn=os.setsid)
+
+
+class BashShell(Interactive):
+
+    def start_process(self):
+        return subprocess.Popen('bash',
+                                shell=True,
+                                executable=self.bash,
+                                universal_newlines=True)
 
 
 class ProcessOutputHandler(threading.Thread):
-- 
2.43.0


From 1a8278c2e969ed6106319b3dfb48f4d5a0ce80ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 114/187] fix: an executable in a pipeline called by its
 variable runs twice, and the rest of the pipeline is flushed after cleanup
 (C25)

---
 marcel/op/runpipeline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index b475b78..36150f1 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -70,10 +70,10 @@ class RunPipeline(marcel.core.Op):
     # Op
 
     def run(self, env):
-        bindings = self.bindings()
-        env.vars().push_scope(bindings)
+        # The containing pipeline calls flush() and cleanup().
+        env.vars().push_scope(self.bindings())
         try:
-            self.pipeline.run_pipeline(env, bindings)
+            self.pipeline.receive(env, None)
         finally:
             env.vars().pop_scope()
 
-- 
2.43.0


From 2027eb1716a80bf3d3bc41539a733eff33870aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 115/187] fix: trailing escaped whitespace is removed from an
 argument of an executable (C25)

---
 marcel/op/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 7e4085c..8565797 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -114,7 +114,7 @@ class Bash(marcel.core.Op):
             return ''if command is None or len(command) == 0 else command.split()[0]
 
         self.args = self.eval_function(env, 'args_arg')
-        self.command = ' '.join([str(x).strip() for x in self.args])
+        self.command = ' '.join([str(x) for x in self.args])
         # Try to extract the executable to see if it is interactive.
         interactive = self.interactive or env.is_interactive_executable(executable(self.command))
         self.escape = (BashShell(self) if len(self.command) == 0 else
-- 
2.43.0


From 60855f72300a29b0f683a0cc0963ddfed6958bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 116/187] fix: comparing a File with anything else raises
 AttributeError, even == and in (C27)

---
 marcel/object/file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 44a67b9..833bdb6 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -117,22 +117,22 @@ class File(marcel.object.renderable.Renderable):
         return self.path.__hash__()
 
     def __eq__(self, other):
-        return self.path == other.path
+        return self.path == other.path if isinstance(other, File) else NotImplemented
 
     def __ne__(self, other):
-        return self.path != other.path
+        return self.path != other.path if isinstance(other, File) else NotImplemented
 
     def __lt__(self, other):
-        return self.path < other.path
+        return self.path < other.path if isinstance(other, File) else NotImplemented
 
     def __le__(self, other):
-        return self.path <= other.path
+        return self.path <= other.path if isinstance(other, File) else NotImplemented
 
     def __gt__(self, other):
-        return self.path > other.path
+        return self.path > other.path if isinstance(other, File) else NotImplemented
 
     def __ge__(self, other):
-        return self.path >= other.path
+        return self.path >= other.path if isinstance(other, File) else NotImplemented
 
     # Renderable
 
-- 
2.43.0


From f9ab3068726fedff174baf1396cad7f964025d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 117/187] fix: the File of a symlink that is part of a loop
 cannot be stored, pickled or sent by fork (C27)

---
 marcel/object/file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 833bdb6..1e20d7c 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -197,7 +197,11 @@ class File(marcel.object.renderable.Renderable):
         # is_executable must check path.resolve(), not path. If the path is relative, and the name
         # is also an executable on PATH, then highlighting will be incorrect. See bug 8.
         if self.executable is None:
-            self.executable = marcel.util.is_executable(self.path.resolve().as_posix())
+            try:
+                self.executable = marcel.util.is_executable(self.path.resolve().as_posix())
+            except (OSError, RuntimeError):
+                # E.g. RuntimeError due to a loop of symlinks
+                self.executable = False
         return self.executable
 
     def _formatted_metadata(self):
-- 
2.43.0


From 7d5fb115fcdb92ba8d7a51a35f7ed34506773a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 118/187] fix: groups of ls output are aligned by the width of
 user names (C27)

---
 marcel/object/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 1e20d7c..05ee39d 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -60,7 +60,7 @@ class FileFormatting(object):
         return f'{username:>{width}}'
 
     def format_groupname(self, groupname):
-        width = self.username_width
+        width = self.groupname_width
         return f'{groupname:>{width}}'
 
     def format_size(self, size):
-- 
2.43.0


From 6bdb5fdc3233a73b3665215bbea0224ddd242b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:40 +0000
Subject: [PATCH 119/187] fix: whether a symlink is shown as broken depends on
 the current directory (C27)

---
 marcel/object/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 05ee39d..0611e99 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -266,7 +266,7 @@ class File(marcel.object.renderable.Renderable):
                 if self._is_symlink():
                     highlight = (
                         color_scheme.file_link
-                        if self.path.readlink().exists() else
+                        if os.path.exists(self.path) else
                         color_scheme.file_link_broken)
                 else:
                     highlight = (
-- 
2.43.0


From f1c7eabd3bd7367ae9ed3abdc81758e5e4d9dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 120/187] fix: tab completion takes into account what follows
 the cursor (C28)

---
 marcel/tabcompleter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index 8ba8390..6468dbb 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -68,7 +68,7 @@ class TabCompleter(Completer):
         self.line = None
 
     def get_completions(self, document, complete_event):
-        token = self.parse(document.text)
+        token = self.parse(document.text_before_cursor)
         debug(f'get_completions: doc=<{document}> '
               '-----------------------------------------------------------------------------')
         last_token_context = self.parser.op_arg_context
-- 
2.43.0


From e7d42f7d933074dcb6f88e7b7fe9d832a47fed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 121/187] fix: tab completion inserts names that don't denote
 the files offered, e.g. with quotes, escapes, or in a subdirectory, and fails
 in inaccessible ones (C28)

---
 marcel/tabcompleter.py | 71 ++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index 6468dbb..9e2fbd2 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -30,7 +30,7 @@ import marcel.util
 DEBUG = False
 
 # See discussion in notes/tab_completion.txt, 3/15/25.
-NEEDS_ESCAPE = string.whitespace + '''$!"&'()*:;<>?@[\\`{|'''
+NEEDS_ESCAPE = string.whitespace + '''$!"#&'()*,:;<>?@[\\`{|'''
 ESCAPE = '\\'
 
 
@@ -44,6 +44,12 @@ class Quote(object):
     DOUBLE = '"'
     ALL = SINGLE + DOUBLE
 
+    # Characters that cannot be part of a string in these quotes.
+    CANNOT_QUOTE = {
+        SINGLE: SINGLE,
+        DOUBLE: '"\\$`'
+    }
+
     @staticmethod
     def split_leading_quote(x):
         return (x[0], x[1:]) if len(x) > 0 and x[0] in Quote.ALL else (None, x)
@@ -86,6 +92,10 @@ class TabCompleter(Completer):
     def __repr__(self):
         return f'TabCompleter({self.line})'
 
+    # The number of characters of the line belonging to the terminal token.
+    def terminal_token_length(self, token):
+        return len(self.line) - self.parser.token.start if token else 0
+
     # Returns the last token encountered by the parse of line
     def parse(self, line):
         token = None
@@ -160,7 +170,9 @@ class TabCompleter(Completer):
         unquoted_token = Quote.unquote(token)
         return (HelpTopicHandler(token) if self.help_command() else
                 UsernameHandler(token) if unquoted_token.startswith('~') and '/' not in unquoted_token else
-                FilenameHandler(token))
+                FilenameHandler(token,
+                                self.terminal_token_length(token),
+                                isinstance(self.parser.token, marcel.parser.ShellString)))
 
     def help_command(self):
         return self.parser.text.strip().startswith('help')
@@ -291,11 +303,13 @@ class UsernameHandler(ArgHandler):
 
 class FilenameHandler(ArgHandler):
 
-    def __init__(self, token):
+    def __init__(self, token, token_length, shell_string):
         # basedir and prefix are strings, resulting from splitting the token on the last slash, if there is one.
         # Either may include ~ which would need to be expanded later.
         self.token = token
+        self.token_length = token_length
         self.quote, unquoted_token = Quote.split_leading_quote(token)
+        self.shell_string = shell_string and len(token) > 0 and not self.quote
         try:
             last_slash = unquoted_token.rindex('/')
             if last_slash == 0:
@@ -309,6 +323,10 @@ class FilenameHandler(ArgHandler):
             self.basedir = None
             prefix = unquoted_token
         super().__init__(prefix=prefix)
+        if self.quote:
+            # There are no escapes inside quotes (the parser has already processed them).
+            self.unescaped_prefix = prefix
+        self.unescaped_basedir = self.basedir if self.quote else marcel.util.unescape(self.basedir)
         self.last_char_replacement_text = None  # The last character of the token may need to be escaped.
         self.cursor_adjustment = 0
         self.compute_token_escaping(unquoted_token)
@@ -316,12 +334,9 @@ class FilenameHandler(ArgHandler):
 
     def complete_arg(self):
         try:
-            basedir = marcel.util.unescape(self.basedir)
-            dir_contents = (os.listdir(self.expanduser(FilenameHandler.pathlib_path(basedir)))
-                            if basedir else
-                            os.listdir())
-            return sorted(self.elements_matching_prefix(dir_contents))
-        except FileNotFoundError:
+            return sorted(self.elements_matching_prefix(os.listdir(self.path())))
+        except OSError:
+            # E.g. it doesn't exist, isn't a directory, or isn't accessible.
             return []
 
     def completion(self, arg):
@@ -329,9 +344,12 @@ class FilenameHandler(ArgHandler):
         # display: Appears in list of candidate completions.
         prefix = arg[:len(self.unescaped_prefix)]
         suffix = arg[len(self.unescaped_prefix):]
+        if self.quote and any(c in suffix for c in Quote.CANNOT_QUOTE[self.quote]):
+            return self.unquoted_completion(arg)
         return Completion(text=self.completion_text(prefix, suffix),
                           display=f'{arg}',
                           start_position=self.cursor_adjustment)
+
     # The completion text is passed in as:
     #   - prefix (stuff typed already), and
     #   - suffix (stuff ot be appended).
@@ -351,22 +369,34 @@ class FilenameHandler(ArgHandler):
                 completion_text = self.last_char_replacement_text
                 self.cursor_adjustment = -1
             # - Fix the suffix
-            for c in suffix:
-                if c in NEEDS_ESCAPE:
-                    completion_text += ESCAPE
-                completion_text += c
+            completion_text += self.escape(suffix)
         else:
             completion_text = suffix
-        filename = prefix + suffix
-        path = (FilenameHandler.pathlib_path(filename) if self.basedir is None else
-                FilenameHandler.pathlib_path(self.basedir) / filename)
-        path = path.expanduser()
-        completion_text += ('/' if path.is_dir() else
+        completion_text += ('/' if self.path(prefix + suffix).is_dir() else
                             (self.quote + ' ') if self.quote else
                             ' ')
         debug(f'completion_text(<{prefix}>, <{suffix}>): quote=<{self.quote}> -> <{completion_text}>')
         return completion_text
 
+    # The name contains characters that can't be quoted in the way that the user started quoting.
+    # Replace the token by an unquoted one.
+    def unquoted_completion(self, arg):
+        token = arg if self.basedir is None else os.path.join(self.basedir, arg)
+        text = self.escape(token)
+        if token.startswith('~') and self.quote == Quote.DOUBLE:
+            text = ESCAPE + text
+        text += '/' if self.path(arg).is_dir() else ' '
+        return Completion(text=text, display=f'{arg}', start_position=-self.token_length)
+
+    def escape(self, x):
+        # = needs to be escaped, except inside an argument being parsed as bash would.
+        needs_escape = NEEDS_ESCAPE if self.shell_string else NEEDS_ESCAPE + '='
+        return ''.join(ESCAPE + c if c in needs_escape else c for c in x)
+
+    # Path of a file in the directory whose contents are offered, or of that directory.
+    def path(self, filename=''):
+        basedir = self.expanduser(FilenameHandler.pathlib_path(self.unescaped_basedir or '.'))
+        return basedir / filename
 
     def expanduser(self, path):
         # Emulate bash behavior for expansion of ~ in a quoted string.
@@ -377,8 +407,9 @@ class FilenameHandler(ArgHandler):
         if len(unquoted_token) > 0:
             c = unquoted_token[-1]
             if c in NEEDS_ESCAPE:
-                d = None if len(unquoted_token) == 1 else unquoted_token[-2]
-                if d != ESCAPE:
+                before = unquoted_token[:-1]
+                n_escapes = len(before) - len(before.rstrip(ESCAPE))
+                if n_escapes % 2 == 0:
                     self.last_char_replacement_text = f'{ESCAPE}{c}'
     @staticmethod
     def pathlib_path(x):
-- 
2.43.0


From 8bbbf8f9c7dbd25013a022bc7f47b8271e514734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 122/187] fix: tab completion of an empty line raises
 AttributeError (C28)

---
 marcel/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 630718b..ddb8bc6 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1028,7 +1028,7 @@ class Parser(object):
         return self.command()
 
     def terminal_token_value(self):
-        return self.token.value() if self.token.is_terminal() else ''
+        return self.token.value() if self.token and self.token.is_terminal() else ''
 
     # Used by Compilable which contains function source and caches the compiled function.
     def parse_function(self):
-- 
2.43.0


From 9566c7ad07295d38320192a9624e19b22b025de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 123/187] fix: tab completion doesn't offer all help topics
 (C28)

---
 marcel/doc/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marcel/doc/__init__.py b/marcel/doc/__init__.py
index 046fd82..a40504f 100644
--- a/marcel/doc/__init__.py
+++ b/marcel/doc/__init__.py
@@ -14,15 +14,21 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 topics = [
+    'builtin',
     'color',
     'command',
     'configuration',
+    'file',
     'function',
+    'history_record',
+    'interaction',
     'marcel',
     'namespace',
     'object',
     'operator',
     'overview',
     'pipeline',
-    'prompt'
+    'process',
+    'prompt',
+    'startup'
 ]
-- 
2.43.0


From 6113859fa6d3744b643ba78ceebcf1d308258ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 124/187] fix: tab completion of flags of an executable, and
 following an expression, raises an exception (C28)

---
 marcel/parser.py       | 6 ++++--
 marcel/tabcompleter.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index ddb8bc6..59e5a88 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1368,8 +1368,10 @@ class Parser(object):
     def flags(self):
         flags = []
         pipeline = self.current_pipeline()
-        if pipeline and pipeline.op_token:
-            flag_args = self.op_modules[pipeline.op_token.value()].args_parser(self.env).flag_args
+        op_module = self.op_modules.get(pipeline.op_token.value()) if pipeline and pipeline.op_token else None
+        # There is no op module for an executable or variable.
+        if op_module:
+            flag_args = op_module.args_parser(self.env).flag_args
             for flag in flag_args:
                 if flag.short:
                     flags.append(flag.short)
diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index 9e2fbd2..c5a8cb0 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -78,7 +78,10 @@ class TabCompleter(Completer):
         debug(f'get_completions: doc=<{document}> '
               '-----------------------------------------------------------------------------')
         last_token_context = self.parser.op_arg_context
-        if last_token_context.is_op():
+        if not isinstance(token, str):
+            # An expression
+            completer = self.noop
+        elif last_token_context.is_op():
             completer = self.complete_op
         elif last_token_context.is_flag():
             completer = self.complete_flag
@@ -335,8 +338,8 @@ class FilenameHandler(ArgHandler):
     def complete_arg(self):
         try:
             return sorted(self.elements_matching_prefix(os.listdir(self.path())))
-        except OSError:
-            # E.g. it doesn't exist, isn't a directory, or isn't accessible.
+        except (OSError, ValueError):
+            # E.g. it doesn't exist, isn't a directory, isn't accessible, or has a name that no file can have.
             return []
 
     def completion(self, arg):
-- 
2.43.0


From 7357b96429aa73c39825427ba837b97e672a9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:22 +0000
Subject: [PATCH 125/187] fix: tab completion of a path in the home directory
 of an unknown user raises RuntimeError (C28)

---
 marcel/tabcompleter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index c5a8cb0..571ffa2 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -338,8 +338,9 @@ class FilenameHandler(ArgHandler):
     def complete_arg(self):
         try:
             return sorted(self.elements_matching_prefix(os.listdir(self.path())))
-        except (OSError, ValueError):
-            # E.g. it doesn't exist, isn't a directory, isn't accessible, or has a name that no file can have.
+        except (OSError, ValueError, RuntimeError):
+            # E.g. it doesn't exist, isn't a directory, isn't accessible, or has a name that no file can have, or
+            # ~ is followed by something that isn't a user.
             return []
 
     def completion(self, arg):
-- 
2.43.0


From dd35743806e3b201a18a32405336ab696b53ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 126/187] fix: history can't be printed without a color scheme
 (C29)

---
 marcel/object/historyrecord.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/object/historyrecord.py b/marcel/object/historyrecord.py
index 98f58df..00c870d 100644
--- a/marcel/object/historyrecord.py
+++ b/marcel/object/historyrecord.py
@@ -47,6 +47,8 @@ class HistoryRecord(marcel.object.renderable.Renderable):
         return HistoryRecord.format(self.id, self.command)
 
     def render_full(self, color_scheme):
+        if color_scheme is None:
+            return self.render_compact()
         return HistoryRecord.format(marcel.util.colorize(self.id, color_scheme.history_id),
                                     marcel.util.colorize(self.command, color_scheme.history_command))
 
-- 
2.43.0


From a737bda3da003c5e339e01e4c67551932bbe2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 127/187] fix: edit doubles the newlines of the edited command
 (C29)

---
 marcel/runeditor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marcel/runeditor.py b/marcel/runeditor.py
index f095fb5..d16c004 100644
--- a/marcel/runeditor.py
+++ b/marcel/runeditor.py
@@ -40,15 +40,15 @@ def run_editor(env, file):
 
 
 def edit_text(env, text):
-    _, tmp_file = tempfile.mkstemp(text=True)
-    with open(tmp_file, 'w') as output:
+    fd, tmp_file = tempfile.mkstemp(text=True)
+    with open(fd, 'w') as output:
         output.write(text)
     run_editor(env, tmp_file)
     with open(tmp_file, 'r') as input:
-        command_lines = input.readlines()
-    edited = '\n'.join(command_lines)
+        edited = input.read()
     os.remove(tmp_file)
-    return edited
+    # Editors end the last line of a file with a newline, which is not part of the command.
+    return edited.removesuffix('\n')
 
 def edit_file(env, filename):
     run_editor(env, filename)
\ No newline at end of file
-- 
2.43.0


From e03fb6895955512c72fcdc37e658a836a88d4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:07 +0000
Subject: [PATCH 128/187] fix: Commands whose names start with edit are taken
 for an edit command (C29)

---
 marcel/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/reader.py b/marcel/reader.py
index e84920c..7fb1ecc 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -88,7 +88,7 @@ class Reader(object):
             command = command.strip()
             return (['!!'] + command[2:].split() if command.startswith('!!') else
                     ['!'] + command[1:].split() if command.startswith('!') else
-                    ['edit'] + command[4:].split() if command.startswith('edit') else
+                    command.split() if command.split()[:1] == ['edit'] else
                     None)
 
         def selected_command(token):
@@ -97,7 +97,7 @@ class Reader(object):
                 command_id = int(token)
                 return self.command_by_id(command_id)
             except ValueError:
-                raise marcel.exception.KillCommandException(f'Command must be identifed by an integer: {t1}')
+                raise marcel.exception.KillCommandException(f'Command must be identifed by an integer: {token}')
 
         new_command = None
         try:
-- 
2.43.0


From ed974cbc3508d8bbbc84c7449d5a4ae826bc01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 129/187] fix: the first command entered after modifying the
 startup script is lost (C29)

---
 marcel/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 6ee6f71..131018d 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -207,16 +207,18 @@ class MainInteractive(MainScript):
         try:
             while True:
                 try:
-                    self.input = self.env.take_next_command()
+                    if self.input is None:
+                        self.input = self.env.take_next_command()
+                    # else: Restarted main, and self.input was from the previous incarnation.
                     if self.input is None:
                         self.input = (self.reader.input() if interactive
                                       else input())
-                    # else: Restarted main, and self.input was from the previous incarnation.
                     self.check_for_config_update()
                     self.parse_and_run_command(self.input)
                     self.input = None
                     self.job_control.wait_for_idle_foreground()
                 except KeyboardInterrupt:  # ctrl-C
+                    self.input = None
                     print()
         except EOFError:  # ctrl-d
             if interactive:
-- 
2.43.0


From 7665af3bd0247608d3e4f14354caa2753528c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 130/187] fix: run without an argument doesn't rerun the
 previous command (C29)

---
 marcel/op/run.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/op/run.py b/marcel/op/run.py
index b96c6ca..9efaa67 100644
--- a/marcel/op/run.py
+++ b/marcel/op/run.py
@@ -73,7 +73,11 @@ class Run(marcel.core.Op):
     def run(self, env):
         if env.reader is None:
             raise marcel.exception.KillCommandException('Commands can only be run again interactively')
-        env.next_command = env.reader.command_by_id(self.id)
+        command_id = self.id
+        if command_id is None:
+            # Rerun the previous command. The last command of the history is the one running this op.
+            command_id = len(env.reader.history()) - 2
+        env.next_command = env.reader.command_by_id(command_id)
 
     # Op
 
-- 
2.43.0


From fc2514f378c321271e817470fcdcc09033072d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:34 +0000
Subject: [PATCH 131/187] fix: edit of a command not in the history reports the
 error and then edits an empty command (C29)

---
 marcel/reader.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/marcel/reader.py b/marcel/reader.py
index 7fb1ecc..8499264 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -67,19 +67,14 @@ class Reader(object):
         return self._command_history
 
     def command_by_id(self, id):
-        command = ''
-        try:
-            history = self.history()
-            if type(id) is not int or id < 0:
-                raise marcel.exception.KillCommandException(
-                    f'Command id must be a non-negative integer: {id}')
-            if id >= len(history):
-                raise marcel.exception.KillCommandException(
-                    f'Command id exceeds that of most recent command: {id} > {len(history) - 1}')
-            command = self.history()[len(history) - 1 - id]
-        except marcel.exception.KillCommandException as e:
-            Reader.report_error(e.cause)
-        return command
+        history = self.history()
+        if type(id) is not int or id < 0:
+            raise marcel.exception.KillCommandException(
+                f'Command id must be a non-negative integer: {id}')
+        if id >= len(history):
+            raise marcel.exception.KillCommandException(
+                f'Command id exceeds that of most recent command: {id} > {len(history) - 1}')
+        return history[len(history) - 1 - id]
 
     # Handle !, !!, and edit ops. For edit, only edit N is handled here. edit -s is left to normal
     # command processing.
-- 
2.43.0


From 4da907a237e19640683a2593363735b9f585f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 132/187] fix: sql discards the results of a SELECT not
 followed by whitespace, and crashes on an empty statement (C31)

---
 marcel/op/sql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 0c91906..1c3c7ec 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -183,11 +183,11 @@ class Sql(marcel.core.Op):
 
     def classify_statement(self):
         verb_start = 0
-        while self.statement[verb_start].isspace():
+        end = len(self.statement)
+        while verb_start < end and self.statement[verb_start].isspace():
             verb_start += 1
         verb_end = verb_start
-        end = len(self.statement)
-        while verb_end < end and not self.statement[verb_end].isspace():
+        while verb_end < end and self.statement[verb_end].isalpha():
             verb_end += 1
         verb = self.statement[verb_start:verb_end].lower()
         return (SqlSelect if verb == 'select' else
-- 
2.43.0


From 15a7cd69e7396623dea5c4c905cd45776e49d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 133/187] fix: sql --commit doesn't accept an expression (C31)

---
 marcel/op/sql.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 1c3c7ec..f89892f 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -128,6 +128,7 @@ class Sql(marcel.core.Op):
     def setup(self, env):
         self.statement = self.eval_function(env, 'statement_arg', str)
         self.args = self.eval_function(env, 'args_arg')
+        self.commit = self.eval_function(env, 'commit', int)
         if self.commit is None:
             self.commit = 0  # Commit only in flush
         elif self.commit < 0:
-- 
2.43.0


From e0eb7d1a0234de5f36390e29a4862cf7b226c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 134/187] fix: sql ignores its ARGs if there is input (C31)

---
 marcel/op/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index f89892f..2b7eba4 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -160,7 +160,8 @@ class Sql(marcel.core.Op):
 
     def receive(self, env, x):
         try:
-            self.delegate.receive(env, x)
+            # If ARGs were specified, they are bound to the statement's parameters, instead of the input.
+            self.delegate.receive(env, None if self.args else x)
         except Exception as e:
             self.connection.rollback()
             raise marcel.exception.KillCommandException(e)
-- 
2.43.0


From db68a7d26058ac231a766af0cb16d638111b8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 135/187] fix: help texts refer to help topics and an operator
 that don't exist (C34)

---
 marcel/doc/help_operator.py | 4 ++--
 marcel/op/download.py       | 4 ++--
 marcel/op/upload.py         | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/marcel/doc/help_operator.py b/marcel/doc/help_operator.py
index f09a385..926bc2b 100644
--- a/marcel/doc/help_operator.py
+++ b/marcel/doc/help_operator.py
@@ -78,7 +78,7 @@ The {n:write} command can be made explicit to add formatting and redirection opt
 For example, to format the above output differently:
 
 {p,wrap=F,indent=4}
-ls -f | map (f: (f.name, f.size)) | out '\\{\\}: \\{\\}'
+ls -f | map (f: (f.name, f.size)) | write -f '\\{\\}: \\{\\}'
 
 The standard Python formatting string, '\\{\\}: \\{\\}' produces this output:
 
@@ -96,7 +96,7 @@ The standard Python formatting string, '\\{\\}: \\{\\}' produces this output:
 README.sysctl: 792
 protect-links.conf: 324
 
-Run {n:help out} for more information on the {n:out} command.
+Run {n:help write} for more information on the {n:write} command.
 
 {b:Error handling}
 
diff --git a/marcel/op/download.py b/marcel/op/download.py
index 760ed3f..3bc19b6 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -42,8 +42,8 @@ Copies remote files from each node of a cluster, to a local directory. The outpu
 
 {r:DIR} must be a pre-exising directory.
 
-{r:CLUSTER} must be configured for marcel, (run {n:help cluster} for
-information on configuring clusters).
+{r:CLUSTER} must be configured for marcel, using {n:cluster()} in the startup script,
+(run {n:help startup} for information on the startup script).
 
 The files to be copied are specified by one or more {r:FILENAME}s. Each
 {r:FILENAME} is a file name or a glob pattern, and must be an absolute path, (i.e., it must start with /).
diff --git a/marcel/op/upload.py b/marcel/op/upload.py
index 16a4b3f..92cc115 100644
--- a/marcel/op/upload.py
+++ b/marcel/op/upload.py
@@ -43,8 +43,8 @@ Copies local files to the indicated directory on each node of a cluster. The out
 The files to be copied are specified by one or more {r:FILENAME}s. Each
 {r:FILENAME} is a file name or a glob pattern.
 
-{r:CLUSTER} must be configured for marcel, (run {n:help cluster} for
-information on configuring clusters).
+{r:CLUSTER} must be configured for marcel, using {n:cluster()} in the startup script,
+(run {n:help startup} for information on the startup script).
 
 {r:DIR} must be an absolute path, corresponding to a pre-exising directory
 on each node of the {r:CLUSTER}. The user configured for cluster access
-- 
2.43.0


From 33f9e6db00b630012d9786e345d9e6c67fc94ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 136/187] fix: help crashes if the topic is an expression (C34)

---
 marcel/op/help.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/help.py b/marcel/op/help.py
index 4240b27..9594321 100644
--- a/marcel/op/help.py
+++ b/marcel/op/help.py
@@ -59,7 +59,7 @@ class Help(marcel.core.Op):
     # AbstractOp
     
     def setup(self, env):
-        self.topic = self.topic.lower()
+        self.topic = self.eval_function(env, 'topic', str).lower()
 
     def run(self, env):
         op_module = env.op_modules.get(self.topic, None)
-- 
2.43.0


From ec2a31e24fc35673ad2a310f2a3047aee89feeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 137/187] fix: the color scheme can't be printed without
 colors, e.g. to a file (C34)

---
 marcel/object/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/object/color.py b/marcel/object/color.py
index f515098..2ae45db 100644
--- a/marcel/object/color.py
+++ b/marcel/object/color.py
@@ -116,7 +116,7 @@ class ColorScheme(marcel.object.renderable.Renderable):
 
     def render_full(self, color_scheme):
         def colorize(s, color_name):
-            return marcel.util.colorize(s, getattr(color_scheme, color_name))
+            return marcel.util.colorize(s, getattr(color_scheme, color_name)) if color_scheme else s
         kv = []
         n = 0
         for k in ColorScheme.KEYS:
-- 
2.43.0


From 2fc4e73d89eed0b9e829cf1a5d48412231e47b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 138/187] fix: help assign prints None (C34)

---
 marcel/op/assign.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/marcel/op/assign.py b/marcel/op/assign.py
index 1ab66bc..17b4431 100644
--- a/marcel/op/assign.py
+++ b/marcel/op/assign.py
@@ -21,6 +21,17 @@ import marcel.pipeline
 import marcel.stringliteral
 
 
+HELP = '''
+{L,wrap=F}VAR = VALUE
+
+{L,indent=4:28}{r:VAR}                     The name of a variable.
+
+{L,indent=4:28}{r:VALUE}                   A string, an expression, or a pipeline.
+
+Assigns {r:VALUE} to the variable {r:VAR}. Run {n:help command} for more information.
+'''
+
+
 def assign(var, value):
     return Assign(), [var, value]
 
-- 
2.43.0


From 5b63e5684805bd3e870aa094eb0bf84b511a27dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 139/187] fix: arguments of scripts are split at whitespace
 (C32)

---
 bin/marcel | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/marcel b/bin/marcel
index 45d8ce4..a301aba 100755
--- a/bin/marcel
+++ b/bin/marcel
@@ -8,4 +8,4 @@ function suppress_interruptions()
 trap suppress_interruptions SIGINT
 trap suppress_interruptions SIGTSTP
 
-python3 -m marcel.main $*
+python3 -m marcel.main "$@"
-- 
2.43.0


From 9a0d27f20b9ac30f10dea820a7ab930b689da6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 140/187] fix: a here-document is only executed up to its first
 blank line (C32)

---
 marcel/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 131018d..b65a9af 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -361,10 +361,7 @@ def main_script_run(script):
 
 
 def read_heredoc():
-    lines = []
-    while len(line := sys.stdin.readline().strip()) != 0:
-        lines.append(line)
-    return '\n'.join(lines)
+    return sys.stdin.read()
 
 def read_script(script_path):
     try:
-- 
2.43.0


From 9500e075d1a25ef087baae8b6b76be362b8e0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 141/187] fix: parse_args doesn't reject a value that should be
 an int (C32)

---
 marcel/cliargs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/cliargs.py b/marcel/cliargs.py
index 4a6ebea..4b39d5d 100644
--- a/marcel/cliargs.py
+++ b/marcel/cliargs.py
@@ -223,7 +223,10 @@ class CommandLine(object):
                                 _report_error(f'Value missing for flag: {arg}')
                             a += 1
                             if arg.is_int():
-                                value = int(value)
+                                try:
+                                    value = int(value)
+                                except ValueError:
+                                    _report_error(f'Value of flag must be an int: {token} {value}')
                             yield arg, value
                 else:
                     yield None, token
-- 
2.43.0


From 4583a2c9a2901994adc70ed5efe2cd02f354d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 142/187] fix: startup scripts of a workspace aren't run when a
 script opens the workspace (C32)

---
 marcel/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/main.py b/marcel/main.py
index b65a9af..3ee8879 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -358,6 +358,7 @@ def main_script_run(script):
             workspace = e.workspace_to_open
             env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
             main = MainScript(env)
+            main.run_startup_scripts()
 
 
 def read_heredoc():
-- 
2.43.0


From 5f7cd807f0c7daeac71d88f6efbee2f5b1f2af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 143/187] fix: a script isn't run if stdin is a pipe, what is
 piped is run instead (C32)

---
 marcel/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/util.py b/marcel/util.py
index 3937cca..4a29b01 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -292,12 +292,12 @@ class InputSource(object):
         self._heredoc = False
         self._interactive = False
         self._script = False
-        if stat.S_ISFIFO(mode):
+        if len(sys.argv) > 1:
+            self._script = True
+        elif stat.S_ISFIFO(mode):
             self._heredoc = True
-        elif len(sys.argv) == 1:
-            self._interactive = True
         else:
-            self._script = True
+            self._interactive = True
 
     def __repr__(self):
         source = ('interactive' if self._interactive else
-- 
2.43.0


From 6384b1d46e635b5a595177c42ef073ce187c5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 144/187] fix: startup scripts of a workspace are run again in
 other workspaces (C32)

---
 marcel/env.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/env.py b/marcel/env.py
index 89a8c51..2d5b4e9 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -166,6 +166,8 @@ class Environment(object):
         perm['COLOR_SCHEME'] = lambda env: marcel.object.color.ColorScheme()
         perm['Color'] = lambda env: marcel.object.color.Color
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
+        # Each workspace has its own startup script.
+        marcel.builtin.STARTUP_SCRIPTS = []
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
                 perm[key] = lambda env, value=value: value
-- 
2.43.0


From 4fc3dd648f13629ec2659160e250b2eeafd3d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 145/187] fix: set_prompt has no effect until another workspace
 is opened (C32)

---
 marcel/builtin.py | 4 ++--
 marcel/env.py     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/marcel/builtin.py b/marcel/builtin.py
index 47c7b6e..d3c7246 100644
--- a/marcel/builtin.py
+++ b/marcel/builtin.py
@@ -30,7 +30,7 @@ from marcel.jsonutil import JSONUtil as _JSONUtil
 _JSON_UTIL = _JSONUtil()
 
 STARTUP_SCRIPTS = []
-PROMPT = '$ '
+PROMPT = ['$ ']
 # DB_DEFAULT = None
 
 
@@ -72,4 +72,4 @@ def run_on_startup(script):
 
 def set_prompt(*prompt):
     global PROMPT
-    PROMPT = prompt
+    PROMPT[:] = prompt
diff --git a/marcel/env.py b/marcel/env.py
index 2d5b4e9..aa4fad6 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -166,8 +166,9 @@ class Environment(object):
         perm['COLOR_SCHEME'] = lambda env: marcel.object.color.ColorScheme()
         perm['Color'] = lambda env: marcel.object.color.Color
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
-        # Each workspace has its own startup script.
+        # Each workspace has its own startup script, which modifies these lists.
         marcel.builtin.STARTUP_SCRIPTS = []
+        marcel.builtin.PROMPT = ['$ ']
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
                 perm[key] = lambda env, value=value: value
-- 
2.43.0


From 0b062db32c42e2bb8f5a00507775f05ebff998f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 146/187] fix: sudo and remote fail if the user never ran
 marcel (C26)

---
 bin/farcel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/farcel.py b/bin/farcel.py
index b42437e..48ae282 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -30,6 +30,7 @@ import marcel.exception
 import marcel.object.error
 import marcel.object.workspace
 import marcel.opmodule
+import marcel.persistence.storagelayout
 import marcel.pipeline
 import marcel.nestednamespace
 import marcel.util
@@ -158,6 +159,8 @@ def main():
         # pipeline from client
         pipeline = input.load()
         assert type(pipeline) is marcel.pipeline.PipelineExecutable
+        # This user may not have run marcel before.
+        marcel.persistence.storagelayout.ensure_current()
         env = marcel.env.Environment.create(usage=marcel_usage,
                                             globals=dict() if marcel_usage == 'api' else None)
         version = env.getvar('MARCEL_VERSION')
-- 
2.43.0


From 14ce3ecab3febd08f6be9173607f69ac2ee17b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 147/187] fix: output printed by a pipeline run by sudo or
 remote corrupts its results (C26)

---
 bin/farcel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bin/farcel.py b/bin/farcel.py
index 48ae282..093c13c 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -66,7 +66,11 @@ class PickleOutput(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
-        self.pickler = dill.Pickler(sys.stdout.buffer)
+        # The client expects nothing but pickled output from stdout. Anything printed by the pipeline, e.g. by write,
+        # goes to stderr.
+        self.stdout = os.fdopen(os.dup(1), 'wb')
+        os.dup2(2, 1)
+        self.pickler = dill.Pickler(self.stdout)
 
     def __repr__(self):
         return 'pickleoutput()'
@@ -80,7 +84,7 @@ class PickleOutput(marcel.core.Op):
 
     def cleanup(self):
         TRACE.write('Closing stdout')
-        sys.stdout.buffer.close()
+        self.stdout.close()
 
     def receive_error(self, env, error):
         TRACE.write(f'Pickling error: ({type(error)}) {error}')
@@ -111,6 +115,8 @@ class PipelineRunner(threading.Thread):
             with TRACE.open() as file:
                 marcel.util.print_stack_of_current_exception(file)
             self.pickler.receive_error(self.env, marcel.object.error.Error(e))
+        finally:
+            self.pickler.cleanup()
         TRACE.write('PipelineRunner: Execution complete.')
 
     def check_python_version(self):
-- 
2.43.0


From a9b1805f8e01a8a5ff3d3e09bea75fe7c9cda9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 148/187] fix: output of sudo or remote that can't be pickled
 corrupts the output following it (C26)

---
 bin/farcel.py       | 10 +++++++---
 marcel/op/remote.py |  4 ++--
 marcel/op/sudo.py   |  4 ++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/bin/farcel.py b/bin/farcel.py
index 093c13c..33ca47d 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -70,7 +70,6 @@ class PickleOutput(marcel.core.Op):
         # goes to stderr.
         self.stdout = os.fdopen(os.dup(1), 'wb')
         os.dup2(2, 1)
-        self.pickler = dill.Pickler(self.stdout)
 
     def __repr__(self):
         return 'pickleoutput()'
@@ -80,7 +79,12 @@ class PickleOutput(marcel.core.Op):
 
     def receive(self, env, x):
         TRACE.write(f'Pickling: ({type(x)}) {x}')
-        self.pickler.dump(x)
+        try:
+            pickled = dill.dumps(x)
+        except Exception as e:
+            self.receive_error(env, marcel.object.error.Error(f'Unable to send output: {e}'))
+        else:
+            self.stdout.write(pickled)
 
     def cleanup(self):
         TRACE.write('Closing stdout')
@@ -88,7 +92,7 @@ class PickleOutput(marcel.core.Op):
 
     def receive_error(self, env, error):
         TRACE.write(f'Pickling error: ({type(error)}) {error}')
-        self.pickler.dump(error)
+        self.stdout.write(dill.dumps(error))
         super().receive_error(env, error)
 
 
diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 1b69a8a..0c670ff 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -155,10 +155,10 @@ class Remote(marcel.core.Op):
                 for line in stderr_lines:
                     print(line, file=sys.stderr)
                 sys.stderr.flush()
-                input = dill.Unpickler(io.BytesIO(stdout))
+                input = io.BytesIO(stdout)
                 try:
                     while True:
-                        x = input.load()
+                        x = dill.load(input)
                         if isinstance(x, marcel.object.error.Error):
                             self.send_error(env, x)
                         else:
diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 665ba67..2c4699b 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -118,10 +118,10 @@ class Sudo(marcel.core.Op):
         for line in stderr_lines:
             print(line, file=sys.stderr)
         sys.stderr.flush()
-        input = dill.Unpickler(io.BytesIO(stdout))
+        input = io.BytesIO(stdout)
         try:
             while True:
-                self.send(env, input.load())
+                self.send(env, dill.load(input))
         except EOFError:
             self.propagate_flush(env)
 
-- 
2.43.0


From b183cb841d49a7dae514f890e7ef8d2c6bea9dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 149/187] fix: operators following sudo process its errors as
 if they were output (C26)

---
 marcel/op/sudo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 2c4699b..ae5db08 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -22,6 +22,7 @@ import dill
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.object.error
 import marcel.pipeline
 import marcel.util
 
@@ -121,7 +122,11 @@ class Sudo(marcel.core.Op):
         input = io.BytesIO(stdout)
         try:
             while True:
-                self.send(env, dill.load(input))
+                x = dill.load(input)
+                if isinstance(x, marcel.object.error.Error):
+                    self.send_error(env, x)
+                else:
+                    self.send(env, x)
         except EOFError:
             self.propagate_flush(env)
 
-- 
2.43.0


From 40e68fc21ff7bf146e9273e1587dab687211863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 150/187] fix: arguments of sudo are split at whitespace and
 interpreted by the shell (C26)

---
 marcel/op/sudo.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index ae5db08..497565c 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -93,13 +93,15 @@ class Sudo(marcel.core.Op):
 
     def run(self, env):
         # Start the remote process
-        command = ' '.join(['sudo'] + self.args[:-1] + ['farcel.py'])
-        self.process = subprocess.Popen(command,
-                                        stdin=subprocess.PIPE,
-                                        stdout=subprocess.PIPE,
-                                        stderr=subprocess.PIPE,
-                                        shell=True,
-                                        universal_newlines=False)
+        command = ['sudo'] + [marcel.util.string_value(arg) for arg in self.args[:-1]] + ['farcel.py']
+        try:
+            self.process = subprocess.Popen(command,
+                                            stdin=subprocess.PIPE,
+                                            stdout=subprocess.PIPE,
+                                            stderr=subprocess.PIPE,
+                                            universal_newlines=False)
+        except OSError as e:
+            raise marcel.exception.KillCommandException(e)
         # The pipelines's environment will be set remotely.
         # Send the python version, environment and pipelines, (as in Remote)
         buffer = io.BytesIO()
-- 
2.43.0


From 2e27102d45f1352ffa4fc492dfa2752a5eee6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 151/187] fix: hosts that differ only in the port are equal,
 and comparing a host with anything else fails (C26)

---
 marcel/object/cluster.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/marcel/object/cluster.py b/marcel/object/cluster.py
index 31ac70e..421ed16 100644
--- a/marcel/object/cluster.py
+++ b/marcel/object/cluster.py
@@ -24,20 +24,19 @@ class Host(object):
 
     def __init__(self, cluster, host):
         self.cluster = cluster
-        self._host = host
+        self._host, self._port = host if type(host) in (tuple, list) and len(host) == 2 else (host, None)
         self._addr = None
         self._name = None
-        self._port = None
 
     def __repr__(self):
         self.ensure_initialized()
         return self._name if self._port is None else f'{self._name}:{self._port}'
 
     def __hash__(self):
-        return hash(self._host)
+        return hash((self._host, self._port))
 
     def __eq__(self, other):
-        return self._host == other._host
+        return isinstance(other, Host) and self._host == other._host and self._port == other._port
 
     @property
     def host(self):
@@ -62,8 +61,6 @@ class Host(object):
     
     def ensure_initialized(self):
         if self._addr is None:
-            if type(self._host) in (tuple, list) and len(self._host) == 2:
-                self._host, self._port = self._host
             if not isinstance(self._host, str):
                 raise marcel.exception.KillShellException(
                     f'Invalid host specification: {self._host}. Specify a string or 2-tuple')
-- 
2.43.0


From 18491cfd151e016a2b637c907568f2bf7944b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 152/187] fix: a pair of hosts given as the host of a cluster
 is accepted, with the second host as port (C26)

---
 marcel/object/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/object/cluster.py b/marcel/object/cluster.py
index 421ed16..133031f 100644
--- a/marcel/object/cluster.py
+++ b/marcel/object/cluster.py
@@ -99,7 +99,7 @@ class Cluster(object):
         if host is not None and type(host) in (tuple, list):
             # host=('localhost', 22) is clearly a single host with a port specified, and not a pair of hosts.
             # Allow a (str, int) tuple to be interpreted as a single host.
-            if not (isinstance(host[0], str) and type(host[1] is int)):
+            if not (len(host) == 2 and isinstance(host[0], str) and type(host[1]) is int):
                 raise marcel.exception.KillShellException(
                     'host specification must be single-valued. Did you mean hosts?')
         if hosts is not None and type(hosts) not in (tuple, list):
-- 
2.43.0


From 4d483f8f01032faa2af74c724f59c5e03f748b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 153/187] fix: upload, download and remote fail for names that
 a shell would split, and for IPv6 addresses (C26)

---
 marcel/object/cluster.py | 6 ++++++
 marcel/op/download.py    | 6 +++---
 marcel/op/remote.py      | 4 ++--
 marcel/op/upload.py      | 4 ++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/marcel/object/cluster.py b/marcel/object/cluster.py
index 133031f..c3d4594 100644
--- a/marcel/object/cluster.py
+++ b/marcel/object/cluster.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import ipaddress
+import shlex
 import socket
 
 import marcel.exception
@@ -57,6 +58,11 @@ class Host(object):
         self.ensure_initialized()
         return self._port
     
+    # The path on this host, for scp. It is quoted, as it will be interpreted by a shell.
+    def scp_path(self, path):
+        addr = f'[{self.addr}]' if ':' in self.addr else self.addr
+        return shlex.quote(f'{self.cluster.user}@{addr}:{path}')
+
     # Internal
     
     def ensure_initialized(self):
diff --git a/marcel/op/download.py b/marcel/op/download.py
index 3bc19b6..69c88d2 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -116,11 +116,11 @@ class Download(marcel.core.Op):
         buffer = []
         buffer.append('scp -Cpqr')
         if cluster.identity:
-            buffer.extend(['-i', cluster.identity])
+            buffer.extend(['-i', marcel.util.quote_files(cluster.identity)])
         for source in sources:
-            buffer.append(f'{cluster.user}@{host.addr}:{marcel.util.quote_files(source)}')
+            buffer.append(host.scp_path(source))
         node_dir = dest / host.name
-        buffer.append(node_dir.as_posix())
+        buffer.append(marcel.util.quote_files(node_dir))
         scp_command = ' '.join(buffer)
         return scp_command
 
diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 0c670ff..853d46f 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -174,10 +174,10 @@ class Remote(marcel.core.Op):
             buffer = []
             buffer.append('ssh')
             if cluster.identity:
-                buffer.extend(['-i', cluster.identity])
+                buffer.extend(['-i', marcel.util.quote_files(cluster.identity)])
             if self.host.port is not None:
                 buffer.extend(['-p', str(self.host.port)])
-            buffer.extend([f'{cluster.user}@{self.host.addr}', env.platform.remote_farcel_invocation()])
+            buffer.extend([marcel.util.quote_files(f'{cluster.user}@{self.host.addr}'), env.platform.remote_farcel_invocation()])
             return ' '.join(buffer)
 
         # Op
diff --git a/marcel/op/upload.py b/marcel/op/upload.py
index 92cc115..5f9487e 100644
--- a/marcel/op/upload.py
+++ b/marcel/op/upload.py
@@ -113,10 +113,10 @@ class Upload(marcel.core.Op):
         buffer = []
         buffer.append('scp -Cpqr')
         if cluster.identity:
-            buffer.extend(['-i', cluster.identity])
+            buffer.extend(['-i', marcel.util.quote_files(cluster.identity)])
         if host.port is not None:
             buffer.extend(['-P', str(host.port)])
-        buffer.extend([sources, f'{cluster.user}@{host.addr}:{dest}'])
+        buffer.extend([sources, host.scp_path(dest)])
         scp_command = ' '.join(buffer)
         return scp_command
 
-- 
2.43.0


From 5564a33b9998d228f4996e11be7d931930f21746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 154/187] fix: download ignores the port of a host (C26)

---
 marcel/op/download.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/download.py b/marcel/op/download.py
index 69c88d2..7b7b73a 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -117,6 +117,8 @@ class Download(marcel.core.Op):
         buffer.append('scp -Cpqr')
         if cluster.identity:
             buffer.extend(['-i', marcel.util.quote_files(cluster.identity)])
+        if host.port is not None:
+            buffer.extend(['-P', str(host.port)])
         for source in sources:
             buffer.append(host.scp_path(source))
         node_dir = dest / host.name
-- 
2.43.0


From a64807d501412f8421a8faa54be637a5e685533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 155/187] fix: download crashes if a filename is a Path or File
 (C26)

---
 marcel/op/download.py | 3 ++-
 marcel/op/upload.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/op/download.py b/marcel/op/download.py
index 7b7b73a..2287ab0 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -84,7 +84,7 @@ class Download(marcel.core.Op):
         self.dir = self.eval_function(env,
                                       'dir_arg',
                                       str, pathlib.Path, pathlib.PosixPath, File)
-        self.dir = pathlib.Path(self.dir)
+        self.dir = self.dir.path if type(self.dir) is File else pathlib.Path(self.dir)
         self.dir = marcel.op.filenames.Filenames(env, [self.dir]).normalize()
         if len(self.dir) == 0:
             raise marcel.exception.KillCommandException(f'Target directory does not exist: {self.dir_arg}')
@@ -95,6 +95,7 @@ class Download(marcel.core.Op):
                                             str, pathlib.Path, pathlib.PosixPath, File)
         if len(self.filenames) == 0:
             raise marcel.exception.KillCommandException('No remote files specified')
+        self.filenames = [str(filename.path if type(filename) is File else filename) for filename in self.filenames]
         for filename in self.filenames:
             if not filename.startswith('/'):
                 raise marcel.exception.KillCommandException(f'Remote filenames must be absolute: {filename}')
diff --git a/marcel/op/upload.py b/marcel/op/upload.py
index 5f9487e..686aa43 100644
--- a/marcel/op/upload.py
+++ b/marcel/op/upload.py
@@ -85,7 +85,7 @@ class Upload(marcel.core.Op):
         self.dir = self.eval_function(env,
                                       'dir_arg',
                                       str, pathlib.Path, pathlib.PosixPath, File)
-        self.dir = pathlib.Path(self.dir)
+        self.dir = self.dir.path if type(self.dir) is File else pathlib.Path(self.dir)
         if not self.dir.is_absolute():
             raise marcel.exception.KillCommandException(f'Target directory must be absolute: {self.dir}')
         self.filenames = self.eval_function(env,
-- 
2.43.0


From 902be72253794b18cb8979ab9d71e55d3d4794f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 156/187] fix: download expands quoted patterns (C26)

---
 marcel/op/download.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/download.py b/marcel/op/download.py
index 2287ab0..0337f9c 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -59,9 +59,9 @@ class DownloadArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('download', env)
-        self.add_anon('dir', convert=self.check_filename, target='dir_arg')
+        self.add_anon('dir', convert=self.check_str_or_file, target='dir_arg')
         self.add_anon('cluster', convert=self.cluster)
-        self.add_anon_list('filenames', convert=self.check_str_or_file, target='filenames_arg')
+        self.add_anon_list('filenames', convert=self.check_filename, target='filenames_arg')
         self.validate()
 
 
-- 
2.43.0


From 59cce758189acae04ad3cb7a9ffc92e0cd52365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:37 +0000
Subject: [PATCH 157/187] fix: output of sudo or remote that can't be read
 crashes marcel, or isn't reported as an error (C26)

---
 marcel/op/remote.py | 49 ++++++++++++++++++++-------------------------
 marcel/op/sudo.py   | 18 +++++++++--------
 2 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 853d46f..bca595d 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -139,35 +139,30 @@ class Remote(marcel.core.Op):
                                             universal_newlines=False)
             buffer = io.BytesIO()
             pickler = dill.Pickler(buffer)
-            try:
-                pickler.dump(marcel.util.python_version())
-                pickler.dump(env.marcel_usage())
-                self.pipeline.pickle(env, pickler)
-            except Exception as e:
-                print(f'Caught ({type(e)} {e}', file=sys.stderr)
+            pickler.dump(marcel.util.python_version())
+            pickler.dump(env.marcel_usage())
+            self.pipeline.pickle(env, pickler)
             buffer.seek(0)
-            try:
-                stdout, stderr = self.process.communicate(input=buffer.getvalue())
-                stderr_lines = stderr.decode('utf-8').split('\n')
-                if len(stderr_lines[-1]) == 0:
-                    del stderr_lines[-1]
-                sys.stdout.flush()
-                for line in stderr_lines:
-                    print(line, file=sys.stderr)
-                sys.stderr.flush()
-                input = io.BytesIO(stdout)
+            stdout, stderr = self.process.communicate(input=buffer.getvalue())
+            stderr_lines = stderr.decode('utf-8').split('\n')
+            if len(stderr_lines[-1]) == 0:
+                del stderr_lines[-1]
+            sys.stdout.flush()
+            for line in stderr_lines:
+                print(line, file=sys.stderr)
+            sys.stderr.flush()
+            input = io.BytesIO(stdout)
+            while input.tell() < len(stdout):
                 try:
-                    while True:
-                        x = dill.load(input)
-                        if isinstance(x, marcel.object.error.Error):
-                            self.send_error(env, x)
-                        else:
-                            self.send(env, x)
-                except EOFError as e:
-                    self.propagate_flush(env)
-            except BaseException as e:
-                marcel.util.print_stack_of_current_exception()
-                print(e)
+                    x = dill.load(input)
+                except Exception as e:
+                    self.non_fatal_error(env, message=f'Unable to read output from {self.host}: {e}')
+                    break
+                if isinstance(x, marcel.object.error.Error):
+                    self.send_error(env, x)
+                else:
+                    self.send(env, x)
+            self.propagate_flush(env)
 
         def farcel_invocation(self, env):
             cluster = self.host.cluster
diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 497565c..6883080 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -122,15 +122,17 @@ class Sudo(marcel.core.Op):
             print(line, file=sys.stderr)
         sys.stderr.flush()
         input = io.BytesIO(stdout)
-        try:
-            while True:
+        while input.tell() < len(stdout):
+            try:
                 x = dill.load(input)
-                if isinstance(x, marcel.object.error.Error):
-                    self.send_error(env, x)
-                else:
-                    self.send(env, x)
-        except EOFError:
-            self.propagate_flush(env)
+            except Exception as e:
+                self.non_fatal_error(env, message=f'Unable to read output: {e}')
+                break
+            if isinstance(x, marcel.object.error.Error):
+                self.send_error(env, x)
+            else:
+                self.send(env, x)
+        self.propagate_flush(env)
 
     def must_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 816dd8f6b2fe7604c1f03ceaabafcf10882bdd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:37 +0000
Subject: [PATCH 158/187] fix: sudo and remote fail if something is printed
 that isn't UTF-8 (C26)

---
 marcel/op/remote.py | 2 +-
 marcel/op/sudo.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index bca595d..a0504b4 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -144,7 +144,7 @@ class Remote(marcel.core.Op):
             self.pipeline.pickle(env, pickler)
             buffer.seek(0)
             stdout, stderr = self.process.communicate(input=buffer.getvalue())
-            stderr_lines = stderr.decode('utf-8').split('\n')
+            stderr_lines = stderr.decode('utf-8', errors='replace').split('\n')
             if len(stderr_lines[-1]) == 0:
                 del stderr_lines[-1]
             sys.stdout.flush()
diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 6883080..7ecee3c 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -114,7 +114,7 @@ class Sudo(marcel.core.Op):
         # Wait for completion (already guaranteed by communicate returning?)
         self.process.wait()
         # Handle results
-        stderr_lines = stderr.decode('utf-8').split('\n')
+        stderr_lines = stderr.decode('utf-8', errors='replace').split('\n')
         if len(stderr_lines[-1]) == 0:
             del stderr_lines[-1]
         sys.stdout.flush()
-- 
2.43.0


From 6dd06da3f24658260c4a4950c7d37925725adf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 159/187] fix: an error in the first operator of a pipeline run
 by sudo or remote is reported twice (C26)

---
 bin/farcel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/farcel.py b/bin/farcel.py
index 33ca47d..a6947e0 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -114,6 +114,9 @@ class PipelineRunner(threading.Thread):
             TRACE.write(f'PipelineRunner: About to run {self.pipeline}')
             self.pipeline.run(self.env)
             self.pipeline.flush(self.env)
+        except marcel.exception.KillAndResumeException:
+            # The error has been sent
+            pass
         except BaseException as e:
             TRACE.write(f'PipelineRunner.run caught {type(e)}: {e}')
             with TRACE.open() as file:
-- 
2.43.0


From dcc85561e5642d933064de538df1607342b64be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 160/187] fix: functions of case and filter are not callable in
 pipelines run by sudo or remote (C26)

---
 bin/farcel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/farcel.py b/bin/farcel.py
index a6947e0..84eda65 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -110,6 +110,7 @@ class PipelineRunner(threading.Thread):
         try:
             # self.check_python_version()
             TRACE.write(f'PipelineRunner: About to setup {self.pipeline}')
+            self.pipeline.ensure_functions_compiled(self.env)
             self.pipeline.setup(self.env)
             TRACE.write(f'PipelineRunner: About to run {self.pipeline}')
             self.pipeline.run(self.env)
-- 
2.43.0


From fe7add65273afc499a8d57d2424afd24676d4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 161/187] fix: sudo and remote fail if a function is output
 (C26)

---
 bin/farcel.py            | 5 +++--
 marcel/op/forkmanager.py | 6 +++++-
 marcel/op/remote.py      | 2 +-
 marcel/op/sudo.py        | 3 ++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/bin/farcel.py b/bin/farcel.py
index 84eda65..2891320 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -29,6 +29,7 @@ import marcel.env
 import marcel.exception
 import marcel.object.error
 import marcel.object.workspace
+import marcel.op.forkmanager
 import marcel.opmodule
 import marcel.persistence.storagelayout
 import marcel.pipeline
@@ -80,7 +81,7 @@ class PickleOutput(marcel.core.Op):
     def receive(self, env, x):
         TRACE.write(f'Pickling: ({type(x)}) {x}')
         try:
-            pickled = dill.dumps(x)
+            pickled = marcel.op.forkmanager.dumps(env, x)
         except Exception as e:
             self.receive_error(env, marcel.object.error.Error(f'Unable to send output: {e}'))
         else:
@@ -92,7 +93,7 @@ class PickleOutput(marcel.core.Op):
 
     def receive_error(self, env, error):
         TRACE.write(f'Pickling error: ({type(error)}) {error}')
-        self.stdout.write(dill.dumps(error))
+        self.stdout.write(marcel.op.forkmanager.dumps(env, error))
         super().receive_error(env, error)
 
 
diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 00c9d40..6d82cd0 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -42,7 +42,11 @@ def dumps(env, x):
 
 
 def loads(env, pickled):
-    return marcel.object.workspace.EnvironmentUnpickler(io.BytesIO(pickled), env.workspace.namespace).load()
+    return load(env, io.BytesIO(pickled))
+
+
+def load(env, file):
+    return marcel.object.workspace.EnvironmentUnpickler(file, env.workspace.namespace).load()
 
 
 class SendToParent(marcel.core.Op):
diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index a0504b4..43c8c04 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -154,7 +154,7 @@ class Remote(marcel.core.Op):
             input = io.BytesIO(stdout)
             while input.tell() < len(stdout):
                 try:
-                    x = dill.load(input)
+                    x = marcel.op.forkmanager.load(env, input)
                 except Exception as e:
                     self.non_fatal_error(env, message=f'Unable to read output from {self.host}: {e}')
                     break
diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 7ecee3c..71f5918 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -23,6 +23,7 @@ import marcel.argsparser
 import marcel.core
 import marcel.exception
 import marcel.object.error
+import marcel.op.forkmanager
 import marcel.pipeline
 import marcel.util
 
@@ -124,7 +125,7 @@ class Sudo(marcel.core.Op):
         input = io.BytesIO(stdout)
         while input.tell() < len(stdout):
             try:
-                x = dill.load(input)
+                x = marcel.op.forkmanager.load(env, input)
             except Exception as e:
                 self.non_fatal_error(env, message=f'Unable to read output: {e}')
                 break
-- 
2.43.0


From 20be65a19a1b88a5df8a63d1b810f47656eb2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 162/187] fix: sending a function defined by marcel, e.g.
 parse_args, to another process breaks the environment (C26)

---
 marcel/object/workspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 82a2006..6a7b913 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -243,7 +243,11 @@ class EnvironmentPickler(dill.Pickler):
         self.namespace = namespace
 
     def persistent_id(self, x):
-        return 'namespace' if x is self.namespace and x is not None else None
+        # Functions defined by marcel, e.g. parse_args, have references to the environment.
+        return (None if self.namespace is None or x is None else
+                'namespace' if x is self.namespace else
+                'environment' if x is self.namespace.env else
+                None)
 
     def reducer_override(self, x):
         return ((types.FunctionType,
@@ -260,7 +264,7 @@ class EnvironmentUnpickler(dill.Unpickler):
         self.namespace = namespace
 
     def persistent_load(self, id):
-        return self.namespace
+        return self.namespace.env if id == 'environment' else self.namespace
 
 
 class Workspace(marcel.object.renderable.Renderable, VarHandler):
-- 
2.43.0


From 28d66234b0b9d4cbf03c1581b074665c2bf75595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:31 +0000
Subject: [PATCH 163/187] fix: a pipeline run by sudo or remote that forks may
 hang (C26)

---
 bin/farcel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/farcel.py b/bin/farcel.py
index 2891320..499370a 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -165,8 +165,9 @@ def main():
         TRACE.write('-' * 80)
         TRACE.write(getpass.getuser())
         TRACE.write(f'{datetime.datetime.now()}')
-        # Use sys.stdin.buffer because we want binary data, not the text version
-        input = dill.Unpickler(sys.stdin.buffer)
+        # Binary data is needed, not the text version. Don't use sys.stdin.buffer: It is locked while waiting for a signal.
+        # If the pipeline forks then, the child process would wait for that lock forever, on closing its stdin.
+        input = dill.Unpickler(open(0, 'rb', closefd=False))
         # Python version from client
         client_python_version = input.load()
         # Client-side marcel usage, api or script.
-- 
2.43.0


From 7ad15fa0963ca907a49bfbd4303a6e059c907e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:47 +0000
Subject: [PATCH 164/187] fix: a command whose arguments or value can't be
 computed printed a second, internal, error (C14)

---
 marcel/op/write.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index 77e0308..d7919ae 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -161,6 +161,9 @@ class Write(marcel.core.Op):
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
+        if self.writer is None:
+            # An upstream op failed during setup. The error will be reported elsewhere.
+            return
         try:
             self.writer.receive_error(env, error)
         except Exception as e:  # E.g. UnicodeEncodeError
-- 
2.43.0


From 28904557b87b486356151fccb583e30267740549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 165/187] fix: commands could modify and delete variables
 defined by marcel or the startup script (C32)

---
 marcel/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/main.py b/marcel/main.py
index 3ee8879..cef63a9 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -152,6 +152,8 @@ class MainScript(Main):
                     'Startup scripts, specified by run_on_startup(), must be strings')
             for command in commands_in_script(script):
                 self.parse_and_run_command(command)
+        # Startup is done. The variables it defined cannot be modified from now on.
+        self.env.enforce_var_immutability()
 
     @staticmethod
     def update_version_file():
-- 
2.43.0


From 517631a9cc340b48a9e682489f9df0a79c3b8627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:46 +0000
Subject: [PATCH 166/187] fix: a variable whose value can't be pickled ended an
 interactive session, and made fork fail (C33)

---
 marcel/env.py              | 11 +++++++++--
 marcel/object/workspace.py | 19 ++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index aa4fad6..cc582af 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -107,7 +107,11 @@ class Environment(object):
         return {'usage': self.usage,
                 'trace': self.trace,
                 'workspace': None if self.workspace.is_default() else self.workspace.name,
-                'namespace': self.workspace.vars().to_persistent_state()}
+                # A variable whose value can't be pickled cannot be used in the other process.
+                'namespace': self.workspace.pickle_picklable(self.workspace.vars().to_persistent_state(),
+                                                             lambda var, e: None),
+                'immutable': self.workspace._enforce_immutability,
+                'dirs': self.getvar('DIRS')}
 
     def __setstate__(self, state):
         from marcel.object.workspace import Workspace
@@ -122,7 +126,10 @@ class Environment(object):
             env = marcel.api._ENV
         else:
             env = Environment.create(workspace=workspace, usage=usage)
-        env.workspace.namespace.from_persistent_state(env, namespace)
+        env.workspace.namespace.from_persistent_state(env, env.workspace.unpickle_environment(namespace))
+        env.assign_permanent('DIRS', state['dirs'])
+        if state['immutable']:
+            env.enforce_var_immutability()
         env.trace = trace
         self.__dict__ = env.__dict__
 
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 6a7b913..0b243c9 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -539,11 +539,22 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 unpickler = EnvironmentUnpickler(environment_file, self.namespace)
                 return unpickler.load()
 
+    def unpickle_environment(self, pickled):
+        return EnvironmentUnpickler(io.BytesIO(pickled), self.namespace).load()
+
     def write_environment(self, persistent_state, env=None):
         assert persistent_state is not None
         # Pickle before opening the file, so that a value that can't be pickled doesn't destroy the file.
+        pickled = self.pickle_picklable(
+            persistent_state,
+            lambda var, e: marcel.util.print_to_stderr(env, f'Unable to save the value of {var}: {e}'))
+        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
+            environment_file.write(pickled)
+
+    # Pickles the state of variables, omitting those that can't be pickled.
+    def pickle_picklable(self, persistent_state, handle_error):
         try:
-            pickled = self.pickle_environment(persistent_state)
+            return self.pickle_environment(persistent_state)
         except Exception:
             picklable = {}
             for var, state in persistent_state.items():
@@ -551,10 +562,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                     self.pickle_environment(state)
                     picklable[var] = state
                 except Exception as e:
-                    marcel.util.print_to_stderr(env, f'Unable to save the value of {var}: {e}')
-            pickled = self.pickle_environment(picklable)
-        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            environment_file.write(pickled)
+                    handle_error(var, e)
+            return self.pickle_environment(picklable)
 
     def pickle_environment(self, state):
         buffer = io.BytesIO()
-- 
2.43.0


From eec865d47b9424ccd422fea17edd0d3a4a2d4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:46 +0000
Subject: [PATCH 167/187] fix: jobs' changes of the directory stack, deletions,
 imports and functions were lost, or applied too late (C33)

---
 marcel/env.py              | 18 +++++++++++++++++-
 marcel/job.py              | 30 +++++++++++++++++++++++-------
 marcel/main.py             | 10 +---------
 marcel/nestednamespace.py  |  5 ++++-
 marcel/object/workspace.py | 36 +++++++++++++++++++++++++-----------
 5 files changed, 70 insertions(+), 29 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index cc582af..ea86805 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -83,6 +83,7 @@ class Environment(object):
         self.locations = marcel.locations.Locations()
         self.directory_state = marcel.directorystate.DirectoryState(self)
         self.config_path = None
+        self.initial_dirs = None  # Directory state when a job started
         self.reader = None  # Set in an interactive session
         self.op_modules = marcel.opmodule.import_op_modules()
         # Output from an executable is handled by a thread of its own, so more than one op may be running.
@@ -219,11 +220,26 @@ class Environment(object):
     def check_nesting(self):
         return CheckNestingNoop() if self.api_usage() else CheckNesting(self)
 
+    # Changes made by a command running in a job's process, to be applied in the main process.
     def changes(self):
-        return self.workspace.changes()
+        written, deleted = self.workspace.changes()
+        pickled = self.workspace.pickle_picklable(
+            written,
+            lambda var, e: marcel.util.print_to_stderr(self, f'Unable to keep the value of {var}: {e}'))
+        dirs = self.getvar('PWD'), self.getvar('DIRS')
+        return pickled, deleted, None if self.initial_dirs in (None, dirs) else dirs
 
     def clear_changes(self):
         self.workspace.clear_changes()
+        self.initial_dirs = self.getvar('PWD'), list(self.getvar('DIRS'))
+
+    def apply_changes(self, changes):
+        pickled, deleted, dirs = changes
+        self.workspace.apply_changes(self, (self.workspace.unpickle_environment(pickled), deleted))
+        if dirs:
+            pwd, dirs = dirs
+            self.dir_state().change_current_dir(pwd)
+            self.assign_permanent('DIRS', dirs)
 
     def set_function_globals(self, function):
         function.ensure_compiled(self.workspace.namespace)
diff --git a/marcel/job.py b/marcel/job.py
index 0fd5e3e..4049aba 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -20,8 +20,6 @@ import signal
 import sys
 import threading
 
-import dill
-
 import marcel.exception
 import marcel.object.error
 import marcel.reservoir
@@ -70,17 +68,19 @@ def run_command_in_child(env, command, writer):
     except marcel.exception.KillCommandException as e:
         debug(f'caught {e}')
         marcel.util.print_to_stderr(env, e)
+        # What was done before the failure is not undone.
+        child_namespace_changes = env.changes()
     except marcel.exception.KillAndResumeException as e:
         debug(f'caught {e}')
         # Error handler printed the error
-        pass
+        child_namespace_changes = env.changes()
     except KeyboardInterrupt as e:
         debug(f'caught {e}')
         raise
     finally:
         if child_namespace_changes is not None:
-            debug(f'completed: {command.source} namespace changes: {child_namespace_changes.keys()}')
-            writer.send(dill.dumps(child_namespace_changes))
+            debug(f'completed: {command.source} namespace changes: {child_namespace_changes}')
+            writer.send(child_namespace_changes)
         writer.close()
 
 
@@ -95,12 +95,14 @@ class Job:
 
     # Params
     JOIN_DELAY_SEC = 0.2
+    CHANGES_DELAY_SEC = 5
 
     def __init__(self, env, command):
         self.env = env
         self.command = command
         self.state = Job.RUNNING_FOREGROUND
         self.process = None
+        self.changes_applied = None
         self.start_process()
 
     def __repr__(self):
@@ -170,7 +172,7 @@ class Job:
         # other direction
         debug(f'About to spawn process for {self.command.source}')
         reader, writer = mp.Pipe(duplex=False)
-        JobControl.only.child_listener.add_listener(reader)
+        self.changes_applied = JobControl.only.child_listener.add_listener(reader)
         debug('Job.start_process')
         self.process = mp.Process(target=run_command_in_child, args=(self.env, self.command, writer))
         self.process.daemon = False
@@ -206,13 +208,17 @@ class ChildListener(threading.Thread):
         self.child_completion_handler = child_completion_handler
         self.waiter = threading.Condition()
         self.listeners = []
+        self.done = {}  # Listener -> Event, set when there is nothing more to come
         self.stop = False
 
     def add_listener(self, listener):
+        done = threading.Event()
         self.waiter.acquire()
         self.listeners.append(listener)
+        self.done[listener] = done
         self.waiter.notify()
         self.waiter.release()
+        return done
 
     def run(self):
         to_remove = []
@@ -221,6 +227,8 @@ class ChildListener(threading.Thread):
             # Remove any listeners that threw EOFError in a previous iteration
             for listener in to_remove:
                 self.listeners.remove(listener)
+                del self.done[listener]
+                listener.close()
             to_remove.clear()
             # Wait until a listener has something
             while not self.stop and len(self.listeners) == 0:
@@ -234,9 +242,12 @@ class ChildListener(threading.Thread):
                 try:
                     input = listener.recv()
                     if input is not None:
-                        self.child_completion_handler(dill.loads(input))
+                        self.child_completion_handler(input)
                 except EOFError:
                     to_remove.append(listener)
+                    self.done[listener].set()
+                except Exception as e:
+                    print(f'Unable to apply the changes made by a job: {e}', file=sys.stderr)
 
     def stop_listening(self):
         self.stop = True
@@ -293,9 +304,14 @@ class JobControl:
         # TODO: It would be nice to write: while (foreground := self.foreground) and ...
         # TODO: but that would preclude Python 3.6.
         foreground = self.foreground()
+        job = None
         while foreground and foreground.state != Job.DEAD:
+            job = foreground
             foreground.process.join(0.1)
             foreground = self.foreground()
+        # The next command depends on changes made by this one.
+        if job and job.state == Job.DEAD:
+            job.changes_applied.wait(Job.CHANGES_DELAY_SEC)
         debug(f'idle')
 
     def ctrl_c_handler(self, signum, frame):
diff --git a/marcel/main.py b/marcel/main.py
index cef63a9..bf63d41 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -230,15 +230,7 @@ class MainInteractive(MainScript):
     # Internal
 
     def update_namespace(self, child_namespace_changes):
-        # pwd requires special handling
-        try:
-            pwd = child_namespace_changes['PWD']
-            self.env.dir_state().change_current_dir(pathlib.Path(pwd))
-        except KeyError:
-            # PWD wasn't changed
-            pass
-        for var, value in child_namespace_changes.items():
-            self.env.setvar(var, value)
+        self.env.apply_changes(child_namespace_changes)
 
     def check_for_config_update(self):
         config_path = self.env.locations.config_ws_startup(self.env.workspace)
diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index ba36ae0..cdfa34b 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -461,10 +461,13 @@ class NestedNamespace(dict):
     def current_scope(self):
         return self.scopes[-1]
 
-    def to_persistent_state(self):
+    # vars: names of the variables of interest. All of them, if omitted.
+    def to_persistent_state(self, vars=None):
         persistent = {}
         for k, v in self.scopes[0].items():
             assert isinstance(v, EnvValue), f'{k}: {v}'
+            if vars is not None and k not in vars:
+                continue
             persistent[k] = (v.__class__.__name__, v.to_persistent_state())
         return persistent
 
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 0b243c9..02412e0 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -121,6 +121,8 @@ class VarHandler(object):
         # Vars that have changed during execution of a command. Returned from Job execution
         # So that changes can be applied in the main process's namespace.
         self.vars_written = set()
+        # Vars that have been deleted during execution of a command. May have been assigned again later.
+        self.vars_deleted = set()
         # Immutability of immutable_vars is enforced during normal operation.
         # Marcel startup/shutdown is permitted to change these vars by turning off
         # enforcement.
@@ -150,6 +152,7 @@ class VarHandler(object):
     def setvar_import(self, var, module, symbol, value):
         assert var is not None
         self.check_mutability(var)
+        self.vars_written.add(var)
         self.namespace.assign_import(var, module, symbol, value)
 
     def delvar(self, var):
@@ -160,6 +163,7 @@ class VarHandler(object):
             if type(value) is marcel.reservoir.Reservoir:
                 self.delete_reservoir(var, value)
             self.vars_written.discard(var)
+            self.vars_deleted.add(var)
             # Not pop, which doesn't remove the variable from its scope.
             del self.namespace[var]
             return value
@@ -175,21 +179,31 @@ class VarHandler(object):
     def add_changed_var(self, var):
         self.vars_written.add(var)
 
+    # Returns the changes made by a command as (state of vars written, names of vars deleted).
     def changes(self):
-        changes = {}
-        for var in self.vars_written:
-            # Bug 273: A pipeline param could show up in vars_written. When the pipeline is exited,
-            # and the scope is popped, the namespace is maintained. But the var would still be in
-            # vars_written. If a var is in vars_written but not namespace, I'm assuming this is what happened.
-            # Another approach is to maintain vars_written on NestedNamespace.pop_scope. But vars_written
-            # isn't a nested structure. This would break if the same variable name were used in different scopes.
-            value = self.namespace.get(var, VarHandler.MISSING_VAR)
-            if value is not VarHandler.MISSING_VAR:
-                changes[var] = value
-        return changes
+        # Bug 273: A pipeline param could show up in vars_written. When the pipeline is exited,
+        # and the scope is popped, the namespace is maintained. But the var would still be in
+        # vars_written. If a var is in vars_written but not namespace, I'm assuming this is what happened.
+        # Another approach is to maintain vars_written on NestedNamespace.pop_scope. But vars_written
+        # isn't a nested structure. This would break if the same variable name were used in different scopes.
+        return (self.namespace.to_persistent_state(self.vars_written),
+                [var for var in self.vars_deleted if var not in self.namespace])
+
+    # Apply changes made by a command that ran in another process.
+    def apply_changes(self, env, changes):
+        written, deleted = changes
+        for var in deleted:
+            if var in self.namespace:
+                self.delvar(var)
+        current = {var: value for var, value in self.reservoirs() if var in written}
+        self.namespace.from_persistent_state(env, written)
+        for var, reservoir in current.items():
+            if self.namespace.get(var, None) != reservoir:
+                self.delete_reservoir(var, reservoir)
 
     def clear_changes(self):
         self.vars_written.clear()
+        self.vars_deleted.clear()
 
     def add_written(self, var):
         self.vars_written.add(var)
-- 
2.43.0


From 3e42b065a1586f8d0aa23b369f41d6fa56c378f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:31 +0000
Subject: [PATCH 168/187] fix: ctrl-z does not suspend the command if marcel is
 the login shell (C33)

---
 marcel/job.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/job.py b/marcel/job.py
index 4049aba..a95a97a 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -140,7 +140,8 @@ class Job:
         if self.state not in (Job.RUNNING_PAUSED, Job.DEAD):
             debug(f'sending SIGTSTP to {self.process.pid}')
             self.state = Job.RUNNING_PAUSED
-            os.kill(self.process.pid, signal.SIGTSTP)
+            # SIGTSTP doesn't stop the process if marcel is a session leader, (e.g. the login shell).
+            os.kill(self.process.pid, signal.SIGSTOP)
 
     # bg
     def run_in_background(self):
-- 
2.43.0


From 81a5dd21279a5b1889d6bf30a67d5e2b91147e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:31 +0000
Subject: [PATCH 169/187] fix: executables run by a job that is killed, e.g. by
 ctrl-c, kept running (C33)

---
 marcel/job.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marcel/job.py b/marcel/job.py
index a95a97a..fa63e76 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -20,6 +20,8 @@ import signal
 import sys
 import threading
 
+import psutil
+
 import marcel.exception
 import marcel.object.error
 import marcel.reservoir
@@ -114,6 +116,11 @@ class Job:
         if self.state != Job.DEAD:
             debug(f'kill {self}')
             self.state = Job.DEAD
+            try:
+                # Executables run by the job are in sessions of their own.
+                descendants = psutil.Process(self.process.pid).children(recursive=True)
+            except psutil.Error:
+                descendants = []
             try:
                 os.kill(self.process.pid, signal.SIGTERM)
                 self.process.join(Job.JOIN_DELAY_SEC)
@@ -126,6 +133,11 @@ class Job:
                         self.process = None
             except ProcessLookupError:
                 pass
+            for descendant in descendants:
+                try:
+                    descendant.terminate()
+                except psutil.Error:
+                    pass
 
     def signal(self, signal):
         debug(f'signal {self} {signal}')
-- 
2.43.0


From 2c5c4e602866b2ec54508456aa414f6a802c3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 170/187] fix: the directory in the prompt was abbreviated
 wrongly for siblings of HOME, and not at all for workspace homes given
 relative to ~ or via symlinks (C35)

---
 marcel/env.py              | 6 ++++--
 marcel/object/workspace.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index ea86805..78adf13 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -325,7 +325,9 @@ class EnvironmentInteractive(Environment):
             dir = self.getvar('PWD')
             home = self.getvar('HOME')
             if self.workspace.is_default():
-                return '~' + dir[len(home):] if dir.startswith(home) else dir
+                # A directory whose name starts with the name of the home directory isn't necessarily inside it.
+                home = home.rstrip('/')
+                return '~' + dir[len(home):] if (dir + '/').startswith(home + '/') else dir
             else:
                 try:
                     workspace_home = self.workspace.home()
@@ -340,7 +342,7 @@ class EnvironmentInteractive(Environment):
                     return prompt_dir
                 except ValueError:
                     # dir is not under home
-                    return dir
+                    return dir.as_posix()
 
         # Set PROMPT_DIR in case PROMPT uses it.
         self.setvar('PROMPT_DIR', prompt_dir())
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 02412e0..0f94a9e 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -366,7 +366,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             assert False, self
 
     def set_home(self, home):
-        home = pathlib.Path(home).absolute()
+        # Resolved, as PWD is.
+        home = pathlib.Path(home).expanduser().resolve()
         self.properties.set_home(home)
         self.write_properties()
 
-- 
2.43.0


From 0261302cf8db8bb2f6c00a3a94586e4ff61f72bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 171/187] fix: a color computed by a function of the prompt was
 printed instead of used (C35)

---
 marcel/env.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index 78adf13..50f176d 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -355,20 +355,17 @@ class EnvironmentInteractive(Environment):
             for x in prompt_pieces:
                 # In each iteration, we have a color, a prompt component, or a function creating a prompt component.
                 # In the last two cases, append the prompt component to the buffer, colorizing if color is defined.
-                if isinstance(x, marcel.object.color.Color):
-                    color = x
-                    x = None
-                elif isinstance(x, str):
-                    pass
-                elif callable(x):
+                if callable(x):
                     # Set up the namespace for calling the function. Updating __globals__ with a NestedNamespace
                     # seems to break things so that the invocation (x()) raises an AssertionError. Need a genuine
                     # dict for the update.
                     # x.__globals__.update(dict(self.workspace.namespace))
                     x = x()
-                else:
+                elif not isinstance(x, (str, marcel.object.color.Color)):
                     raise marcel.exception.KillShellException(f'Invalid prompt component: {x}')
-                if x:
+                if isinstance(x, marcel.object.color.Color):
+                    color = x
+                elif x:
                     x = str(x)
                     buffer.append(marcel.util.colorize(x, color) if color else x)
             return ''.join(buffer)
-- 
2.43.0


From e8ecc64e13d6b1fb9e42b5e073fbe9f338dfab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:08 +0000
Subject: [PATCH 172/187] fix: ps fails in the API, and its arguments can't be
 expressions (C36)

---
 marcel/op/ps.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/marcel/op/ps.py b/marcel/op/ps.py
index 6028d22..992e04b 100644
--- a/marcel/op/ps.py
+++ b/marcel/op/ps.py
@@ -85,12 +85,17 @@ _UNINITIALIZED = Uninitialized()
 
 
 def ps(user=_UNINITIALIZED, group=_UNINITIALIZED, pid=_UNINITIALIZED, command=_UNINITIALIZED):
-    op = Ps()
-    op.user = user
-    op.group = group
-    op.pid = pid
-    op.command = command
-    return op, []
+    # user or group is None: This user or group, as if the flag is given without a value.
+    args = []
+    if user is not _UNINITIALIZED:
+        args.extend(['--user'] if user is None else ['--user', user])
+    if group is not _UNINITIALIZED:
+        args.extend(['--group'] if group is None else ['--group', group])
+    if pid is not _UNINITIALIZED:
+        args.extend(['--pid', pid])
+    if command is not _UNINITIALIZED:
+        args.extend(['--command', command])
+    return Ps(), args
 
 
 class PsArgsParser(marcel.argsparser.ArgsParser):
@@ -123,10 +128,11 @@ class Ps(marcel.core.Op):
     def setup(self, env):
         # user, group can be name or id. A name can be numeric, and in that case, the name interpretation
         # takes priority. Convert name to uid, since that is a cheaper lookup on a Project.
-        # If user or group is None, no user/group was specified, so use this user/group.
-        # A value of type Uninitialized means it wasn't specified at all.
-        #
         # user and group can be True if -u or -g are specified with no value.
+        self.user = self.eval_function(env, 'user', str, int)
+        self.group = self.eval_function(env, 'group', str, int)
+        self.pid = self.eval_function(env, 'pid', str, int)
+        self.command = self.eval_function(env, 'command', str)
         self.filter = lambda p: True
         if self.user is not None:
             self.user = os.getuid() if self.user is True else Ps.convert_to_id(self.user, marcel.util.uid)
@@ -134,7 +140,7 @@ class Ps(marcel.core.Op):
         if self.group is not None:
             self.group = os.getgid() if self.group is True else Ps.convert_to_id(self.group, marcel.util.gid)
             self.filter = lambda p: self.group in p.gids
-        if self.pid:
+        if self.pid is not None:
             try:
                 self.pid = int(self.pid)
                 self.filter = lambda p: self.pid == p.pid
-- 
2.43.0


From 5ae98a422b40a0175f8026a4732bfe262b1f1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:21 +0000
Subject: [PATCH 173/187] fix: arguments of env, import and edit can't be
 expressions (C12)

---
 marcel/op/edit.py   | 1 +
 marcel/op/env.py    | 9 ++++++---
 marcel/op/import.py | 3 +++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index 855b2ae..b5a7254 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -83,6 +83,7 @@ class Edit(marcel.core.Op):
         if self.command is not None:
             # An interactive edit COMMAND is handled by Reader.
             raise marcel.exception.KillCommandException('Commands can only be edited interactively')
+        self.startup = self.eval_function(env, 'startup', str, bool)
         self.ws_name = None if self.startup is True else self.startup
 
     def run(self, env):
diff --git a/marcel/op/env.py b/marcel/op/env.py
index 38b6866..7affa5f 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -121,15 +121,18 @@ class Env(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        self.var = self.eval_function(env, 'var', str)
+        self.delete = self.eval_function(env, 'delete', str)
+        self.pattern = self.eval_function(env, 'pattern', str)
         self.list_all = self.var is None and self.delete is None and self.pattern is None
         self.impl = EnvOS(self) if self.os else EnvMarcel(self)
 
     def run(self, env):
-        if self.var:
+        if self.var is not None:
             self.impl.one_var(env)
-        elif self.delete:
+        elif self.delete is not None:
             self.impl.delete_var(env)
-        elif self.pattern:
+        elif self.pattern is not None:
             self.impl.matching_vars(env)
         else:
             self.impl.all_vars(env)
diff --git a/marcel/op/import.py b/marcel/op/import.py
index a661112..85bc87c 100644
--- a/marcel/op/import.py
+++ b/marcel/op/import.py
@@ -79,6 +79,9 @@ class Import(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        self.module = self.eval_function(env, 'module', str)
+        self.symbol = self.eval_function(env, 'symbol', str)
+        self.name = self.eval_function(env, 'name', str)
         wildcard = self.symbol == '*'
         if self.symbol and not (wildcard or self.symbol.isidentifier()):
             raise marcel.exception.KillCommandException(f'symbol must be * or a valid identifier: {self.symbol}')
-- 
2.43.0


From fef0fbe4393910f1c346d1eafe0176c9416b97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:53 +0000
Subject: [PATCH 174/187] fix: a File that doesn't exist, or isn't accessible,
 can't be pickled, e.g. saved in a workspace (C20)

---
 marcel/object/file.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 0611e99..d7ea0ee 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -90,9 +90,13 @@ class File(marcel.object.renderable.Renderable):
         return getattr(self.path, attr)
 
     def __getstate__(self):
-        # Ensure metadata is present before transmission
-        self._is_executable()
-        self._lstat()
+        # Ensure metadata is present before transmission. There is none if the file can't be accessed, (e.g., it
+        # doesn't exist).
+        try:
+            self._is_executable()
+            self._lstat()
+        except (OSError, marcel.exception.KillAndResumeException):
+            pass
         state = self.__dict__.copy()
         state['compact_path'] = None
         # Send strings, not paths
-- 
2.43.0


From 2d3c398b7be213b7db5108bd55fc4ca4cfa36ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:52 +0000
Subject: [PATCH 175/187] fix: an error accessing a File in a function
 disappeared silently (C13)

---
 marcel/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/core.py b/marcel/core.py
index 8222584..e09417e 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -82,7 +82,8 @@ class Op(AbstractOp):
     def call(self, env, function, *args, **kwargs):
         try:
             return function(*args, **kwargs)
-        except Exception as e:
+        except (Exception, marcel.exception.KillAndResumeException) as e:
+            # KillAndResumeException: E.g. the size of a File that doesn't exist.
             function_input = []
             if args and len(args) > 0:
                 function_input.append(str(args))
-- 
2.43.0


From 1cd071032fc8f7edc2179dbb854724a013c59d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:53 +0000
Subject: [PATCH 176/187] fix: marcel's exit status is 0 although it failed to
 start, or a workspace couldn't be opened (C32)

---
 marcel/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/main.py b/marcel/main.py
index bf63d41..8a9205c 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -402,5 +402,6 @@ if __name__ == '__main__':
         # raise KCE if foobar is already in use by another process. It would be incorrect to
         # raise KSE instead for switching to a workspace from a marcel commandd.
         print(str(e), file=sys.stderr)
+        sys.exit(1)
     except marcel.exception.ExitException:
         sys.exit(0)
-- 
2.43.0


From 1b9f78399897b413abe4669680ba23243038f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:16 +0000
Subject: [PATCH 177/187] fix: download into something that isn't a writable
 directory crashes (C26)

---
 marcel/op/download.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/op/download.py b/marcel/op/download.py
index 0337f9c..ecfd0be 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -136,4 +136,8 @@ class Download(marcel.core.Op):
     def ensure_node_directories_exist(self):
         for host in self.cluster:
             host_dir = self.dir / host.name
-            host_dir.mkdir(exist_ok=True)
+            try:
+                host_dir.mkdir(exist_ok=True)
+            except OSError as e:
+                # E.g. dir is not a directory, or permission denied
+                raise marcel.exception.KillCommandException(f'Unable to create directory for host: {e}')
-- 
2.43.0


From c66f9ccefc0880ede1d31f925b74232028f92f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:16 +0000
Subject: [PATCH 178/187] fix: sudo with two pipelines fails with an
 AssertionError (C26)

---
 marcel/op/sudo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 71f5918..473371b 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -89,6 +89,8 @@ class Sudo(marcel.core.Op):
         self.pipeline = marcel.pipeline.convert_to_pipeline(env, self.args[-1])
         if not isinstance(self.pipeline, marcel.pipeline.Pipeline):
             raise marcel.exception.KillCommandException('Missing pipeline')
+        if not all(isinstance(arg, str) for arg in self.args[:-1]):
+            raise marcel.exception.KillCommandException('Arguments preceding the pipeline must be strings')
 
     # Op
 
-- 
2.43.0


From b75edd698b3886aca4547177da84a2b728b87740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:49 +0000
Subject: [PATCH 179/187] fix: the thread of timer kept running after timer had
 been interrupted (C37)

---
 marcel/op/timer.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/marcel/op/timer.py b/marcel/op/timer.py
index ec6de6d..472b1f9 100644
--- a/marcel/op/timer.py
+++ b/marcel/op/timer.py
@@ -74,18 +74,21 @@ class Timer(marcel.core.Op):
         # the time between completion of downstream computing (invoked by self.send)
         # and the next timer event.
         self.metronome.start()
-        while not self.done:
-            self.lock.acquire()
-            while self.now is None:
-                # If the timeout is omitted from the wait call, then ctrl-c
-                # cannot interrupt. The threading module implements wait
-                # differently if a timeout is specified, waking up periodically.
-                # TODO: Still true?
-                self.lock.wait(1.0)
-            now = self.now
-            self.now = None
-            self.lock.release()
-            self.send(env, now)
+        try:
+            while not self.done:
+                with self.lock:
+                    while self.now is None:
+                        # If the timeout is omitted from the wait call, then ctrl-c
+                        # cannot interrupt. The threading module implements wait
+                        # differently if a timeout is specified, waking up periodically.
+                        # TODO: Still true?
+                        self.lock.wait(1.0)
+                    now = self.now
+                    self.now = None
+                self.send(env, now)
+        finally:
+            # E.g. ctrl-c, or first() has its output.
+            self.metronome.stop()
 
     # Op
 
@@ -97,7 +100,7 @@ class Timer(marcel.core.Op):
     def register_tick(self):
         self.lock.acquire()
         self.now = time.time()
-        self.lock.notifyAll()
+        self.lock.notify_all()
         self.lock.release()
 
 
@@ -108,8 +111,12 @@ class Metronome(threading.Thread):
         self.interval = interval
         self.timer = op
         self.daemon = True
+        self.stopped = threading.Event()
 
     def run(self):
-        while True:
+        while not self.stopped.is_set():
             self.timer.register_tick()
-            time.sleep(self.interval)
+            self.stopped.wait(self.interval)
+
+    def stop(self):
+        self.stopped.set()
-- 
2.43.0


From 8ab409c3da8272cdd9fc0b2ad55c78eda95cb4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:21 +0000
Subject: [PATCH 180/187] fix: dirs(clear=False) in the API leaves the
 directory stack alone

---
 marcel/op/dirs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/dirs.py b/marcel/op/dirs.py
index 971a7b6..61b435d 100644
--- a/marcel/op/dirs.py
+++ b/marcel/op/dirs.py
@@ -29,7 +29,7 @@ Write the entries in the directory stack to the output stream, top first.
 
 
 def dirs(clear=None):
-    return Dirs(), [] if clear is None else ['--clear']
+    return Dirs(), ['--clear'] if clear else []
 
 
 class DirsArgsParser(marcel.argsparser.ArgsParser):
-- 
2.43.0


From 28bc51256eec39c428dcb617a5c036742c91bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:27 +0000
Subject: [PATCH 181/187] fix: report an error on a value whose string form
 cannot be computed, instead of failing while doing so

---
 marcel/core.py | 8 ++++----
 marcel/util.py | 9 +++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index e09417e..13a4fe2 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -56,7 +56,7 @@ class Op(AbstractOp):
     def send(self, env, x):
         receiver = self.receiver
         if env.trace.is_enabled() and receiver:
-            env.trace.write(receiver, 'RUN', str(x))
+            env.trace.write(receiver, 'RUN', marcel.util.describe(x))
         if receiver:
             receiver.receive_input(env, x)
 
@@ -86,9 +86,9 @@ class Op(AbstractOp):
             # KillAndResumeException: E.g. the size of a File that doesn't exist.
             function_input = []
             if args and len(args) > 0:
-                function_input.append(str(args))
+                function_input.append(marcel.util.describe(args))
             if kwargs and len(kwargs) > 0:
-                function_input.append(str(kwargs))
+                function_input.append(marcel.util.describe(kwargs))
             args_description = None if len(function_input) == 0 else ', '.join(function_input)
             self.fatal_error(env, args_description, f'{type(e)}: {e}')
 
@@ -227,7 +227,7 @@ class Op(AbstractOp):
     def error(self, input, message):
         return Error(f'Running {self}: {message}'
                      if input is None else
-                     f'Running {self} on {input}: {message}')
+                     f'Running {self} on {marcel.util.describe(input)}: {message}')
 
 
 class Command:
diff --git a/marcel/util.py b/marcel/util.py
index 4a29b01..2792124 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -31,6 +31,7 @@ import traceback
 
 import dill
 
+import marcel.exception
 import marcel.structish
 
 from marcel.stringliteral import StringLiteral
@@ -117,6 +118,14 @@ def normalize_path(x):
     return x
 
 
+# Description of x for use in a message. Computing the string form of x may fail, e.g. if an object has a bad __repr__.
+def describe(x):
+    try:
+        return str(x)
+    except (Exception, marcel.exception.KillAndResumeException):
+        return f'<{type(x).__name__}, whose string form cannot be computed>'
+
+
 def copy(x):
     try:
         return dill.loads(dill.dumps(x))
-- 
2.43.0


From f2398269c0725a8298cd112781b4bcd089112e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:27 +0000
Subject: [PATCH 182/187] fix: a Cluster can be printed even if its hosts
 cannot be resolved

---
 marcel/object/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/object/cluster.py b/marcel/object/cluster.py
index c3d4594..bfc325e 100644
--- a/marcel/object/cluster.py
+++ b/marcel/object/cluster.py
@@ -30,8 +30,8 @@ class Host(object):
         self._name = None
 
     def __repr__(self):
-        self.ensure_initialized()
-        return self._name if self._port is None else f'{self._name}:{self._port}'
+        # Don't resolve the name. That could fail, and a Host whose name can't be resolved still needs to be printed.
+        return f'{self._host}' if self._port is None else f'{self._host}:{self._port}'
 
     def __hash__(self):
         return hash((self._host, self._port))
-- 
2.43.0


From dbd83d58e1f846c00edd9346cfcbd699017290b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:51 +0000
Subject: [PATCH 183/187] fix: remote reports a host whose address cannot be
 determined, and runs on the others

---
 marcel/op/remote.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 43c8c04..18f53d1 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -130,7 +130,13 @@ class Remote(marcel.core.Op):
 
         def run(self, env):
             # Start the remote process
-            farcel_invocation = self.farcel_invocation(env)
+            try:
+                farcel_invocation = self.farcel_invocation(env)
+            except marcel.exception.KillAndResumeException as e:
+                # The host's address could not be determined.
+                self.non_fatal_error(env, message=str(e))
+                self.propagate_flush(env)
+                return
             self.process = subprocess.Popen(farcel_invocation,
                                             stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE,
-- 
2.43.0


From f02596725f91127880cc5226ebf08f15a922a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:06 +0000
Subject: [PATCH 184/187] fix: a database driver whose name is part of a
 supported one is rejected (C31)

---
 marcel/object/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/object/db.py b/marcel/object/db.py
index 03a0006..5598860 100644
--- a/marcel/object/db.py
+++ b/marcel/object/db.py
@@ -31,7 +31,7 @@ import marcel.exception
 class Database(object):
 
     def __init__(self, driver, dbname, user, password=None, host=None, port=None):
-        if driver not in ('psycopg2'):
+        if driver not in ('psycopg2',):
             raise marcel.exception.KillCommandException(f'Unsupported database driver: {driver}')
         self.driver = driver
         self.connection_class = Psycopg2Connection
-- 
2.43.0


From 104e86d46e1ac767572a0009175345523721791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:06 +0000
Subject: [PATCH 185/187] fix: sql failed if DB_DEFAULT is not a database,
 instead of reporting that there is none (C31)

---
 marcel/op/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 2b7eba4..130cbd0 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -135,7 +135,7 @@ class Sql(marcel.core.Op):
             raise marcel.exception.KillCommandException(f'--commit value must be a positive integer: {self.commit}')
         self.total_update_count = 0
         if self.dbvar is None:
-            self.db = env.getvar('DB_DEFAULT')
+            self.db = env.db('DB_DEFAULT')
         elif isinstance(self.dbvar, str):
             # Interactive usage
             self.db = env.db(self.dbvar)
-- 
2.43.0


From 125dfac231bae594234f38de52c64a099027115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:30 +0000
Subject: [PATCH 186/187] fix: comparing a Process to anything else failed
 (C36)

---
 marcel/object/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/object/process.py b/marcel/object/process.py
index 42c0bd0..aeb5e83 100644
--- a/marcel/object/process.py
+++ b/marcel/object/process.py
@@ -36,10 +36,10 @@ class Process(marcel.object.renderable.Renderable):
         return self.pid
 
     def __eq__(self, other):
-        return self.pid == other.pid
+        return isinstance(other, Process) and self.pid == other.pid
 
     def __ne__(self, other):
-        return self.pid != other.pid
+        return not self == other
 
     def __lt__(self, other):
         return self.pid < other.pid
-- 
2.43.0


From 92cacca74c69254c5a358aad49f2d4c2bc8aac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:30 +0000
Subject: [PATCH 187/187] fix: history records could not be given to unique,
 join or other operators that need hashable values (C29)

---
 marcel/object/historyrecord.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marcel/object/historyrecord.py b/marcel/object/historyrecord.py
index 00c870d..0088528 100644
--- a/marcel/object/historyrecord.py
+++ b/marcel/object/historyrecord.py
@@ -23,11 +23,14 @@ class HistoryRecord(marcel.object.renderable.Renderable):
         self.id = id
         self.command = command
         
+    def __hash__(self):
+        return self.id
+
     def __eq__(self, other):
-        return self.id == other.id
+        return isinstance(other, HistoryRecord) and self.id == other.id
     
     def __ne__(self, other):
-        return self.id != other.id
+        return not self == other
     
     def __lt__(self, other):
         return self.id < other.id
-- 
2.43.0

