From 54c7633b9ce5eda74cf69b3ca1f45d405b0dfe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 01/31] fix: tail passed end of stream to its receiver twice

TailKeepN.flush propagated the flush, and so did Tail.flush, so for n > 0 everything downstream of
tail was flushed twice (e.g. red printed its result a second time as a new, empty aggregation).
---
 marcel/op/tail.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marcel/op/tail.py b/marcel/op/tail.py
index d7ea098..648ce5c 100644
--- a/marcel/op/tail.py
+++ b/marcel/op/tail.py
@@ -108,7 +108,6 @@ class TailKeepN(TailImpl):
                 self.op.send(env, x)
             p = (p + 1) % self.n
             count -= 1
-        self.op.propagate_flush(env)
         self.queue.clear()
 
 
-- 
2.43.0


From eab3403635741f6178e292c0928ab6e8a3e4ef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 02/31] fix: reverse could not be run twice

Reverse.contents was created by __init__ and set to None by flush, so a pipeline containing reverse,
when executed again (a pipeline variable, args, a nested pipeline), either failed or, because op
copies shared the list, repeated the output of the previous run. It also had no __repr__, without
which reporting an error from it failed an assertion.
---
 marcel/op/reverse.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 11b8893..b8c5cd6 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -38,10 +38,18 @@ class Reverse(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
-        self.contents = []
+        self.contents = None
+
+    def __repr__(self):
+        return 'reverse()'
 
     # AbstractOp
 
+    def setup(self, env):
+        self.contents = []
+
+    # Op
+
     def receive(self, env, x):
         self.contents.append(x)
 
-- 
2.43.0


From 5d9cef16e3cc6576c99b50431615e797027aa242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 03/31] fix: window -o lost end of stream on empty input and
 repeated all-padding windows

OverlapWindow.flush propagated the flush only if there had been some input, so that whatever followed
window -o in the pipeline was never flushed (e.g. window -o 2 | red + printed nothing at all, sort lost
nothing but never completed). And with fewer than N inputs it sent N windows, some of them entirely padding, although
each input starts exactly one window.
---
 marcel/op/window.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 090d8b5..fd171fb 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -228,16 +228,14 @@ class OverlapWindow(WindowBase):
             self.send_window(env)
 
     def flush(self, env):
-        if len(self.window) > 0:
-            if len(self.window) < self.op.n:
-                while len(self.window) < self.op.n:
-                    self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            for i in range(self.op.n - 1):
-                self.window = self.window[1:]
-                self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            self.op.propagate_flush(env)
+        # Every input starts one window. If there were at least n inputs, then self.window has been sent already.
+        if len(self.window) == self.op.n:
+            self.window = self.window[1:]
+        while len(self.window) > 0:
+            padding = [OverlapWindow.PADDING] * (self.op.n - len(self.window))
+            self.op.send(env, tuple(self.window + padding))
+            self.window = self.window[1:]
+        self.op.propagate_flush(env)
 
 
 class DisjointWindow(WindowBase):
-- 
2.43.0


From 0921b1036efc6fb780e46a5ccaf478124de2d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 04/31] fix: red -i failed on list rows

---
 marcel/op/red.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 37b666a..2a8464d 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -207,7 +207,7 @@ class NonGroupingReducer(Reducer):
             assert x is not None
             accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(accumulator))
+            op.send(env, tuple(x) + tuple(accumulator))
 
     def flush(self, env):
         op = self.op
@@ -238,7 +238,7 @@ class GroupingReducer(Reducer):
             reducer = op.functions[i]
             accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
         if op.incremental:
-            op.send(env, x + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + tuple(self.data(accumulator)))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From a7469448a7a8bf4fc02835825161e356ba01d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 05/31] fix: args passed end of stream to its receiver twice

---
 marcel/op/args.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 5a98ab6..3f39bd4 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -101,9 +101,8 @@ class Args(marcel.core.Op):
                 self.args.clear()
                 # Need to ensure that flush is propagated no matter what happens
                 self.propagate_flush(env)
-        # If there was an exception, and we flushed already, this should still be OK. Propagating a
-        # flush a second time should be a noop.
-        self.propagate_flush(env)
+        else:
+            self.propagate_flush(env)
 
     def must_not_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 11cf45b9d713aabb71f177718d0ae8058b0767a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 06/31] fix: union passed end of stream to its receiver twice

---
 marcel/op/union.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 5a3dc2d..cb6b989 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -85,23 +85,17 @@ class Union(marcel.core.Op):
     def customize_pipelines(self, env):
         # Union is implemented by passing the input stream along in receive(), and then having each pipeline's
         # arg send its output via flush. This depends on all the pipelines args having the same receiver as the
-        # union op itself. However, we only want one flush after everything is done. PropagateFlushFromLast
-        # makes sure that only the last pipelines propagates the flush.
-        n_pipelines = len(self.pipelines)
+        # union op itself. However, we only want one flush after everything is done, and that one is done by
+        # Union.flush. StopFlush makes sure that the pipelines don't propagate theirs.
         customized = []
         for pipeline in self.pipelines:
-            last = len(customized) == n_pipelines - 1
-            pipeline = pipeline.append_immutable(PropagateFlushFromLast(last))
+            pipeline = pipeline.append_immutable(StopFlush())
             pipeline.route_output(self.receiver)
             customized.append(pipeline)
         self.pipelines = customized
 
 
-class PropagateFlushFromLast(marcel.core.Op):
-
-    def __init__(self, last):
-        super().__init__()
-        self.last = last
+class StopFlush(marcel.core.Op):
 
     # Op
 
@@ -109,5 +103,4 @@ class PropagateFlushFromLast(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        if self.last:
-            self.propagate_flush(env)
\ No newline at end of file
+        pass
\ No newline at end of file
-- 
2.43.0


From 0d1bf066171128592a2025fef52f93fc4532dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 07/31] fix: set operators, filter and join went wrong when run
 again

---
 marcel/op/difference.py | 5 +++--
 marcel/op/filter.py     | 6 +++---
 marcel/op/intersect.py  | 6 ++++--
 marcel/op/join.py       | 5 +++--
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index af966ee..1d589d2 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -67,6 +67,7 @@ class Difference(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.loader = None  # pipeline, extended to populate right
         self.right = None
         self.first = None
 
@@ -80,7 +81,7 @@ class Difference(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.loader.run_pipeline(env, {})
             self.first = False
         try:
             count = self.right.get(x, None)
@@ -103,7 +104,7 @@ class Difference(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.right = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        self.loader = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1cc3491..676b6c0 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -136,6 +136,6 @@ class Filter(marcel.core.Op):
             except TypeError:
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
-        self.pipeline.setup(env)
-        self.pipeline.run_pipeline(env, {})
+        pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        pipeline.setup(env)
+        pipeline.run_pipeline(env, {})
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 24b529e..a1f1190 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -61,11 +61,13 @@ class Intersect(marcel.core.Op):
         self.common = None  # item -> count: Accumulated intersection
         self.input = None   # item -> count: From one of the pipelines args
         self.pipelines = None
+        self.counters = None  # pipelines, extended to populate input
 
     def __repr__(self):
         return f'intersect({self.pipelines})'
 
     def setup(self, env):
+        self.common = None
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
 
@@ -97,12 +99,12 @@ class Intersect(marcel.core.Op):
         for pipeline in self.pipelines:
             pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
             customized.append(pipeline)
-        self.pipelines = customized
+        self.counters = customized
 
     def ensure_args_consumed(self, env):
         if self.common is None:
             # Compute the intersection of all the pipeline args
-            for pipeline in self.pipelines:
+            for pipeline in self.counters:
                 self.input = {}
                 pipeline.run_pipeline(env, {})  # Populates self.input
                 if self.common is None:
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 09cae51..f852a30 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -93,6 +93,7 @@ class Join(marcel.core.Op):
         super().__init__()
         self.pipeline = None
         self.keep = None
+        self.loader = None  # pipeline, extended to populate inner
         self.inner = None  # Map containing contents of pipelines, keyed by join value
         self.first = None
 
@@ -107,7 +108,7 @@ class Join(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.loader.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
         join_value = x[0]
@@ -147,4 +148,4 @@ class Join(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.inner = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        self.loader = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
-- 
2.43.0


From 4816388f43084cec5169132532e4a441ba55a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 08/31] fix: API pipelines inside case were not set up

---
 marcel/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..4b01073 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -375,7 +375,7 @@ class PipelineOpList(Pipeline):
     # Pipeline - execution
 
     def setup(self, env):
-        pass
+        self.executable.setup(env)
 
     def run_pipeline(self, env, bindings):
         try:
-- 
2.43.0


From 1825a962c752004d43cd21f5b1b8f109381b9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 09/31] fix: case pipelines kept their state when run again

---
 marcel/op/case.py  | 7 +++----
 marcel/pipeline.py | 5 +++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 50ac6ec..7de5112 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -112,10 +112,8 @@ class Case(marcel.core.Op):
         self.propagate_flush(env)
 
     def cleanup(self):
-        for branch in self.branches:
-            branch.pipeline.cleanup()
-        if self.default_pipeline:
-            self.default_pipeline.cleanup()
+        for pipeline in self.pipelines:
+            pipeline.cleanup()
 
     def ensure_functions_compiled(self, env):
         self.ensure_args_processed(env)
@@ -138,6 +136,7 @@ class Case(marcel.core.Op):
                 if not isinstance(pipeline, marcel.pipeline.Pipeline):
                     raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
                 pipeline.setup(env)
+                self.pipelines.append(pipeline)
                 return pipeline
             except Exception as e:
                 raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 4b01073..b2bde64 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -338,6 +338,11 @@ class PipelineMarcel(Pipeline):
             env.vars().pop_scope()
             self.state = PipelineMarcel.State.IDLE
 
+    def cleanup(self):
+        super().cleanup()
+        # The next use of this pipeline has to start with setup()
+        self.state = PipelineMarcel.State.IDLE
+
     # Pipeline - construction
 
     def copy(self):
-- 
2.43.0


From 88a63214693f228b8b93edd570645a6e6411b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:36 +0000
Subject: [PATCH 10/31] fix: running a pipeline variable flushed its receiver
 repeatedly

---
 marcel/op/runpipeline.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 0de9303..9079141 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -29,6 +29,7 @@ class RunPipeline(marcel.core.Op):
         self.kwargs_arg = None
         self.kwargs = None
         self.pipeline = None
+        self.flushed = None  # True iff run() has run the pipeline, and therefore flushed it
 
     def __repr__(self):
         return f'runpipeline({self.var} {self.args_arg})'
@@ -61,6 +62,7 @@ class RunPipeline(marcel.core.Op):
         # breaks the structure of the pipelines, e.g. Op.receiver.
         self.pipeline = self.pipeline.copy()
         self.pipeline.route_output(self.receiver)
+        self.flushed = False
         env.vars().push_scope(self.bindings())
         try:
             self.pipeline.setup(env)
@@ -73,6 +75,7 @@ class RunPipeline(marcel.core.Op):
         bindings = self.bindings()
         env.vars().push_scope(bindings)
         try:
+            self.flushed = True
             self.pipeline.run_pipeline(env, bindings)
         finally:
             env.vars().pop_scope()
@@ -85,12 +88,13 @@ class RunPipeline(marcel.core.Op):
             env.vars().pop_scope()
 
     def flush(self, env):
-        env.vars().push_scope(self.bindings())
-        try:
-            self.pipeline.flush(env)
-            self.propagate_flush(env)
-        finally:
-            env.vars().pop_scope()
+        # The pipeline's output is routed to self.receiver, so flushing the pipeline flushes self.receiver too.
+        if not self.flushed:
+            env.vars().push_scope(self.bindings())
+            try:
+                self.pipeline.flush(env)
+            finally:
+                env.vars().pop_scope()
 
     def cleanup(self):
         if self.pipeline:
-- 
2.43.0


From 8cb854aa405df1d1d72cb15d3b43f8237ac7cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 11/31] fix: case lost the output of a pipeline ending in a
 pipeline variable or union, and kept its state when run again

---
 marcel/op/case.py  | 27 +++++++++++----------------
 marcel/pipeline.py |  5 -----
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 7de5112..a77bae1 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -93,6 +93,11 @@ class Case(marcel.core.Op):
 
     def setup(self, env):
         self.ensure_args_processed(env)
+        for pipeline in self.pipelines:
+            try:
+                pipeline.setup(env)
+            except Exception as e:
+                raise marcel.exception.KillCommandException(str(e))
 
     def receive(self, env, x):
         pipeline = self.default_pipeline
@@ -132,14 +137,13 @@ class Case(marcel.core.Op):
             # marcel.exception) without these?!
             import marcel.pipeline
             import marcel.exception
-            try:
-                if not isinstance(pipeline, marcel.pipeline.Pipeline):
-                    raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
-                pipeline.setup(env)
-                self.pipelines.append(pipeline)
-                return pipeline
-            except Exception as e:
+            if not isinstance(pipeline, marcel.pipeline.Pipeline):
                 raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
+            # The redirection has to be in place before setup(), because the setup of the pipeline's
+            # last op may rely on its receiver.
+            pipeline = pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+            self.pipelines.append(pipeline)
+            return pipeline
 
         self.pipelines = []
         if len(self.args) < 2:
@@ -160,12 +164,3 @@ class Case(marcel.core.Op):
                 predicate = None
         if len(self.args) & 1 == 1:
             self.default_pipeline = pipeline(self.args[-1])
-
-    def customize_pipelines(self, env):
-        def redirect():
-            return marcel.op.redirect.Redirect(self)
-
-        if self.default_pipeline:
-            self.default_pipeline = self.default_pipeline.append_immutable(redirect())
-        for branch in self.branches:
-            branch.pipeline = branch.pipeline.append_immutable(redirect())
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index b2bde64..4b01073 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -338,11 +338,6 @@ class PipelineMarcel(Pipeline):
             env.vars().pop_scope()
             self.state = PipelineMarcel.State.IDLE
 
-    def cleanup(self):
-        super().cleanup()
-        # The next use of this pipeline has to start with setup()
-        self.state = PipelineMarcel.State.IDLE
-
     # Pipeline - construction
 
     def copy(self):
-- 
2.43.0


From 91c1e7192162023aea38e5917d5e1bedf0f35718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 12/31] fix: copies of a pipeline shared the ops of nested
 pipelines

---
 marcel/core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..3d64ad3 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -21,6 +21,7 @@ import marcel.function
 import marcel.helpformatter
 import marcel.object.error
 import marcel.opmodule
+import marcel.pipeline
 import marcel.util
 
 Error = marcel.object.error.Error
@@ -128,8 +129,18 @@ class Op(AbstractOp):
         pass
 
     def copy(self):
+        # Pipeline args have to be copied too. Otherwise, the ops in them would be shared by the copies.
+        def copy_pipelines(x):
+            if isinstance(x, marcel.pipeline.Pipeline):
+                return x.copy()
+            elif type(x) in (tuple, list):
+                return type(x)([copy_pipelines(y) for y in x])
+            else:
+                return x
+
         copy = self.__class__()
-        copy.__dict__.update(self.__dict__)
+        for field, value in self.__dict__.items():
+            copy.__dict__[field] = copy_pipelines(value)
         return copy
 
     def non_fatal_error(self, env, input=None, message=None, error=None):
-- 
2.43.0


From 6d1137b392e5b8a1284d710540e6eb7388ebebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 13/31] fix: a failing filter comparison ended the command
 instead of yielding an Error

---
 marcel/op/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 676b6c0..519c99d 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -116,7 +116,7 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.compare(*x))
+        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From d928495a3f4535d195469b320c28195c8ce896f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:56 +0000
Subject: [PATCH 14/31] fix: intersect took only one pipeline in the API

---
 marcel/op/intersect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index a1f1190..73e251b 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -39,9 +39,10 @@ output is unspecified.
 '''
 
 
-def intersect(pipeline):
-    assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
-    return Intersect(), [pipeline]
+def intersect(*pipelines):
+    for pipeline in pipelines:
+        assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
+    return Intersect(), list(pipelines)
 
 
 class IntersectArgsParser(marcel.argsparser.ArgsParser):
-- 
2.43.0


From 5a92847c819177dc7fb9857859da3e6b93414fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 15/31] fix: a pipeline parameter erased the variable of the
 same name

---
 marcel/nestednamespace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f82318..0c4e82f 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -307,6 +307,7 @@ class Scope(dict):
         super().__init__()
         self.parent = parent
         self.params = [] if params is None else params
+        self.shadowed = {}  # Values of variables hidden by params
         self.env = env
         if parent is None:
             # Must be topmost scope
@@ -412,7 +413,9 @@ class NestedNamespace(dict):
 
     def push_scope(self, bindings):
         assert self.env
-        self.scopes.append(Scope(self.env, self.current_scope(), bindings))
+        scope = Scope(self.env, self.current_scope(), bindings)
+        scope.shadowed = {var: self[var] for var in scope.params if var in self}
+        self.scopes.append(scope)
         if bindings:
             for var, value in bindings.items():
                 self[var] = value
@@ -431,6 +434,8 @@ class NestedNamespace(dict):
         for scope in self.scopes[1:]:
             for var, value in scope.items():
                 super().__setitem__(var, value.unwrap())
+        # Restore variables hidden by params of the popped scope.
+        super().update(popped_scope.shadowed)
 
     def current_scope(self):
         return self.scopes[-1]
-- 
2.43.0


From fb8d9815f932b460c5cff10bd6e2c5480364e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:09 +0000
Subject: [PATCH 16/31] fix: every name of marcel.builtin was bound to the last
 one's value

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..d4f77ed 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -155,7 +155,7 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From 3cf319ad52d43d9bb6de9fa99c321b5912dd8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:09 +0000
Subject: [PATCH 17/31] fix: HOST and ITALIC were not protected from
 modification

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index d4f77ed..4eb4c30 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -90,7 +90,7 @@ class Environment(object):
                                            'Color',
                                            'DIRS',
                                            'HOME',
-                                           'HOST'
+                                           'HOST',
                                            'ITALIC',
                                            'MARCEL_VERSION',
                                            'pos',
-- 
2.43.0


From d2d448009c0e2fa546be10474d7f278c32c97a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:29 +0000
Subject: [PATCH 18/31] fix: a deleted variable came back when the workspace
 was saved

---
 marcel/object/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..35e7ded 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -149,7 +149,8 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            value = self.namespace[var]
+            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
             return value
-- 
2.43.0


From 9fd4afea61a4132bf7794c8e1d88ba8050aa3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:29 +0000
Subject: [PATCH 19/31] fix: an argument for an unknown pipeline parameter
 failed an assertion or was ignored

---
 marcel/op/runpipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 9079141..cb0a35e 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -125,6 +125,10 @@ class RunPipeline(marcel.core.Op):
                     f'Attempt to set these arguments twice (anonymous and named): {", ".join(already_set)}')
             bindings.update(self.kwargs)
         all_params = set(params)
+        unknown = [param for param in bindings if param not in all_params]
+        if len(unknown) > 0:
+            raise marcel.exception.KillCommandException(
+                f'Not parameters of pipeline {self.var}: {", ".join(unknown)}')
         unset = all_params.difference(bindings.keys())
         for param in unset:
             bindings[param] = None
-- 
2.43.0


From 5fa84d79964031541042e02b420ba11c38d45203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:29 +0000
Subject: [PATCH 20/31] fix: a pipeline argument flag without a value was
 ignored

---
 marcel/argsparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index a403ee2..f4c2d1a 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -515,6 +515,8 @@ class PipelineArgsParser:
             if flag_name:
                 if flags_done:
                     raise ArgsError(self.var, f'Flag {flag_name} appears after anonymous arguments.')
+                if param_name is not None:
+                    raise ArgsError(self.var, f'Flag {param_name} has no value.')
                 param_name = flag_name
             else:
                 if param_name is None:
@@ -525,6 +527,8 @@ class PipelineArgsParser:
                         raise ArgsError(self.var, f'Flag {param_name} given more than once.')
                     kwargs[param_name] = arg
                     param_name = None
+        if param_name is not None:
+            raise ArgsError(self.var, f'Flag {param_name} has no value.')
         return args, kwargs
 
     @staticmethod
-- 
2.43.0


From 6fd030bab915899052f03e4a0084b47833129937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 21/31] fix: leaving a pipeline brought back a variable deleted
 in an enclosing one

---
 marcel/nestednamespace.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 0c4e82f..996c3fb 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -422,19 +422,11 @@ class NestedNamespace(dict):
 
     def pop_scope(self):
         assert len(self.scopes) > 0
-        # There are other ways to restore the namespace resulting from exiting the current scope.
-        # This is simplest and not obviously too slow:
-        # - Remove (var, value) entries for vars in the scope being popped.
-        # - Insert (var, value) entries for remaining scopes, outermost first.
+        # Remove the params of the scope being popped (some may have been deleted already), and then restore the
+        # variables hidden by them. Other variables are not affected by popping the scope.
         popped_scope = self.scopes.pop()
         for var in popped_scope.keys():
             super().__delitem__(var)
-        # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
-        # known and EnvValue cache is unset.
-        for scope in self.scopes[1:]:
-            for var, value in scope.items():
-                super().__setitem__(var, value.unwrap())
-        # Restore variables hidden by params of the popped scope.
         super().update(popped_scope.shadowed)
 
     def current_scope(self):
-- 
2.43.0


From 6c74204c23cd67c3697ea12e01668dc551b8e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:54 +0000
Subject: [PATCH 22/31] fix: a workspace could not be opened again after saving
 a variable bound to a builtin method

---
 marcel/nestednamespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 996c3fb..78d40cf 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -112,7 +112,8 @@ class EnvValue(object):
     def wrap(env, value, source=None):
         def is_pipeline(value):
             return isinstance(value, marcel.pipeline.Pipeline)
-        if inspect.isbuiltin(value):
+        # A builtin method, e.g. 'abc'.upper, has no module, so it can't be restored by importing it.
+        if inspect.isbuiltin(value) and value.__module__ is not None:
             ev = Function(env)
             ev.assign(value)
         elif inspect.ismodule(value):
-- 
2.43.0


From 7d28c5104f1c665332353561f5a9c5033d9e50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 23/31] fix: appending to a stored stream corrupted values that
 occur more than once

---
 marcel/picklefile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..f105a10 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -142,12 +142,16 @@ class Writer(Access):
         self.append = append
         owner.path.touch(mode=0o600)
         self.file = open(owner.path, 'ab' if self.append else 'wb')
-        self.pickler = dill.Pickler(self.file)
+        # Each write has to be readable on its own. References to objects pickled earlier would confuse data appended
+        # by different Writers, and would miss changes made to an object since it was first pickled. Protocol 3 is the
+        # last one in which a pickle does not depend on the number of objects that the Unpickler has already seen.
+        self.pickler = dill.Pickler(self.file, protocol=3)
         self.last_flush = time.time()
 
     def write(self, x):
         assert self.file is not None
         try:
+            self.pickler.clear_memo()
             self.pickler.dump(x)
             now = time.time()
             if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
-- 
2.43.0


From 691e981d43d517c6e21344f9fbbe8425e94b7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 24/31] fix: loading a variable while it is being stored ended
 the shell instead of the command

---
 marcel/op/load.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index f8ee8a4..c4a966e 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -97,7 +97,10 @@ class Load(marcel.core.Op):
         elif self.var is not None:
             raise marcel.exception.KillCommandException(
                 f'The type of {self.var} is {type(self.var)}. Only a Reservoir can be loaded')
-        self.reader = iter(self.picklefile)
+        try:
+            self.reader = iter(self.picklefile)
+        except marcel.picklefile.PickleFileUsageError:
+            raise marcel.exception.KillCommandException(f'load {self.var}: Pickle file already in use')
 
     def run(self, env):
         try:
-- 
2.43.0


From f9592f61b5a17927c70acb796197ca7febbf349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:44 +0000
Subject: [PATCH 25/31] fix: a stored stream could be overwritten while it was
 being loaded

---
 marcel/picklefile.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f105a10..a468915 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -27,7 +27,7 @@ class PickleFile:
 
     def __init__(self, path):
         self.path = pathlib.Path(path)
-        self._readers = {}  # path -> Reader
+        self._readers = {}  # id(Reader) -> Reader
         self._writer = None
 
     def __repr__(self):
@@ -55,7 +55,7 @@ class PickleFile:
     def reader(self):
         self.check_availability(self._writer is None)
         reader = Reader(self)
-        self._readers[self.path] = reader
+        self._readers[id(reader)] = reader
         return reader
 
     def writer(self, append):
@@ -72,13 +72,17 @@ class PickleFile:
             pass
 
     def close(self):
-        try:
-            access = self._readers.pop(self.path)
-        except KeyError:
-            access = self._writer
+        for access in (*self._readers.values(), self._writer):
+            if access is not None:
+                self.close_access(access)
+
+    # Does nothing if access has been closed already.
+    def close_access(self, access):
+        if access is self._writer:
             self._writer = None
-        if access is not None:
-            access.close_file()
+        elif self._readers.pop(id(access), None) is None:
+            return
+        access.close_file()
 
     # A reservoir owned by a default workspace has a filename of the form PID.varname.pickle. Return the pid,
     # or None if there is none.
@@ -99,7 +103,7 @@ class Access(object):
         self.file = None
 
     def close(self):
-        self.owner.close()
+        self.owner.close_access(self)
 
     def close_file(self):
         self.file.close()
-- 
2.43.0


From cc09d7a082b8838f04379d93b17477a3915813f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:14 +0000
Subject: [PATCH 26/31] fix: a command refused by one operator left the files
 and connections of the others open

---
 marcel/op/load.py  |  4 ++++
 marcel/pipeline.py | 20 ++++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index c4a966e..7222604 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -112,5 +112,9 @@ class Load(marcel.core.Op):
             self.reader.close()
             raise
 
+    def cleanup(self):
+        if self.reader is not None:
+            self.reader.close()
+
     def must_be_first_in_pipeline(self):
         return True
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 4b01073..a08e6b2 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,12 +56,20 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
-        for op in self.ops:
-            if env.trace.is_enabled():
-                env.trace.write(op, 'SETUP')
-            op.setup(env)
-        for op in self.ops:
-            op.customize_pipelines(env)
+        ready = []
+        try:
+            for op in self.ops:
+                if env.trace.is_enabled():
+                    env.trace.write(op, 'SETUP')
+                op.setup(env)
+                ready.append(op)
+            for op in self.ops:
+                op.customize_pipelines(env)
+        except BaseException:
+            # This pipeline isn't going to run, so it isn't going to be cleaned up either.
+            for op in ready:
+                op.cleanup()
+            raise
 
     def run(self, env):
         if env.trace.is_enabled():
-- 
2.43.0


From 8fcceba3a37ed36ba711b69ee8fb1446f6068760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:15 +0000
Subject: [PATCH 27/31] fix: appending to a deleted variable brought its old
 contents back

---
 marcel/op/store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..31ba110 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -91,6 +91,7 @@ class Store(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        append = self.append
         if type(self.var) is Reservoir:
             # API
             self.reservoir = self.var
@@ -104,6 +105,8 @@ class Store(marcel.core.Op):
                         f'because it stores a value of type {type(value)}.')
                 if type(value) is not Reservoir:
                     value = Reservoir(self.var, env.locations.data_ws_res(env.workspace, self.var))
+                    # The file may be left over from a deleted variable of the same name.
+                    append = False
                 self.reservoir = value
                 env.setvar(self.var, value)
                 env.mark_possibly_changed(self.var)
@@ -115,7 +118,7 @@ class Store(marcel.core.Op):
             raise marcel.exception.KillCommandException(
                 f'{self.var} is not usable as a reservoir, it stores a value of type {type(self.reservoir)}.')
         try:
-            self.writer = self.reservoir.writer(append=self.append)
+            self.writer = self.reservoir.writer(append=append)
         except marcel.picklefile.PickleFileUsageError:
             raise marcel.exception.KillCommandException(f'store {self.var}: Pickle file already in use')
 
-- 
2.43.0


From 400819aa86d90797ae10e63d26fb1138557deec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:26 +0000
Subject: [PATCH 28/31] fix: pushd refuses an argument that is not a directory,
 as cd does

---
 marcel/op/pushd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 8604d23..e1e5ee2 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -73,6 +73,8 @@ class Pushd(marcel.core.Op):
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
                 raise marcel.exception.KillCommandException('Too many paths')
+            elif not dirs[0].is_dir():
+                raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
             self.directory = dirs[0]
 
     def run(self, env):
-- 
2.43.0


From 85614c2b2579e611a98db484b8176691b54f26bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 29/31] fix: cd and pushd accept a File, as their argument
 types say

---
 marcel/op/cd.py    | 6 +++---
 marcel/op/pushd.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/op/cd.py b/marcel/op/cd.py
index 9e0f6ed..02fdf04 100644
--- a/marcel/op/cd.py
+++ b/marcel/op/cd.py
@@ -56,9 +56,9 @@ class Cd(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        dir_arg = pathlib.Path(self.eval_function(env,
-                                                  'directory_arg',
-                                                  str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File))
+        dir_arg = self.eval_function(env,
+                                     'directory_arg',
+                                     str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File)
         try:
             dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
         except Exception as e:
diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index e1e5ee2..e23b6aa 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -68,7 +68,7 @@ class Pushd(marcel.core.Op):
         if dir_arg is None:
             self.directory = None
         else:
-            dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+            dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
             if len(dirs) == 0:
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
-- 
2.43.0


From 55f115cb95f9234b778b8df86c76c4fd90770a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:00 +0000
Subject: [PATCH 30/31] fix: ~/.. is the parent of the home directory, not the
 current directory

---
 marcel/op/filenames.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index 7fb2988..bbaba70 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -75,10 +75,10 @@ class Filenames(object):
             filename = str(filename)
             # Unescape escaped chars
             filename = marcel.util.unescape(filename)
-            # Resolve . and ..
-            filename = os.path.normpath(filename)
-            # Convert to Path and resolve ~
-            path = pathlib.Path(filename).expanduser()
+            # Resolve ~, and then . and .. (~/.. is not the current directory)
+            filename = os.path.normpath(pathlib.Path(filename).expanduser())
+            # Convert to Path
+            path = pathlib.Path(filename)
             # If path is relative, specify what it is relative to.
             if not path.is_absolute():
                 path = self.current_dir / path
-- 
2.43.0


From 1bf213ac1dc9a730acf77ad6a413a8828fd27cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 31/31] fix: locking a workspace whose owner was killed; a lost
 race for the marker is a refusal

---
 marcel/object/workspace.py | 50 ++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 35e7ded..184a443 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -386,9 +386,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         if owner is None:
             # Lock the file by renaming it. Check for success, to guard against another process trying to
             # lock the same workspace.
-            owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
-            return owned_marker_path.exists()
+            return self.take_marker(self.marker.unowned())
         elif owner == self.locations.pid:
             # Already locked
             return True
@@ -401,11 +399,17 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 return False
             else:
                 # Owner disappeared. Steal the marker file.
-                abandoned_marker_path = self.marker.owned(owner)
-                owned_marker_path = self.marker.owned()
-                abandoned_marker_path.rename(owned_marker_path)
-                # If owned_marker_path doesn't exist, another process was stealing the file at exactly the same time?!
-                return owned_marker_path.exists()
+                return self.take_marker(self.marker.owned(owner))
+
+    # Rename the given marker file, so that it is owned by this process.
+    def take_marker(self, marker_path):
+        owned_marker_path = self.marker.owned()
+        try:
+            marker_path.rename(owned_marker_path)
+        except FileNotFoundError:
+            # Another process took the marker at exactly the same time.
+            return False
+        return owned_marker_path.exists()
 
     def unlock_workspace(self):
         assert not self.is_default()
@@ -414,10 +418,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             # Someone is unlocking an unlocked workspace? I'll allow it.
             pass
         elif owner == self.locations.pid:  # locations.pid is the pid of the topmost process
-            # Unlock
-            unowned_marker_path = self.marker.unowned()
-            self.marker.owned().rename(unowned_marker_path)
-            assert unowned_marker_path.exists(), self
+            # Unlock. (Don't expect to find the unowned marker afterward, another process may lock right away.)
+            self.marker.owned().rename(self.marker.unowned())
         else:
             # Owned by someone else?!
             assert False, self
@@ -456,9 +458,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             return None
         if not self.locations.config_ws(self).exists():
             return None
-        # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
-        self.delete_abandoned_markers()
-        # Now find the marker. Something is very wrong if there is anything other than one.
+        # Find the marker. Something is very wrong if there is anything other than one. The owner may be a process
+        # that doesn't exist, see lock_workspace().
         marker_filename = None
         for file in self.locations.config_ws(self).iterdir():
             if file.name.startswith(Marker.FILENAME_ROOT):
@@ -467,6 +468,9 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 else:
                     assert False, f'Multiple marker files in {self.locations.config_ws_startup(self)}'
         assert marker_filename is not None
+        if marker_filename == Marker.FILENAME_ROOT:
+            # Unlocked by another process just now.
+            return None
         return Workspace.marker_filename_pid(marker_filename)
 
     def validate(self):
@@ -484,12 +488,18 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             data_target = locations.data_bws(self, now)
             shutil.move(data_source, data_target)
 
-    def delete_abandoned_markers(self):
+    # A marker owned by a process that doesn't exist is given up. It has to be renamed. If it were deleted and then
+    # created again, another process could lock the workspace in between, leaving two markers.
+    def release_abandoned_markers(self):
         for file in self.locations.config_ws(self).iterdir():
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
                 pid = Workspace.marker_filename_pid(file.name)
                 if not marcel.util.process_exists(pid):
-                    file.unlink()
+                    try:
+                        file.rename(self.marker.unowned())
+                    except FileNotFoundError:
+                        # Another process took the marker at exactly the same time.
+                        pass
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
@@ -585,11 +595,9 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
-        # Workspace.owner() gets rid of unowned marker files.
-        self.workspace.delete_abandoned_markers()
+        self.workspace.release_abandoned_markers()
         if not self.workspace.marker.exists():
-            # Could happen if Workspace.owner() deleted the marker, because it was owned by
-            # a process that no longer exists. Create a new marker.
+            # The marker is missing. Create a new one.
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
         if not locations.config_ws_startup(workspace).exists():
-- 
2.43.0

