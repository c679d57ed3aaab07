From 3ad1d2d25de9ca97ea44ec931c4d6e8a814c4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:53 +0000
Subject: [PATCH 01/97] fix: send Update subscribers of a table the table that
 was set

When only some columns of a table changed the change is notified per column,
so a subscriber to the whole table got an Update with the old table in it
---
 malcolm/core/notifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b3499ff..25829c7 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -180,6 +180,11 @@ class NotifierNode:
             # This is for one of our children
             name = path[0]
             if name in self.children:
+                if len(path) > 1:
+                    # Something below our child changed. If our child is not a
+                    # Model (e.g. a Table with only some columns changed) then
+                    # it may have been replaced, so make sure it is up to date
+                    self.children[name].data = getattr(self.data, name, None)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
-- 
2.43.0


From e1c82eb95ca7bfc45c7412e41577849bd6a24109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:05 +0000
Subject: [PATCH 02/97] fix: subscribe to a path inside a mapping gives its
 value rather than null

A Get of e.g. attr.meta.elements.column returned the column meta, but a
Subscribe to it only ever gave null
---
 malcolm/core/notifier.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index 25829c7..280e4e5 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -46,6 +46,15 @@ def freeze(o):
     return o
 
 
+def get_child_data(data: Any, name: str) -> Any:
+    """Get the child of data with the given name, None if it doesn't exist"""
+    if isinstance(data, dict):
+        # The children of a mapping are its items, e.g. meta.elements
+        return data.get(name, None)
+    else:
+        return getattr(data, name, None)
+
+
 class Notifier(Loggable):
     """Object that can service callbacks on given endpoints"""
 
@@ -184,7 +193,7 @@ class NotifierNode:
                     # Something below our child changed. If our child is not a
                     # Model (e.g. a Table with only some columns changed) then
                     # it may have been replaced, so make sure it is up to date
-                    self.children[name].data = getattr(self.data, name, None)
+                    self.children[name].data = get_child_data(self.data, name)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
@@ -213,7 +222,7 @@ class NotifierNode:
         child_change_dict: Dict[str, List] = {}
         # Reflect change of data to children
         for name in self.children:
-            child_data = getattr(data, name, None)
+            child_data = get_child_data(data, name)
             if child_data is None:
                 # Deletion
                 child_change_dict[name] = [[]]
@@ -240,7 +249,8 @@ class NotifierNode:
             # Recurse down
             name = path[0]
             if name not in self.children:
-                self.children[name] = NotifierNode(getattr(self.data, name, None), self)
+                child_data = get_child_data(self.data, name)
+                self.children[name] = NotifierNode(child_data, self)
             ret += self.children[name].handle_subscribe(request, path[1:])
         else:
             # This is for us
-- 
2.43.0


From 5df17c7b6ad1d213db2c9af5413c21ed06ecf465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:09 +0000
Subject: [PATCH 03/97] fix: refuse lists for number attributes and convert
 single values put to arrays

---
 malcolm/core/models.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 92d2db5..c370f30 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -683,6 +683,7 @@ class NumberMeta(VMeta):
         if value is None:
             value = 0
         cast = self._np_type(value)
+        assert isinstance(cast, self._np_type), f"Expected a number, got {value!r}"
         return cast
 
     def doc_type_string(self) -> str:
@@ -745,10 +746,12 @@ def to_np_array(dtype, value: Any) -> Any:
         # If Array wraps a numpy array of the correct type we are done
         return value
     else:
-        if isinstance(value, Sequence):
-            # Cast to numpy array
-            value = np.array(value, dtype=dtype)
-        return to_array(Array[dtype], value)
+        if value is not None and not isinstance(value, np.ndarray):
+            # Cast to numpy array, making single values into a 1 element array
+            value = np.atleast_1d(np.array(value, dtype=dtype))
+        ret = to_array(Array[dtype], value)
+        assert np.ndim(ret.seq) == 1, f"Expected 1D array, got {value!r}"
+        return ret
 
 
 @Serializable.register_subclass("malcolm:core/BooleanArrayMeta:1.0")
-- 
2.43.0


From dfc08771f970dc408d0b09a3571f10272089fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:41 +0000
Subject: [PATCH 04/97] fix: send Update subscribers the final table when it is
 set twice in one group

---
 malcolm/core/notifier.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index 280e4e5..8f43c44 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -139,14 +139,24 @@ class Notifier(Loggable):
 
 class NotifierNode:
     # Define slots so it uses less resources to make these
-    __slots__ = ["delta_requests", "update_requests", "children", "parent", "data"]
-
-    def __init__(self, data: Any, parent: "NotifierNode" = None) -> None:
+    __slots__ = [
+        "delta_requests",
+        "update_requests",
+        "children",
+        "parent",
+        "data",
+        "name",
+    ]
+
+    def __init__(
+        self, data: Any, parent: "NotifierNode" = None, name: str = None
+    ) -> None:
         self.delta_requests: List[Subscribe] = []
         self.update_requests: List[Subscribe] = []
         self.children: Dict[str, NotifierNode] = {}
         self.parent = parent
         self.data = data
+        self.name = name
 
     def notify_changes(self, changes: List[List]) -> "CallbackResponses":
         """Set our data and notify anyone listening
@@ -165,6 +175,12 @@ class NotifierNode:
             # Add any changes that our children need to know about
             self._add_child_change(change, child_changes)
 
+        if self.parent and self.name and any(change[0] for change in changes):
+            # Something below us changed. If we are not a Model (e.g. a Table
+            # with only some columns changed) then we may have been replaced
+            # without being told, so make sure we are up to date
+            self.data = get_child_data(self.parent.data, self.name)
+
         # If we have update subscribers, freeze at this level
         if self.update_requests:
             frozen = freeze(self.data)
@@ -189,11 +205,6 @@ class NotifierNode:
             # This is for one of our children
             name = path[0]
             if name in self.children:
-                if len(path) > 1:
-                    # Something below our child changed. If our child is not a
-                    # Model (e.g. a Table with only some columns changed) then
-                    # it may have been replaced, so make sure it is up to date
-                    self.children[name].data = get_child_data(self.data, name)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
@@ -250,7 +261,7 @@ class NotifierNode:
             name = path[0]
             if name not in self.children:
                 child_data = get_child_data(self.data, name)
-                self.children[name] = NotifierNode(child_data, self)
+                self.children[name] = NotifierNode(child_data, self, name)
             ret += self.children[name].handle_subscribe(request, path[1:])
         else:
             # This is for us
-- 
2.43.0


From fa20191cadff00a3ea718c9947746232dd14d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 05/97] fix: end a run that was paused in the state for where
 it seeked to

run() decided whether it would end Armed or Finished before it was paused. If
the pause moved it to a different run of a multi-run scan it would end Finished
with steps left to do, or Armed with nothing left to do
---
 .../modules/scanning/controllers/runnablecontroller.py   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9ec3086..fbcf9ec 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -526,16 +526,17 @@ class RunnableController(builtin.controllers.ManagerController):
         Disabled state.
         """
 
-        if self.configured_steps.value < self.total_steps.value:
-            next_state = ss.ARMED
-        else:
-            next_state = ss.FINISHED
         try:
             self.transition(ss.RUNNING)
             hook = RunHook
             going = True
             while going:
                 try:
+                    # If we were paused we might have moved to a different run
+                    if self.configured_steps.value < self.total_steps.value:
+                        next_state = ss.ARMED
+                    else:
+                        next_state = ss.FINISHED
                     self.do_run(hook)
                     self.abortable_transition(next_state)
                 except AbortedError:
-- 
2.43.0


From 8e86c31a8eed72349f3c7069c876f9574ab23c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 06/97] fix: completedSteps shows the slowest part after a seek

The progress of each part before the seek was kept, so a part that hadn't yet
reported progress after it was counted as being where it was before
---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index fbcf9ec..b546023 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -715,6 +715,9 @@ class RunnableController(builtin.controllers.ManagerController):
             ReportStatusHook(p, c) for p, c in self.part_contexts.items()
         )
         self.completed_steps.set_value(completed_steps)
+        # All parts now have to progress from here, forget where they were
+        if self.progress_updates:
+            self.progress_updates = {p: completed_steps for p in self.progress_updates}
         self.run_hooks(
             SeekHook(p, c, completed_steps, steps_to_do, part_info, **kwargs)
             for p, c, kwargs in self._part_params()
-- 
2.43.0


From 2885489dc63650c1e2cb9c9ea4c12ca1cbf342b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:20 +0000
Subject: [PATCH 07/97] fix: a configure overtaken by another request while
 validating is refused

It was putting the Block into Fault, breaking the configure or abort that had
overtaken it
---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index b546023..66ff4d9 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -446,8 +446,10 @@ class RunnableController(builtin.controllers.ManagerController):
         """
         params = self.validate(generator, axesToMove, breakpoints, **kwargs)
         state = self.state.value
+        # Another request might have changed state while we were validating, in
+        # which case we shouldn't interfere with it
+        self.transition(ss.CONFIGURING)
         try:
-            self.transition(ss.CONFIGURING)
             self.do_configure(state, params)
             self.abortable_transition(ss.ARMED)
         except AbortedError:
-- 
2.43.0


From d4f96028dbc9e83970b1220ea07db1a995787e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:54 +0000
Subject: [PATCH 08/97] fix: abort and pause between two hooks stop the next
 one from starting

Starting a hook makes the context ignore any stops it has already received, so
if abort or pause came in after all parts finished one hook but before the next
one was started then it was ignored until the whole operation had finished
---
 .../scanning/controllers/runnablecontroller.py        | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 66ff4d9..a8f041e 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -424,6 +424,17 @@ class RunnableController(builtin.controllers.ManagerController):
                 self_ctx.sleep(0)
             self.transition(state)
 
+    def start_hooks(self, hooks):
+        # Starting a hook makes its context ignore any previous stops, so if
+        # these are the contexts that abort() and pause() operate on then make
+        # sure they haven't been stopped since the last hook finished
+        hooks = list(hooks)
+        with self._lock:
+            self_ctx = self.part_contexts.get(self, None)
+            if self_ctx and any(h.context is self_ctx for h in hooks):
+                self_ctx.sleep(0)
+            return super().start_hooks(hooks)
+
     # This will be serialized, so maintain camelCase for axesToMove
     # noinspection PyPep8Naming
     @add_call_types
-- 
2.43.0


From 8afca7b218b4eae57b2044ec67f9542454e84b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:17 +0000
Subject: [PATCH 09/97] fix: abort during the reset phase of a configure from
 Finished stops it

The contexts that abort operates on were only created after that phase, so the
configure carried on and put the Block into Fault
---
 .../scanning/controllers/runnablecontroller.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index a8f041e..2edd4e3 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -474,20 +474,20 @@ class RunnableController(builtin.controllers.ManagerController):
             return params
 
     def do_configure(self, state: str, params: ConfigureParams) -> None:
+        old_part_contexts = self.part_contexts
+        # These are the part tasks that abort() and pause() will operate on
+        self.part_contexts = self.create_part_contexts()
+        # So add one for ourself too so we can be aborted
+        assert self.process, "No attached process"
+        self.part_contexts[self] = Context(self.process)
         if state == ss.FINISHED:
             # If we were finished then do a reset before configuring
             self.run_hooks(
-                builtin.hooks.ResetHook(p, c)
-                for p, c in self.create_part_contexts().items()
+                builtin.hooks.ResetHook(p, c) for p, c in self.part_contexts.items()
             )
         # Clear out any old part contexts now rather than letting gc do it
-        for context in self.part_contexts.values():
+        for context in old_part_contexts.values():
             context.unsubscribe_all()
-        # These are the part tasks that abort() and pause() will operate on
-        self.part_contexts = self.create_part_contexts()
-        # So add one for ourself too so we can be aborted
-        assert self.process, "No attached process"
-        self.part_contexts[self] = Context(self.process)
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-- 
2.43.0


From 6de4963be230f424f15df1272c33595acfd66659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:55 +0000
Subject: [PATCH 10/97] fix: abort or disable while pause is waiting for run to
 stop

pause() carried on with its Pause and Seek hooks once run() had stopped, or
waited for 10s then tried to, putting the Block into Fault
---
 .../scanning/controllers/runnablecontroller.py       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 2edd4e3..71f7681 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -638,17 +638,25 @@ class RunnableController(builtin.controllers.ManagerController):
             # AbortedError. Both of these are accomplished here
             with self._lock:
                 original_state = self.state.value
-                self.abort_queue = Queue()
+                overtaken_queue = self.abort_queue
+                abort_queue = Queue()
+                self.abort_queue = abort_queue
                 self.transition(start_state)
                 for context in self.part_contexts.values():
                     context.stop()
             if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):
                 # Something was running, let it finish aborting
                 try:
-                    self.abort_queue.get(timeout=DEFAULT_TIMEOUT)
+                    abort_queue.get(timeout=DEFAULT_TIMEOUT)
                 except TimeoutError:
                     self.log.warning("Timeout waiting while {start_state}")
             with self._lock:
+                # If we stopped a pause() that was waiting for run() to stop,
+                # then it has now stopped
+                if overtaken_queue:
+                    overtaken_queue.put(None)
+                if self.state.value != start_state:
+                    raise AbortedError(f"Aborted while {start_state}")
                 # Now we've waited for a while we can remove the error state
                 # for transition in case a hook triggered it rather than a
                 # transition
-- 
2.43.0


From 5bcd9242abc9bdb12e99e22bb3ebfdabc9623e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:13 +0000
Subject: [PATCH 11/97] fix: disable during configure, run or reset ends up
 Disabled

The operation that was stopped by disable was putting the Block into Fault
---
 malcolm/modules/builtin/controllers/statefulcontroller.py | 4 +++-
 .../modules/scanning/controllers/runnablecontroller.py    | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/statefulcontroller.py b/malcolm/modules/builtin/controllers/statefulcontroller.py
index 4d48387..8811661 100644
--- a/malcolm/modules/builtin/controllers/statefulcontroller.py
+++ b/malcolm/modules/builtin/controllers/statefulcontroller.py
@@ -164,7 +164,9 @@ class StatefulController(BasicController):
                 end_state,
                 exc_info=True,
             )
-            self.go_to_error_state(e)
+            disabled = self.state.value in (ss.DISABLING, ss.DISABLED)
+            if start_state == ss.DISABLING or not disabled:
+                self.go_to_error_state(e)
             raise
 
     def add_block_field(self, name, child, writeable_func, needs_context):
diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 71f7681..9fc1b88 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -464,8 +464,8 @@ class RunnableController(builtin.controllers.ManagerController):
             self.do_configure(state, params)
             self.abortable_transition(ss.ARMED)
         except AbortedError:
-            assert self.abort_queue, "No abort queue"
-            self.abort_queue.put(None)
+            if self.abort_queue:
+                self.abort_queue.put(None)
             raise
         except Exception as e:
             self.go_to_error_state(e)
@@ -553,8 +553,8 @@ class RunnableController(builtin.controllers.ManagerController):
                     self.do_run(hook)
                     self.abortable_transition(next_state)
                 except AbortedError:
-                    assert self.abort_queue, "No abort queue"
-                    self.abort_queue.put(None)
+                    if self.abort_queue:
+                        self.abort_queue.put(None)
                     # Wait for a response on the resume_queue
                     assert self.resume_queue, "No resume queue"
                     should_resume = self.resume_queue.get()
-- 
2.43.0


From 86dcaebe1c5e0365facfaa39fb0d7fbf67998bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:41 +0000
Subject: [PATCH 12/97] fix: fields added while a block is Disabled are not
 writeable

---
 .../builtin/controllers/statefulcontroller.py | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/statefulcontroller.py b/malcolm/modules/builtin/controllers/statefulcontroller.py
index 8811661..cb222f4 100644
--- a/malcolm/modules/builtin/controllers/statefulcontroller.py
+++ b/malcolm/modules/builtin/controllers/statefulcontroller.py
@@ -174,18 +174,14 @@ class StatefulController(BasicController):
         # If we don't have a writeable func it can never be writeable
         if writeable_func is None:
             return
-        # If we have already registered an explicit set then we are done
-        for state in self.state_set.possible_states:
-            state_writeable = self._children_writeable.get(state, {})
-            if child in state_writeable:
-                return
-        # Field is writeable but has not defined when it should be
-        # writeable, so calculate it from the possible states
-        states = [
-            state
-            for state in self.state_set.possible_states
-            if state not in (ss.DISABLING, ss.DISABLED)
-        ]
-        for state in self.state_set.possible_states:
-            state_writeable = self._children_writeable.setdefault(state, {})
-            state_writeable[child] = state in states
+        # If we haven't registered an explicit set then calculate it from the
+        # possible states
+        if child not in self._children_writeable.get(self.state.value, {}):
+            states = [
+                state
+                for state in self.state_set.possible_states
+                if state not in (ss.DISABLING, ss.DISABLED)
+            ]
+            self.set_writeable_in(child, *states)
+        # The field might be added when the block is in any state
+        child.meta.set_writeable(self._children_writeable[self.state.value][child])
-- 
2.43.0


From fc630196458e793c6d490343db813b1bf00bdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:48 +0000
Subject: [PATCH 13/97] fix: a when_matches that timed out or was stopped no
 longer listens

---
 malcolm/core/context.py | 12 +++++++++++-
 malcolm/core/views.py   |  4 +---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 8821c77..7b62b33 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -247,7 +247,7 @@ class Context:
                 event, wait forever if None
         """
         future = self.when_matches_async(path, good_value, bad_values)
-        self.wait_all_futures(future, timeout=timeout, event_timeout=event_timeout)
+        self.wait_match(future, timeout=timeout, event_timeout=event_timeout)
 
     def when_matches_async(self, path, good_value, bad_values=None):
         """Wait for an attribute to become a given value
@@ -269,6 +269,16 @@ class Context:
         when.set_future_context(future, weakref.proxy(self))
         return future
 
+    def wait_match(self, future, timeout=None, event_timeout=None):
+        """Wait for the result of when_matches_async, which nobody else will
+        wait for, so stop listening if it fails"""
+        try:
+            self.wait_all_futures(future, timeout=timeout, event_timeout=event_timeout)
+        except Exception:
+            if future in self._requests and future not in self._pending_unsubscribes:
+                self.unsubscribe(future)
+            raise
+
     def wait_all_futures(
         self,
         futures: Union[List[Future], Future, None],
diff --git a/malcolm/core/views.py b/malcolm/core/views.py
index d6e7d6d..2f1fcf7 100644
--- a/malcolm/core/views.py
+++ b/malcolm/core/views.py
@@ -194,9 +194,7 @@ class Block(View):
         event_timeout=None,
     ):
         future = self.when_value_matches_async(attr, good_value, bad_values)
-        self._context.wait_all_futures(
-            future, timeout=timeout, event_timeout=event_timeout
-        )
+        self._context.wait_match(future, timeout=timeout, event_timeout=event_timeout)
 
     def when_value_matches_async(self, attr, good_value, bad_values=None):
         path = self._data.path + [attr, "value"]
-- 
2.43.0


From 7b23e8b8440938b7eb2e6f04967df8f7559d18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:06 +0000
Subject: [PATCH 14/97] fix: waits hung or hid an error when a subscription
 callback waited too

---
 malcolm/core/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 7b62b33..71c21ab 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -409,9 +409,11 @@ class Context:
             # some futures that aren't known to it. This means that some of
             # our futures list are now concluded, so filter them out. If we
             # didn't do this we would hang forever
-            for future in futures:
+            for future in list(futures):
                 if future not in self._requests:
                     futures.remove(future)
+                    if future.exception() is not None:
+                        raise future.exception()
         elif isinstance(response, Return):
             future = self._futures.pop(response.id)
             del self._requests[future]
-- 
2.43.0


From 1bd1a2d6bc46c2c0cbd19d2364623dca188114ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:16 +0000
Subject: [PATCH 15/97] fix: waiting for the same future twice in one call hung

---
 malcolm/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 71c21ab..a20e7a2 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -314,7 +314,7 @@ class Context:
             if f.done():
                 if f.exception() is not None:
                     raise f.exception()
-            else:
+            elif f not in filtered_futures:
                 filtered_futures.append(f)
 
         until: Union[float, None]
-- 
2.43.0


From dcca518f561386eaeafba3778028d728d123fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:15 +0000
Subject: [PATCH 16/97] fix: validate with several frames per step and no
 duration given

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 3e7bfa6..aae91a2 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -229,6 +229,12 @@ class DetectorChildPart(builtin.parts.ChildPart):
                     if k == "exposure":
                         exposure = v
                         tweak_detectors = True
+                    elif k == "generator" and frames_per_step > 1:
+                        # We gave it a generator with our frames as an extra
+                        # dimension, so only take the duration of each point
+                        new_generator = CompoundGenerator.from_dict(generator.to_dict())
+                        new_generator.duration = v.duration
+                        ret.append(ParameterTweakInfo(k, new_generator))
                     else:
                         ret.append(ParameterTweakInfo(k, v))
         else:
-- 
2.43.0


From 55861ce839fdac5b7a67ebd5e3adb5dae8d2c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 17/97] fix: results of spawned functions that don't compare to
 a single boolean

---
 malcolm/core/concurrency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/concurrency.py b/malcolm/core/concurrency.py
index 621becc..68cbdb6 100644
--- a/malcolm/core/concurrency.py
+++ b/malcolm/core/concurrency.py
@@ -54,12 +54,12 @@ class Spawned:
 
     def wait(self, timeout: float = None) -> None:
         # Only one person can wait on this at a time
-        if self._result == self.NO_RESULT:
+        if self._result is self.NO_RESULT:
             self._result_queue.get(timeout)
 
     def ready(self) -> bool:
         """Return True if the spawned result has returned or errored"""
-        return self._result != self.NO_RESULT
+        return self._result is not self.NO_RESULT
 
     def get(self, timeout: float = None) -> T:
         """Return the result or raise the error the function has produced"""
-- 
2.43.0


From 003cb53352c313138fc49bd327e415678db24edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 18/97] fix: everyone waiting for a spawned function is told
 when it finishes

---
 malcolm/core/concurrency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/concurrency.py b/malcolm/core/concurrency.py
index 68cbdb6..cbb8998 100644
--- a/malcolm/core/concurrency.py
+++ b/malcolm/core/concurrency.py
@@ -53,9 +53,10 @@ class Spawned:
         self._result_queue.put(None)
 
     def wait(self, timeout: float = None) -> None:
-        # Only one person can wait on this at a time
         if self._result is self.NO_RESULT:
             self._result_queue.get(timeout)
+            # Let anyone else who is waiting know too
+            self._result_queue.put(None)
 
     def ready(self) -> bool:
         """Return True if the spawned result has returned or errored"""
-- 
2.43.0


From da234f1f3f137bf7949434562878f9759780fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 19/97] fix: don't publish controllers before they have started

---
 malcolm/core/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 7aba8f2..2164eef 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -90,12 +90,15 @@ class Process(Loggable):
         self, controller_list: List[Controller], timeout: float = None
     ) -> bool:
         # Start just the given controller_list
+        # If anyone else publishes, they shouldn't publish these until started
+        starting = {controller.mri for controller in controller_list}
+        self._unpublished |= starting
         infos = self._run_hook(ProcessStartHook, controller_list, timeout=timeout)
         info: UnpublishedInfo
         new_unpublished = set()
         for info in UnpublishedInfo.filter_values(infos):
             new_unpublished.add(info.mri)
-        self._unpublished |= new_unpublished
+        self._unpublished -= starting - new_unpublished
         if len(controller_list) > len(new_unpublished):
             return True
         else:
-- 
2.43.0


From 927013af1d93a32f8292d527c51cc136840f94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 20/97] fix: compare saved and current values of any type in
 ChildPart

Arrays of different lengths raised an error in whoever changed the child's
attribute, and stopped designs being loaded. Tables, Enums and arrays read
from a design file were never equal to the same value held by the child.
---
 malcolm/modules/builtin/parts/childpart.py | 35 ++++++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index f212570..ef7db02 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import (
     Any,
     Dict,
@@ -12,7 +13,7 @@ from typing import (
     Union,
 )
 
-from annotypes import Anno, add_call_types
+from annotypes import Anno, Array, add_call_types
 
 from malcolm.compat import OrderedDict
 from malcolm.core import (
@@ -27,6 +28,7 @@ from malcolm.core import (
     Response,
     Return,
     Subscribe,
+    Table,
     Unsubscribe,
     Update,
     get_config_tag,
@@ -77,6 +79,33 @@ APartName = APartName
 ss = StatefulStates
 
 
+def values_equal(first: Any, second: Any) -> bool:
+    """Compare Attribute values, either of which may be in the plain form that
+    is read from a design file"""
+    plain = []
+    for value in (first, second):
+        if isinstance(value, Table):
+            value = {k: value[k] for k in value.call_types}
+        elif isinstance(value, Mapping):
+            value = {k: v for k, v in value.items() if k != "typeid"}
+        elif isinstance(value, Array):
+            value = list(value)
+        elif isinstance(value, Enum):
+            value = value.value
+        plain.append(value)
+    first, second = plain
+    if isinstance(first, dict) and isinstance(second, dict):
+        return set(first) == set(second) and all(
+            values_equal(v, second[k]) for k, v in first.items()
+        )
+    elif isinstance(first, list) and isinstance(second, list):
+        return len(first) == len(second) and all(
+            values_equal(a, b) for a, b in zip(first, second)
+        )
+    else:
+        return bool(first == second)
+
+
 class ChildPart(Part):
     #: A set containing all the Attribute names of our child Block that we will
     #: put to, so shouldn't be saved. Set this in subclasses using `no_save`
@@ -237,7 +266,7 @@ class ChildPart(Part):
             # ones that need to change
             to_set = {}
             for k, (attr, v) in params.items():
-                if attr.value != v:
+                if not values_equal(attr.value, v):
                     to_set[k] = v
             child.put_attribute_values(to_set)
         if init and "design" in child:
@@ -346,7 +375,7 @@ class ChildPart(Part):
         # If we did a save or load then we will have an original value,
         # otherwise it will be None
         original_value = self.saved_structure.get(name, None)
-        if original_value == new_value:
+        if values_equal(original_value, new_value):
             message = None
         else:
             message = "%s.%s.value = %s not %s" % (
-- 
2.43.0


From 3d4bf95e4f1ba3aee0c97d34bd76ffb6dce70b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:13 +0000
Subject: [PATCH 21/97] fix: forget what was modified before a save or load in
 ChildPart

Once something was modified and then saved, the next modification reported it
as still modified, and modified stayed set after that was reverted
---
 malcolm/modules/builtin/parts/childpart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index ef7db02..93bed34 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -261,6 +261,8 @@ class ChildPart(Part):
         # Do this first so that any callbacks that happen in the put know
         # not to notify controller
         self.saved_structure = structure
+        # Anything that was modified before is compared with the new structure
+        self.modified_messages = {}
         for name, params in sorted(iterations.items()):
             # Call each iteration as a separate operation, only putting the
             # ones that need to change
@@ -283,6 +285,8 @@ class ChildPart(Part):
                 if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):
                     part_structure[k] = attr.value
         self.saved_structure = part_structure
+        # What we have is now saved, so isn't modified anymore
+        self.modified_messages = {}
         return part_structure
 
     @add_call_types
-- 
2.43.0


From 523471073aeeeeb6c892d423a947f3a249547e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:41 +0000
Subject: [PATCH 22/97] fix: ChildPart follows config fields that are removed
 and added again

The subscription to a removed field was kept in the list of subscriptions, so
if it came back no modification of it was noticed
---
 malcolm/modules/builtin/parts/childpart.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 93bed34..652ff02 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -315,9 +315,11 @@ class ChildPart(Part):
             return
 
         # Remove any existing subscription that is not in the new fields
-        for subscribe in self.config_subscriptions.values():
+        for subscribe in list(self.config_subscriptions.values()):
             attr_name = subscribe.path[-2]
             if attr_name not in new_fields:
+                # Forget it so we subscribe again if the field comes back
+                self.config_subscriptions.pop(subscribe.id)
                 unsubscribe = Unsubscribe(subscribe.id)
                 unsubscribe.set_callback(subscribe.callback)
                 spawned.append(self.child_controller.handle_request(unsubscribe))
@@ -369,9 +371,10 @@ class ChildPart(Part):
 
     def update_part_modified(self, response: Response) -> None:
         if isinstance(response, Update):
-            subscribe = self.config_subscriptions[response.id]
-            name = subscribe.path[-2]
-            self.send_modified_info_if_not_equal(name, response.value)
+            subscribe = self.config_subscriptions.get(response.id, None)
+            if subscribe:
+                name = subscribe.path[-2]
+                self.send_modified_info_if_not_equal(name, response.value)
         elif not isinstance(response, Return):
             self.log.warning("Got unexpected response {response}")
 
-- 
2.43.0


From 50081f4e97834ede8d303212669cda910c6f90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:00 +0000
Subject: [PATCH 23/97] fix: keep every export of a field that is exported more
 than once in a saved design

---
 .../builtin/controllers/managercontroller.py    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 6204648..afdac72 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -432,7 +432,13 @@ class ManagerController(StatefulController):
         # Add the exports table
         exports = attributes.setdefault("exports", OrderedDict())
         for source, export in self.exports.value.rows():
-            exports[source] = export
+            if source in exports:
+                # Exported more than once, so need a list of names
+                if not isinstance(exports[source], list):
+                    exports[source] = [exports[source]]
+                exports[source].append(export)
+            else:
+                exports[source] = export
         # Add other attributes
         for name, attribute in self.our_config_attributes.items():
             attributes[name] = attribute.value
@@ -532,9 +538,12 @@ class ManagerController(StatefulController):
         self.set_layout(LayoutTable(name, mri, x, y, visible))
         # Set the exports table
         source, export = [], []
-        for source_name, export_name in attributes.get("exports", {}).items():
-            source.append(source_name)
-            export.append(export_name)
+        for source_name, export_names in attributes.get("exports", {}).items():
+            if not isinstance(export_names, list):
+                export_names = [export_names]
+            for export_name in export_names:
+                source.append(source_name)
+                export.append(export_name)
         self.exports.set_value(ExportTable(source, export))
         # Set other attributes
         our_values = {
-- 
2.43.0


From 51a23d8c2e64845fe155c93e529503d074fb7688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 24/97] fix: exported methods pass their parameters on and
 return the result

---
 malcolm/modules/builtin/controllers/managercontroller.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index afdac72..56e197a 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -368,11 +368,11 @@ class ManagerController(StatefulController):
                     ret["setter"] = setter
                 else:
 
-                    def setter_star_args(*args):
+                    def setter_params(**params):
                         context = Context(self.process)
-                        context.post(path, *args)
+                        return context.post(path, params)
 
-                    ret["setter"] = setter_star_args
+                    ret["setter"] = setter_params
 
                 # Regenerate label
                 export.meta.set_label(label)
-- 
2.43.0


From dd5a4238765abac87855688ba6a231a0c593bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 25/97] fix: apply changes to a table column or to an element
 of a mapping

Exports and proxies of a table failed to follow a change of some of its
columns, or of the choices of one of its columns
---
 malcolm/core/models.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index c370f30..d4b154a 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -132,7 +132,11 @@ class Model(Serializable):
         """Take a single change from a Delta and apply it to this model"""
         if len(path) > 1:
             # This is for a child
-            self[path[0]].apply_change(path[1:], *args)
+            child, path = self[path[0]], path[1:]
+            if isinstance(child, dict):
+                # Children are held in a dict, so this is for one of its values
+                child, path = child[path[0]], path[1:]
+            child.apply_change(path, *args)
         else:
             # This is for us
             assert (
@@ -406,6 +410,16 @@ class NTTable(AttributeModel):
             self.timeStamp = ts
             self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)
 
+    def apply_change(self, path, *args: Any) -> None:
+        if len(path) == 2 and path[0] == "value" and args:
+            # Change of a single column
+            columns = {k: self.value[k] for k in self.value.call_types}
+            assert path[1] in columns, f"Table has no column {path[1]!r}"
+            columns[path[1]] = args[0]
+            self.set_value(columns, set_alarm_ts=False)
+        else:
+            super().apply_change(path, *args)
+
 
 @Serializable.register_subclass("epics:nt/NTScalarArray:1.0")
 class NTScalarArray(AttributeModel):
-- 
2.43.0


From 728ff92db5787e5b3ffec3e5fa8701a4c4727a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:01 +0000
Subject: [PATCH 26/97] fix: refuse to export a field under a name that is
 already taken

It replaced the Block's own field, which was then lost when the exports
changed
---
 .../builtin/controllers/managercontroller.py      | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 56e197a..a7b6b96 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -197,11 +197,22 @@ class ManagerController(StatefulController):
             assert CAMEL_RE.match(
                 export_name
             ), f"Field {export_name!r} is not camelCase"
+        self._check_export_names_free(value)
         with self.changes_squashed:
             self.exports.set_value(value)
             self.update_modified()
             self.update_block_endpoints()
 
+    def _check_export_names_free(self, value):
+        # Names of our own fields, and of exports we have already seen
+        taken = {"meta"}
+        for fields in self.field_registry.fields.values():
+            taken.update(name for name, _, _, _ in fields)
+        for source, export_name in value.rows():
+            name = export_name or source.rsplit(".", 1)[1]
+            assert name not in taken, f"Field {name!r} already exists"
+            taken.add(name)
+
     def update_modified(self, part: Part = None, info: PartModifiedInfo = None) -> None:
         with self.changes_squashed:
             if part:
@@ -544,7 +555,9 @@ class ManagerController(StatefulController):
             for export_name in export_names:
                 source.append(source_name)
                 export.append(export_name)
-        self.exports.set_value(ExportTable(source, export))
+        exports_table = ExportTable(source, export)
+        self._check_export_names_free(exports_table)
+        self.exports.set_value(exports_table)
         # Set other attributes
         our_values = {
             k: v for k, v in attributes.items() if k in self.our_config_attributes
-- 
2.43.0


From 63a19361c0fbbcbc91ebfe14af5efb361750c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 27/97] fix: exports follow a field of the child that is
 removed or replaced

Changing the exports of a child failed if any of them was exported again by
its parent, and left the parent with the old field
---
 malcolm/modules/builtin/controllers/managercontroller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index a7b6b96..1ce3ca7 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -392,7 +392,13 @@ class ManagerController(StatefulController):
                 # Subsequent calls, update it
                 with self.changes_squashed:
                     for change in response.changes:
-                        ret["export"].apply_change(*change)
+                        if change[0]:
+                            ret["export"].apply_change(*change)
+                        elif len(change) == 2:
+                            # The whole field has been replaced so make the
+                            # export from the new one. If it has been removed
+                            # then update_exportable() will be told about it
+                            self.update_block_endpoints()
 
         subscription = Subscribe(path=path, delta=True)
         subscription.set_callback(update_field)
-- 
2.43.0


From d2d9f895f239dbf7737f76e9badb3e912afa1311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 28/97] fix: don't hold the lock while subscribers are told a
 method has been called

If one of them was a parent exporting the method, which was changing its
exports at the time, both Blocks would hang
---
 malcolm/core/controller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/controller.py b/malcolm/core/controller.py
index 132aee4..b2ebf17 100644
--- a/malcolm/core/controller.py
+++ b/malcolm/core/controller.py
@@ -272,9 +272,12 @@ class Controller(Hookable):
             returned_alarm = Alarm.major(stringify_error(e))
             raise
         finally:
-            self.update_method_logs(
-                method, took_value, took_ts, returned_value, returned_alarm
-            )
+            # Subscribers are told about this, so make sure that we don't hold
+            # the lock while they are as they might take their own
+            with self.lock_released:
+                self.update_method_logs(
+                    method, took_value, took_ts, returned_value, returned_alarm
+                )
 
         # Don't need to freeze as the result should be immutable
         ret = [request.return_response(result)]
-- 
2.43.0


From fa17821768d441378e60c78ae249cd9468067e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:17 +0000
Subject: [PATCH 29/97] fix: numpy scalars that p4p can't set made a block
 unavailable over PVA

A NumberMeta uint64 attribute with a value over 2**63 - 1 could not be
converted, so the PVs of the attribute and of its block were closed.
---
 malcolm/modules/pva/controllers/pvaconvert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaconvert.py b/malcolm/modules/pva/controllers/pvaconvert.py
index 74a9587..7f4d065 100644
--- a/malcolm/modules/pva/controllers/pvaconvert.py
+++ b/malcolm/modules/pva/controllers/pvaconvert.py
@@ -94,7 +94,12 @@ def convert_to_type_tuple_value(value: Any) -> Tuple[Any, Any]:
         value_for_set = value
     else:
         spec = type_specifiers[type(value)]
-        value_for_set = value
+        # p4p can't set a field to every numpy scalar, e.g. np.bool_ and
+        # np.uint64 bigger than the maximum np.int64, so unpack them
+        if isinstance(value, np.generic):
+            value_for_set = value.item()
+        else:
+            value_for_set = value
     return spec, value_for_set
 
 
-- 
2.43.0


From ee915211f3ec8e7d02c974b4fe226def0791e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:17 +0000
Subject: [PATCH 30/97] fix: give the result of a Method through a PVA proxy as
 the remote block does

A Method with a bare return value gave {'return': value} when called on the
proxy, and one that returns nothing gave an empty dictionary.
---
 .../modules/pva/controllers/pvaclientcomms.py | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index bb5a447..ff631d9 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -5,7 +5,15 @@ from p4p.client.cothread import Context, Subscription
 from p4p.client.raw import Disconnected, RemoteError
 from p4p.nt import NTURI
 
-from malcolm.core import DEFAULT_TIMEOUT, Alarm, BlockMeta, BlockModel, Model, Queue
+from malcolm.core import (
+    DEFAULT_TIMEOUT,
+    Alarm,
+    BlockMeta,
+    BlockModel,
+    Model,
+    Queue,
+    method_return_unpacked,
+)
 from malcolm.modules import builtin
 
 from .pvaconvert import Type, convert_to_type_tuple_value, convert_value_to_dict
@@ -17,11 +25,13 @@ class PvaClientComms(builtin.controllers.ClientComms):
     _monitors = None
     _ctxt = None
     _queues: Dict[str, Queue] = {}
+    _blocks: Dict[str, BlockModel] = {}
 
     def do_init(self):
         super().do_init()
         self._ctxt = Context("pva", unwrap=False)
         self._queues: Dict[str, Queue] = {}
+        self._blocks: Dict[str, BlockModel] = {}
         self._monitors: Set[Subscription] = set()
 
     def do_disable(self):
@@ -57,6 +67,7 @@ class PvaClientComms(builtin.controllers.ClientComms):
         """
         done_queue = Queue()
         self._queues[mri] = done_queue
+        self._blocks[mri] = block
         update_fields = set()
 
         def callback(value=None):
@@ -163,4 +174,13 @@ class PvaClientComms(builtin.controllers.ClientComms):
 
         uri = uri.wrap(path=f"{mri}.{method_name}", kws=parameters, scheme="pva")
         value = self._ctxt.rpc(mri, uri, timeout=None)
-        return convert_value_to_dict(value)
+        result = convert_value_to_dict(value)
+        meta = self._blocks[mri][method_name].meta
+        if method_return_unpacked() in meta.tags:
+            # The server wrapped the bare return value to be able to send it
+            return result["return"]
+        elif not meta.returns.elements:
+            # The method doesn't return anything
+            return None
+        else:
+            return result
-- 
2.43.0


From ce9fc75988e3da95756cf3a2ddea332d6032ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:55 +0000
Subject: [PATCH 31/97] fix: disconnect PVA clients when the type of a field
 changes

Replacing a field by one of another type was squeezed into the old type, e.g.
True was sent as the string 'true' with the typeid of a StringMeta.
---
 malcolm/modules/pva/controllers/pvaconvert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaconvert.py b/malcolm/modules/pva/controllers/pvaconvert.py
index 7f4d065..ec1e0f0 100644
--- a/malcolm/modules/pva/controllers/pvaconvert.py
+++ b/malcolm/modules/pva/controllers/pvaconvert.py
@@ -151,5 +151,11 @@ def convert_value_to_dict(v: Value) -> Dict:
 def update_path(value: Value, path: List[str], update: Any) -> None:
     for p in path[:-1]:
         value = value[p]
-    _, update = convert_to_type_tuple_value(update)
+    spec, update = convert_to_type_tuple_value(update)
+    if isinstance(spec, tuple):
+        # p4p would squeeze this into the type that is already there
+        _, typeid, fields = spec
+        assert (
+            Type(fields, typeid).aspy() == value.type()[path[-1]].aspy()
+        ), f"Type of {path} has changed"
     value[path[-1]] = update
-- 
2.43.0


From 97113363629d912061cc97c4f3603973f60f566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:55 +0000
Subject: [PATCH 32/97] fix: start the PVA server again when it is reset after
 being disabled

---
 malcolm/modules/pva/controllers/pvaservercomms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/pva/controllers/pvaservercomms.py b/malcolm/modules/pva/controllers/pvaservercomms.py
index 5ecad9e..695328e 100644
--- a/malcolm/modules/pva/controllers/pvaservercomms.py
+++ b/malcolm/modules/pva/controllers/pvaservercomms.py
@@ -326,6 +326,13 @@ class PvaServerComms(builtin.controllers.ServerComms):
 
     def do_init(self):
         super().do_init()
+        self._start_pva_server()
+
+    def do_reset(self):
+        super().do_reset()
+        self._start_pva_server()
+
+    def _start_pva_server(self):
         if self._pva_server is None:
             self.log.info("Starting PVA server")
             self._provider = DynamicProvider("PvaServerComms", self)
-- 
2.43.0


From c8e603a4fc05e6beab20c8f1e05b9a0bc0c3f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:37 +0000
Subject: [PATCH 33/97] fix: tell REST clients why their request failed

The message is an exception, which tornado won't take as the reason, so every
failure was an unexplained internal server error.
---
 malcolm/modules/web/parts/restfulserverpart.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/web/parts/restfulserverpart.py b/malcolm/modules/web/parts/restfulserverpart.py
index 9b93c8d..d1cf67b 100644
--- a/malcolm/modules/web/parts/restfulserverpart.py
+++ b/malcolm/modules/web/parts/restfulserverpart.py
@@ -1,4 +1,10 @@
-from annotypes import Anno, add_call_types, json_decode, json_encode
+from annotypes import (
+    Anno,
+    add_call_types,
+    json_decode,
+    json_encode,
+    stringify_error,
+)
 from tornado import gen
 from tornado.queues import Queue
 from tornado.web import RequestHandler
@@ -58,11 +64,11 @@ class RestfulHandler(RequestHandler):
             self.finish(message + "\n")
         else:
             if isinstance(response, Error):
-                message = response.message
+                message = stringify_error(response.message)
             else:
                 message = f"Unknown response {type(response)}"
-            self.set_status(500, message)
-            self.write_error(500)
+            self.set_status(500)
+            self.finish(message + "\n")
 
 
 with Anno("Part name and subdomain name to respond to queries on"):
-- 
2.43.0


From c8c39f306831d2c74c714e45c37d42c3b5d7a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:37 +0000
Subject: [PATCH 34/97] fix: don't cut off websocket clients with an IPV6
 address

---
 malcolm/modules/web/parts/websocketserverpart.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index fcc8914..4c0701b 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -84,11 +84,16 @@ class MalcWebSocketHandler(WebSocketHandler):
             if ipv4_ip == "::1":
                 # Special case IPV6 loopback
                 ipv4_ip = "127.0.0.1"
-            remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
             if self._validators:
                 # Work out if the remote ip is within the netmask of any of our
                 # interfaces. If not, Put and Post are forbidden
-                self._writeable = max(v(remoteaddr) for v in self._validators)
+                try:
+                    remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
+                except OSError:
+                    # Not an IPV4 address, so not in any IPV4 subnet
+                    self._writeable = False
+                else:
+                    self._writeable = max(v(remoteaddr) for v in self._validators)
             else:
                 self._writeable = True
             log.info(
-- 
2.43.0


From a8d522937064297af9c52415df26b38292a3d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:37 +0000
Subject: [PATCH 35/97] fix: let websocket clients use the id of a subscription
 that has ended

The ids of subscriptions that had been unsubscribed from, or that had failed,
were refused as duplicates for the rest of the connection.
---
 .../modules/web/parts/websocketserverpart.py  | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index 4c0701b..09e7012 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -110,25 +110,41 @@ class MalcWebSocketHandler(WebSocketHandler):
             except KeyError:
                 raise FieldError("id field not present in JSON message")
             request = deserialize_object(d, Request)
-            request.set_callback(self.on_response)
-            if isinstance(request, Subscribe):
-                assert msg_id not in self._id_to_mri, (
-                    "Duplicate subscription ID %d" % msg_id
-                )
-                self._id_to_mri[msg_id] = request.path[0]
+            if isinstance(request, (Subscribe, Unsubscribe)):
+                request.set_callback(self.on_subscription_response)
+            else:
+                request.set_callback(self.on_response)
             if isinstance(request, Unsubscribe):
                 mri = self._id_to_mri[msg_id]
             else:
                 mri = request.path[0]
             if isinstance(request, (Put, Post)) and not self._writeable:
                 raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")
-            self._registrar.report(builtin.infos.RequestInfo(request, mri))
+            if isinstance(request, Subscribe):
+                assert msg_id not in self._id_to_mri, (
+                    "Duplicate subscription ID %d" % msg_id
+                )
+                self._id_to_mri[msg_id] = mri
+            try:
+                self._registrar.report(builtin.infos.RequestInfo(request, mri))
+            except Exception:
+                if isinstance(request, Subscribe):
+                    # It didn't start, so the id can be used again
+                    self._id_to_mri.pop(msg_id, None)
+                raise
         except Exception as e:
             log.exception("Error handling message:\n%s", message)
             error = Error(msg_id, e)
             error_message = error.to_dict()
             self.write_message(json_encode(error_message))
 
+    def on_subscription_response(self, response):
+        # called from cothread
+        if not isinstance(response, (Delta, Update)):
+            # The subscription is finished, so the id can be used again
+            self._id_to_mri.pop(response.id, None)
+        self.on_response(response)
+
     def on_response(self, response):
         # called from cothread
         IOLoopHelper.call(self._on_response, response)
@@ -155,7 +171,7 @@ class MalcWebSocketHandler(WebSocketHandler):
                 if mri:
                     log.info("WebSocket Error: unsubscribing from stale handle")
                     unsubscribe = Unsubscribe(response.id)
-                    unsubscribe.set_callback(self.on_response)
+                    unsubscribe.set_callback(self.on_subscription_response)
                     if self._registrar:
                         self._registrar.report(
                             builtin.infos.RequestInfo(unsubscribe, mri)
-- 
2.43.0


From cbbc5767dad667060b028844176bd1387ab78597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:43 +0000
Subject: [PATCH 36/97] fix: send websocket clients changes in the order that
 they were made

The response callback blocked once every 10 messages, so changes that were made
by another cothread in the meantime were sent before older changes of the same
attribute to other subscriptions, which left them with the old value.
---
 .../modules/web/parts/websocketserverpart.py  | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index 09e7012..6cabc85 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -3,7 +3,7 @@ import logging
 import os
 import socket
 import struct
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 import cothread
 from annotypes import Anno, add_call_types, deserialize_object, json_decode, json_encode
@@ -68,6 +68,8 @@ class MalcWebSocketHandler(WebSocketHandler):
     _writeable = None
     _queue: Optional[Queue] = None
     _counter = None
+    _responses: List[Response]
+    _sending = False
 
     def initialize(self, registrar=None, validators=()):
         self._registrar = registrar
@@ -76,6 +78,8 @@ class MalcWebSocketHandler(WebSocketHandler):
         self._validators = validators
         self._queue = Queue()
         self._counter = 0
+        # Responses that need to be sent, in order
+        self._responses = []
 
     def on_message(self, message):
         # called in tornado's thread
@@ -147,12 +151,25 @@ class MalcWebSocketHandler(WebSocketHandler):
 
     def on_response(self, response):
         # called from cothread
-        IOLoopHelper.call(self._on_response, response)
-        # Wait for completion once every 10 message
-        self._counter += 1
-        if self._counter % 10 == 0:
-            for _ in range(10):
-                self._queue.get()
+        # Don't block here, otherwise another cothread could send newer changes
+        # before the rest of the ones that our caller is telling people about
+        self._responses.append(response)
+        if not self._sending:
+            self._sending = True
+            cothread.Spawn(self._send_responses)
+
+    def _send_responses(self):
+        # called from cothread
+        try:
+            while self._responses:
+                IOLoopHelper.call(self._on_response, self._responses.pop(0))
+                # Wait for completion once every 10 message
+                self._counter += 1
+                if self._counter % 10 == 0:
+                    for _ in range(10):
+                        self._queue.get()
+        finally:
+            self._sending = False
 
     def _on_response(self, response: Response) -> None:
         # called from tornado thread
-- 
2.43.0


From 5d6ee1745e41c445a7f07bd276c08e1ebfeda249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:35 +0000
Subject: [PATCH 37/97] fix: follow fields added to or removed from the remote
 block in websocket proxies

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index b8a9bd3..abf1e03 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -198,10 +198,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         elif len(path) == 1 and path[0] not in ("health", "meta"):
             if len(change) == 1:
                 # Delete a field
-                block.remove_endpoint(path[1])
+                block.remove_endpoint(path[0])
             else:
                 # Change a single field of the block
-                block.set_endpoint_data(path[1], change[1])
+                block.set_endpoint_data(path[0], change[1])
         else:
             block.apply_change(path, *change[1:])
 
-- 
2.43.0


From 24e75d87a29c46d6697dfb694df90cab40005cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:35 +0000
Subject: [PATCH 38/97] fix: apply changes the remote block grouped together as
 one group in websocket proxies

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index abf1e03..d53bf84 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -181,7 +181,7 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         self, response: Response, block: BlockModel, done_queue: Queue
     ) -> None:
         try:
-            with self.changes_squashed:
+            with block.notifier.changes_squashed:
                 for change in response.changes:
                     self._handle_change(block, change)
         except Exception:
-- 
2.43.0


From 21825b4b70805ca5643b6aecb1ec00c5fb40160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:35 +0000
Subject: [PATCH 39/97] fix: fail websocket client requests that can't be sent
 rather than wait for ever

---
 .../web/controllers/websocketclientcomms.py        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index d53bf84..88ddfeb 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -269,6 +269,14 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         request.id = self._next_id
         self._next_id += 1
         self._request_lookup[request.id] = request
-        message = json_encode(request)
-        self.log.debug("Sending message %s", message)
-        self._conn.write_message(message)
+        try:
+            message = json_encode(request)
+            self.log.debug("Sending message %s", message)
+            if self._conn is None:
+                raise ResponseError("Server disconnected")
+            self._conn.write_message(message)
+        except Exception as e:
+            # It will never get a response, so fail it now
+            self._request_lookup.pop(request.id)
+            response = Error(id=request.id, message=e)
+            cothread.Callback(request.callback, response)
-- 
2.43.0


From 6d327b44bbeca23fa48f27c5adad417711fba59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:35 +0000
Subject: [PATCH 40/97] fix: show a lost connection in websocket proxies and
 bring them back when it is restored

---
 .../web/controllers/websocketclientcomms.py   | 45 ++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index 88ddfeb..a87a246 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -7,6 +7,7 @@ from tornado.websocket import WebSocketClientConnection, websocket_connect
 
 from malcolm.core import (
     DEFAULT_TIMEOUT,
+    Alarm,
     BlockMeta,
     BlockModel,
     Delta,
@@ -56,6 +57,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         self._request_lookup: Dict[int, Request] = {}
         self._next_id = 1
         self._conn: Optional[WebSocketClientConnection] = None
+        # {mri: block} of the proxies we keep in sync
+        self._proxies: Dict[str, BlockModel] = {}
         # Create read-only attribute for the remotely reachable blocks
         self.remote_blocks = TableMeta.from_table(
             BlockTable, "Remotely reachable blocks"
@@ -69,11 +72,20 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _start_client(self):
         # Called from cothread
         if self._conn is None:
+            # Forget about any previous disconnection
+            self._connected_queue = Queue()
             IOLoopHelper.call(self.recv_loop)
             self._connected_queue.get(timeout=self.connect_timeout)
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
             root_subscribe.set_callback(self._update_remote_blocks)
             IOLoopHelper.call(self._send_request, root_subscribe)
+            # Bring back any proxies we had before we were disconnected
+            done_queues = [
+                self._subscribe_proxy(mri, block)
+                for mri, block in self._proxies.items()
+            ]
+            for done_queue in done_queues:
+                done_queue.get(timeout=DEFAULT_TIMEOUT)
 
     @gen.coroutine
     def recv_loop(self):
@@ -118,10 +130,6 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
 
     def _report_fault(self):
         # Called in cothread thread
-        with self._lock:
-            if self.state.value != self.state_set.DISABLING:
-                self.transition(self.state_set.FAULT, "Server disconnected")
-        self._connected_queue.put(None)
         for id in list(self._request_lookup):
             request = self._request_lookup.pop(id)
             response = Error(
@@ -132,6 +140,14 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             except Exception:
                 # Most things will error here, not really a problem
                 self.log.debug("Callback %s raised", request.callback)
+        with self._lock:
+            if self.state.value not in (
+                self.state_set.DISABLING,
+                self.state_set.DISABLED,
+                self.state_set.FAULT,
+            ):
+                self.transition(self.state_set.FAULT, "Server disconnected")
+        self._connected_queue.put(None)
 
     def _stop_client(self):
         # Called from cothread
@@ -160,22 +176,31 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             mri (str): The mri for the remote block
             block (BlockModel): The local proxy Block to keep in sync
         """
+        self._proxies[mri] = block
+        done_queue = self._subscribe_proxy(mri, block)
+        done_queue.get(timeout=DEFAULT_TIMEOUT)
+
+    def _subscribe_proxy(self, mri: str, block: BlockModel) -> Queue:
         # Send a root Subscribe to the server
         subscribe = Subscribe(path=[mri], delta=True)
         done_queue = Queue()
 
         def handle_response(response):
-            # Called from tornado
-            if not isinstance(response, Delta):
-                # Return or Error is the end of our subscription, log and ignore
+            # Called from cothread
+            if isinstance(response, Delta):
+                self._handle_response(response, block, done_queue)
+            else:
+                # Return or Error is the end of our subscription
                 self.log.debug("Proxy got response %r", response)
+                block.health.set_value(
+                    value="Server disconnected",
+                    alarm=Alarm.disconnected("Server disconnected"),
+                )
                 done_queue.put(None)
-            else:
-                cothread.Callback(self._handle_response, response, block, done_queue)
 
         subscribe.set_callback(handle_response)
         IOLoopHelper.call(self._send_request, subscribe)
-        done_queue.get(timeout=DEFAULT_TIMEOUT)
+        return done_queue
 
     def _handle_response(
         self, response: Response, block: BlockModel, done_queue: Queue
-- 
2.43.0


From 516b8249f62da866c33ad3e9b0754f3110322fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:55 +0000
Subject: [PATCH 41/97] fix: let YAML parameters be called creator or locals,
 or have an infinite default

---
 malcolm/yamlutil.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/malcolm/yamlutil.py b/malcolm/yamlutil.py
index c360d9b..6fd6bda 100644
--- a/malcolm/yamlutil.py
+++ b/malcolm/yamlutil.py
@@ -118,14 +118,19 @@ def creator_with_nice_signature(creator, sections, yamlname, yaml_path, docstrin
         if anno.default is NO_DEFAULT:
             args.append(anno.name)
         else:
-            args.append(f"{anno.name}={anno.default!r}")
+            args.append(f"{anno.name}=_defaults[{anno.name!r}]")
+    kwargs = [f"{anno.name!r}: {anno.name}" for anno in takes]
+    # The names the function uses start with _ so no parameter can hide them
     func = f"""
 def creator_from_yaml({', '.join(args)}):
-    return creator(locals())"""
+    return _creator({{{', '.join(kwargs)}}})"""
+    namespace = dict(
+        _creator=creator, _defaults={anno.name: anno.default for anno in takes}
+    )
     # Copied from decorator pypi module
     code = compile(func, yaml_path, "single")
-    exec(code, locals())
-    ret = locals()["creator_from_yaml"]
+    exec(code, namespace)
+    ret = namespace["creator_from_yaml"]
     ret.return_type = Anno("Any return value", Any, "return")
     ret.call_types = OrderedDict((anno.name, anno) for anno in takes)
     ret.__doc__ = docstring
-- 
2.43.0


From f1244f2416bdd7d6093f85bf45f6a83b19f4592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:20 +0000
Subject: [PATCH 42/97] fix: PandA responses with a character split between two
 packets stopped all communication

---
 malcolm/modules/pandablocks/pandablocksclient.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 14a576a..f7af0b7 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -131,14 +131,15 @@ class PandABlocksClient:
                 log.exception("Exception sending message %s", message)
 
     def _get_lines(self):
-        buf = ""
+        # Only decode whole lines, as a character might be split between two recvs
+        buf = b""
         while True:
-            lines = buf.split("\n")
+            lines = buf.split(b"\n")
             for line in lines[:-1]:
-                yield line
+                yield line.decode("utf-8")
             buf = lines[-1]
             # Get something new from the socket
-            rx = self._socket.recv(4096).decode("utf-8")
+            rx = self._socket.recv(4096)
             if not rx:
                 break
             buf += rx
-- 
2.43.0


From 6507b1504a12d56271b166d73733ac5ab77d1aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:20 +0000
Subject: [PATCH 43/97] fix: a PandA message that can't be encoded made later
 requests get each other's responses

---
 malcolm/modules/pandablocks/pandablocksclient.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index f7af0b7..f289619 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -124,9 +124,15 @@ class PandABlocksClient:
             message, response_queue = self._send_queue.get()
             if message is self.STOP:
                 break
+            try:
+                data = message.encode("utf-8")
+            except Exception as e:  # pylint:disable=broad-except
+                # Nothing sent, so there will be no response to wait for
+                response_queue.put(e)
+                continue
             try:
                 self._response_queues.put(response_queue)
-                self._socket.sendall(message.encode("utf-8"))
+                self._socket.sendall(data)
             except Exception:  # pylint:disable=broad-except
                 log.exception("Exception sending message %s", message)
 
-- 
2.43.0


From 140af2bc7de2ea81587b83180fdda3edef47c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:20 +0000
Subject: [PATCH 44/97] fix: fail outstanding PandA requests when the
 connection is lost rather than time out

---
 .../modules/pandablocks/pandablocksclient.py  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index f289619..69abe43 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -39,6 +39,8 @@ class PandABlocksClient:
         self._is_multiline = None
         # True when we have been started
         self.started = False
+        # True until the connection is closed
+        self._connected = False
         # Filled in on start
         self._socket = None
         self._send_spawned = None
@@ -69,6 +71,7 @@ class PandABlocksClient:
                 "did all services on the PandA start correctly?"
             ) from e
 
+        self._connected = True
         self._send_spawned = spawn(self._send_loop)
         self._recv_spawned = spawn(self._recv_loop)
         self.started = True
@@ -135,6 +138,19 @@ class PandABlocksClient:
                 self._socket.sendall(data)
             except Exception:  # pylint:disable=broad-except
                 log.exception("Exception sending message %s", message)
+                self._connected = False
+            if not self._connected:
+                self._fail_outstanding()
+
+    def _fail_outstanding(self):
+        """Fail any requests that are waiting for a response"""
+        while True:
+            try:
+                response_queue = self._response_queues.get(timeout=0)
+            except Exception:  # pylint:disable=broad-except
+                # No more outstanding requests
+                return
+            response_queue.put(ConnectionError("Connection to PandA lost"))
 
     def _get_lines(self):
         # Only decode whole lines, as a character might be split between two recvs
@@ -159,6 +175,14 @@ class PandABlocksClient:
 
     def _recv_loop(self):
         """Service socket recv, returning responses to the correct queue"""
+        try:
+            self._recv_responses()
+        finally:
+            # No more responses will arrive
+            self._connected = False
+            self._fail_outstanding()
+
+    def _recv_responses(self):
         self._completed_response_lines = []
         self._is_multiline = None
         lines_iterator = self._get_lines()
-- 
2.43.0


From 7bce65619ddc94ef1477bb23cd5075b00bb76cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:13 +0000
Subject: [PATCH 45/97] fix: PandA table fields were truncated or lost their
 sign unless they filled their type

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 9313e6d..0ff0d24 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -115,8 +115,10 @@ class PandATablePart(PandAFieldPart):
             else:
                 # Array, unwrap to get the numpy array
                 column_value = column_value.seq
-            # Left shift the value so it is aligned with the int columns
+            # Left shift the value so it is aligned with the int columns, making it
+            # wide enough first
             _, mask = get_nbits_mask(field_data)
+            column_value = column_value.astype(np.int64)
             shifted_column = (column_value & mask) << field_data.bits_lo % 32
             # Or it with what we currently have
             column_index = get_column_index(field_data)
@@ -146,6 +148,10 @@ class PandATablePart(PandAFieldPart):
             elif nbits == 1:
                 column_value = shifted_column.astype(bool)
             else:
+                if field_data.signed:
+                    # Extend the sign bit of the field
+                    shifted_column = shifted_column.astype(np.int64)
+                    shifted_column -= (shifted_column >> (nbits - 1)) << nbits
                 # View as the correct type
                 dtype = self.meta.elements[column_name].dtype
                 column_value = shifted_column.astype(dtype)
-- 
2.43.0


From 63b98c58ab48f9b93ec20cb8dd221a098765712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:13 +0000
Subject: [PATCH 46/97] fix: PandA table rows whose last field is bit 0 of a
 word were one word short

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 0ff0d24..bb5622a 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -89,7 +89,7 @@ class PandATablePart(PandAFieldPart):
         # Work out how many ints per row
         # TODO: this should be in the block data
         max_bits_hi = max(f.bits_hi for f in self.field_data.values())
-        self.ints_per_row = int((max_bits_hi + 31) / 32)
+        self.ints_per_row = max_bits_hi // 32 + 1
         # Superclass will make the attribute for us
         super().__init__(client, meta, block_name, field_name)
 
-- 
2.43.0


From 522c3de5e810a02b45be11cd2e976893ebf937c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:21 +0000
Subject: [PATCH 47/97] fix: ignore unknown rows when PandA bit capture is set,
 as for positions

---
 malcolm/modules/pandablocks/parts/pandabussespart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandabussespart.py b/malcolm/modules/pandablocks/parts/pandabussespart.py
index cac6063..c01bf8b 100644
--- a/malcolm/modules/pandablocks/parts/pandabussespart.py
+++ b/malcolm/modules/pandablocks/parts/pandabussespart.py
@@ -110,6 +110,9 @@ class PandABussesPart(Part):
             # If capture changed, set PCAP bits
             field_values = {}
             for bit in value.name:
+                if bit not in self._bit_indexes:
+                    # Already warned that we are ignoring it
+                    continue
                 capture = column_changes["capture"][self._bit_indexes[bit]]
                 capture_field = self._bit_pcap_fields[bit]
                 if capture:
-- 
2.43.0


From 9d712a30eb7fe632a9791b43c403559af0691ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:21 +0000
Subject: [PATCH 48/97] fix: reconnect to PandA on reset after the connection
 was lost

---
 .../modules/pandablocks/controllers/pandamanagercontroller.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
index ad480c1..a2aa42a 100644
--- a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
+++ b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
@@ -110,6 +110,8 @@ class PandAManagerController(builtin.controllers.ManagerController):
         self.stop_poll_loop()
 
     def do_reset(self):
+        # We might have lost the connection, so make a new one
+        self.stop_poll_loop()
         self.start_poll_loop()
         super().do_reset()
 
-- 
2.43.0


From 96d4c9218bd813640c1fbe04658162fb14ca5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:21 +0000
Subject: [PATCH 49/97] fix: a manager that failed to initialise had none of
 its parts' fields after a reset

---
 malcolm/modules/builtin/controllers/managercontroller.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 1ce3ca7..f959232 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -153,6 +153,12 @@ class ManagerController(StatefulController):
             # self._update_block_endpoints()
             self.set_default_layout()
 
+    def do_reset(self):
+        if self.saved_visibility is None:
+            # Failed before we got a layout, so we still need to do this
+            self.do_init()
+        super().do_reset()
+
     def set_default_layout(self):
         self.set_layout(LayoutTable([], [], [], [], []))
 
-- 
2.43.0


From b2c73526f4569281ed7456e7280abdbca816781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:11 +0000
Subject: [PATCH 50/97] fix: PandA bus tables could be left showing old
 settings if they changed during a put

---
 .../pandablocks/parts/pandabussespart.py        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandabussespart.py b/malcolm/modules/pandablocks/parts/pandabussespart.py
index c01bf8b..a2c40a0 100644
--- a/malcolm/modules/pandablocks/parts/pandabussespart.py
+++ b/malcolm/modules/pandablocks/parts/pandabussespart.py
@@ -106,6 +106,7 @@ class PandABussesPart(Part):
     def set_bits(self, value: BitsTable) -> None:
         assert self.bits, "No bits"
         column_changes = self.get_column_changes(self.bits.value, value)
+        row_changes = {}
         if "capture" in column_changes:
             # If capture changed, set PCAP bits
             field_values = {}
@@ -113,7 +114,9 @@ class PandABussesPart(Part):
                 if bit not in self._bit_indexes:
                     # Already warned that we are ignoring it
                     continue
-                capture = column_changes["capture"][self._bit_indexes[bit]]
+                index = self._bit_indexes[bit]
+                capture = column_changes["capture"][index]
+                row_changes[index] = capture
                 capture_field = self._bit_pcap_fields[bit]
                 if capture:
                     # If told to capture, this trumps anything it currently
@@ -123,6 +126,11 @@ class PandABussesPart(Part):
                     # If not already set, set it to No
                     field_values.setdefault(capture_field, "No")
             self._client.set_fields(field_values)
+        # The table might have been updated while we were setting, so only change
+        # the rows that we set
+        column_changes.pop("capture", None)
+        for index, capture in row_changes.items():
+            update_column(column_changes, "capture", self.bits.value)[index] = capture
         new_value = make_updated_table(self.bits.value, column_changes)
         self.bits.set_value(new_value)
 
@@ -141,6 +149,13 @@ class PandABussesPart(Part):
                         value = value.value
                     field_values[field] = value
                 self._client.set_fields(field_values)
+                # Update the column now, as later changes to it might arrive while
+                # we are setting the next one
+                new_value = make_updated_table(
+                    self.positions.value, {attr: column_changes.pop(attr)}
+                )
+                self.positions.set_value(new_value)
+        # Any others don't exist in the hardware
         new_value = make_updated_table(self.positions.value, column_changes)
         self.positions.set_value(new_value)
 
-- 
2.43.0


From ea8287e6dd79244366df24184e8b700a0191c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 51/97] fix: a multiple of 4096 equal points in a row made the
 PandA sequencer loop forever

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 55ce577..ded1f0a 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -62,9 +62,13 @@ class SequencerRows:
             MAX_REPEATS, trigger, position, half_duration, live, dead, trim
         )
         self._rows.extend([row] * complete_rows)
-        self._rows.append(
-            self._seq_row(remaining, trigger, position, half_duration, live, dead, trim)
-        )
+        # A row with 0 repeats is a continuous loop, so only add one if asked to
+        if remaining or count == 0:
+            self._rows.append(
+                self._seq_row(
+                    remaining, trigger, position, half_duration, live, dead, trim
+                )
+            )
         self._duration += count * (2 * half_duration - trim)
 
     def split(self, count: int) -> SequencerRows:
-- 
2.43.0


From 924df09e04e8b98d5fd8276b47f6a4fd66b78033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 52/97] fix: PandA sequencer was blind for the turnaround of
 the wrong point after a batch boundary

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 285145c..2cff141 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -244,6 +244,7 @@ class SeqTriggers:
                     # of points finished in the middle of a continuous scan row.
                     # The first point of the current batch is from the previous batch.
                     yield self._create_immediate_rows(points.duration[1:end])
+                    self.last_point = points[end - 1]
 
                 # Remaining scan rows from the current batch of points.
                 for start_i, end_i in zip(start_indices, end_indices):
-- 
2.43.0


From d397ee1a718dae3643d025f7876d78434a7be07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 53/97] fix: PandA sequencer used the delay after the point
 following a turnaround, not before it

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 2cff141..5918f44 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -77,7 +77,7 @@ class SeqTriggers:
         """Return the duration that the given axis is moving in the opposite direction
         from that required for `point`, during the prior turnaround."""
         assert self.min_turnaround, f"{self.name}: no MinTurnaround assigned"
-        min_turnaround = max(self.min_turnaround.time, point.delay_after)
+        min_turnaround = max(self.min_turnaround.time, self.last_point.delay_after)
         time_arrays, velocity_arrays = pmac.util.profile_between_points(
             self.axis_mapping,
             self.last_point,
-- 
2.43.0


From 748da2a1a0a5db9dfca1cf6f6b1535a919393e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 54/97] fix: turnarounds between points of changing velocity
 joined them at the wrong velocities

---
 malcolm/modules/pmac/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index cb7972b..ccb5a44 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -253,8 +253,8 @@ def profile_between_points(
     must equal 'distance'. The class VelocityProfile implements the math
     to achieve this.
     """
-    start_velocities = point_velocities(axis_mapping, point)
-    end_velocities = point_velocities(axis_mapping, next_point, entry=False)
+    start_velocities = point_velocities(axis_mapping, point, entry=False)
+    end_velocities = point_velocities(axis_mapping, next_point)
 
     p = None
     new_min_time = 0
-- 
2.43.0


From ba744df67590ce6a910c57808b205a2fa0c8f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 55/97] fix: sparse trajectories cut the corners of points that
 are not straight lines

---
 malcolm/modules/pmac/parts/pmacchildpart.py |  3 ++-
 malcolm/modules/pmac/util.py                | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 4a0f803..1ba94ec 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -773,7 +773,8 @@ class PmacChildPart(builtin.parts.ChildPart):
         else:
             points = self.generator.get_points(start_index, self.steps_up_to)
 
-        velocities = all_points_same_velocities(points)
+        # As a list, as indexing into that is quicker
+        velocities = all_points_same_velocities(points).tolist()
         joined = all_points_joined(points)
 
         return points, joined, velocities
diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index ccb5a44..71e1d41 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -150,15 +150,18 @@ def and_all_axes(axes: Dict[str, Array[bool]]) -> Array[bool]:
 def all_points_same_velocities(points: Points) -> Array[bool]:
     """return a numpy array of bool where each element is true
     if the corresponding element is points has the same velocity as the
-    next element (for all axes at this point)"""
+    next element (for all axes at this point), throughout both of them"""
     results = {}
+    half_duration = points.duration / 2
     for axis_name in points.upper.keys():
-        velocities = (
-            points.upper[axis_name] - points.lower[axis_name]
-        ) / points.duration
-        v1 = velocities[:-1]
-        v2 = velocities[1:]
-        results[axis_name] = np.isclose(v1, v2)
+        positions = points.positions[axis_name]
+        v_in = (positions - points.lower[axis_name]) / half_duration
+        v_out = (points.upper[axis_name] - positions) / half_duration
+        # Same tolerance as np.isclose(), but without the cost of its checks
+        tolerance = 1e-8 + 1e-5 * np.abs(v_out)
+        linear = np.abs(v_in - v_out) <= tolerance
+        same = np.abs(v_in[1:] - v_out[:-1]) <= tolerance[:-1]
+        results[axis_name] = same & linear[:-1] & linear[1:]
     result = and_all_axes(results)
     # If we have no axes then all velocities are the same
     if result is None:
-- 
2.43.0


From 5f1cf06fc6a0e4767f98dbe45f201f1f5d5ab71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:33 +0000
Subject: [PATCH 56/97] fix: axes with different velocity settle times could
 not do a turnaround together

---
 malcolm/modules/pmac/infos.py | 10 ++++++++--
 malcolm/modules/pmac/util.py  | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/infos.py b/malcolm/modules/pmac/infos.py
index d12e389..d7cc8cc 100644
--- a/malcolm/modules/pmac/infos.py
+++ b/malcolm/modules/pmac/infos.py
@@ -88,7 +88,9 @@ class MotorInfo(Info):
         ramp_distance = (v1 + v2) * ramp_time / 2
         return ramp_distance
 
-    def make_velocity_profile(self, v1, v2, distance, min_time, min_interval=0.002):
+    def make_velocity_profile(
+        self, v1, v2, distance, min_time, min_interval=0.002, settle_time=None
+    ):
         """Calculate PVT points that will perform the move within motor params
 
         Args:
@@ -97,11 +99,15 @@ class MotorInfo(Info):
             distance (float): Relative distance to travel in EGUs
             min_time (float): The minimum time the move should take
             min_interval (float): Minimum time between profile points
+            settle_time (float): How long to stay at v2 before the end of the move,
+                default is the velocity settle time of this motor
 
         Returns:
             VelocityProfile: defining a list of times and velocities
         """
 
+        if settle_time is None:
+            settle_time = self.velocity_settle
         # Create the time and velocity arrays
         p = vp.VelocityProfile(
             v1,
@@ -110,7 +116,7 @@ class MotorInfo(Info):
             min_time,
             self.acceleration,
             self.max_velocity,
-            self.velocity_settle,
+            settle_time,
             min_interval,
         )
         p.get_profile()
diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index 71e1d41..5df3c67 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -228,6 +228,7 @@ def profile_between_points(
     next_point: Point,
     min_time: float = MIN_TIME,
     min_interval: float = MIN_INTERVAL,
+    settle_time: float = None,
 ):
     """Make consistent time and velocity arrays for each axis
 
@@ -260,6 +261,7 @@ def profile_between_points(
     end_velocities = point_velocities(axis_mapping, next_point)
 
     p = None
+    orig_min_time = min_time
     new_min_time = 0
     time_arrays = {}
     velocity_arrays = {}
@@ -279,6 +281,7 @@ def profile_between_points(
                 distance,
                 min_time,
                 min_interval,
+                settle_time,
             )
             # Absolute time values that we are at that velocity
             profiles[axis_name] = p
@@ -291,6 +294,21 @@ def profile_between_points(
             for axis_name, _ in axis_mapping.items():
                 if quantize:
                     profiles[axis_name].quantize()
+            totals = [profile.t_total for profile in profiles.values()]
+            if not np.allclose(totals, totals[:1], rtol=0):
+                if settle_time is not None:
+                    break
+                # The settle times are not quantized, so if axes have different ones
+                # they might not finish together. Use the longest for all of them
+                return profile_between_points(
+                    axis_mapping,
+                    point,
+                    next_point,
+                    orig_min_time,
+                    min_interval,
+                    max(info.velocity_settle for info in axis_mapping.values()),
+                )
+            for axis_name in axis_mapping:
                 time_arrays[axis_name], velocity_arrays[axis_name] = profiles[
                     axis_name
                 ].make_arrays()
-- 
2.43.0


From 0e9d286ea827373041de6b50d71a4bae650e65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:39 +0000
Subject: [PATCH 57/97] fix: the guess of a scan duration ignored axes that
 move in the negative direction

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 1ba94ec..c9486bb 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -278,7 +278,7 @@ class PmacChildPart(builtin.parts.ChildPart):
         duration = 0.0
         for axis_name, motor_info in axis_mapping.items():
             # Distance between two points
-            distance = (
+            distance = abs(
                 second_point.positions[axis_name] - first_point.positions[axis_name]
             )
             # So calculate time taken between two points based on max velocity
-- 
2.43.0


From 3fb82ad3b2a2389b079a03612b774986fffb881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:52 +0000
Subject: [PATCH 58/97] fix: long rows of a sparse trajectory could run out of
 points before more were sent

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index c9486bb..4fc4107 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -446,11 +446,13 @@ class PmacChildPart(builtin.parts.ChildPart):
             if self.output_triggers == scanning.infos.MotionTrigger.EVERY_POINT:
                 completed_steps = self.completed_steps_lookup[scanned - 1]
                 self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
-            # Keep PROFILE_POINTS trajectory points in front
+            # Keep PROFILE_POINTS trajectory points in front, not counting those
+            # that we have worked out but not sent yet
+            unsent = len(self.profile["timeArray"])
             if (
                 not self.loading
                 and self.end_index < self.steps_up_to
-                and len(self.completed_steps_lookup) - scanned < PROFILE_POINTS
+                and len(self.completed_steps_lookup) - unsent - scanned < PROFILE_POINTS
             ):
                 self.loading = True
                 self.calculate_generator_profile(self.end_index)
-- 
2.43.0


From b12d83d6e5a2e607ce86143d1ffaa54b71feaff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:02 +0000
Subject: [PATCH 59/97] fix: turnarounds with a stage of no length sent
 infinite positions to the motors

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 4fc4107..1a025f4 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -553,6 +553,18 @@ class PmacChildPart(builtin.parts.ChildPart):
         # Every axis profile must have a point for each of the times from
         # all axes combined
 
+        # drop the parts of the profile of each axis that take no time
+        for axis_name in self.axis_mapping:
+            times, velocities = [], []
+            for t, v in zip(time_arrays[axis_name], velocity_arrays[axis_name]):
+                if times and np.isclose(t, times[-1], rtol=0):
+                    velocities[-1] = v
+                else:
+                    times.append(t)
+                    velocities.append(v)
+            time_arrays[axis_name] = times
+            velocity_arrays[axis_name] = velocities
+
         # extract the time points from all axes
         t_list = []
         for time_array in time_arrays.values():
@@ -592,7 +604,7 @@ class PmacChildPart(builtin.parts.ChildPart):
                 axis_prev_velocity = axis_velocities[axis_pt - 1]
                 axis_interval = axis_times[axis_pt] - axis_times[axis_pt - 1]
 
-                if np.isclose(combined_times[i], axis_times[axis_pt]):
+                if np.isclose(combined_times[i], axis_times[axis_pt], rtol=0):
                     # this combined point matches the axis point
                     # use the axis velocity and move to the next axis point
                     this_velocity = axis_velocities[axis_pt]
-- 
2.43.0


From 664c85c26632b5b402080ac5fa1d202a8c60d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:31 +0000
Subject: [PATCH 60/97] fix: points still being appended when a scan was paused
 mixed with those of the seek

---
 .../modules/pmac/parts/pmactrajectorypart.py  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmactrajectorypart.py b/malcolm/modules/pmac/parts/pmactrajectorypart.py
index acf5581..0af056f 100644
--- a/malcolm/modules/pmac/parts/pmactrajectorypart.py
+++ b/malcolm/modules/pmac/parts/pmactrajectorypart.py
@@ -9,6 +9,7 @@ from malcolm.core import (
     IncompatibleError,
     NumberMeta,
     PartRegistrar,
+    RLock,
     Widget,
 )
 from malcolm.modules import builtin
@@ -70,6 +71,9 @@ class PmacTrajectoryPart(builtin.parts.ChildPart):
         super().__init__(name, mri, initial_visibility=True)
         # The total number of points we have written
         self.total_points = 0
+        # Only one profile can be written at a time, an append that is still in
+        # progress when its scan is aborted must not mix with the next build
+        self._write_lock = RLock()
         self.points_scanned = NumberMeta(
             "int32", "The number of points scanned", tags=[Widget.METER.tag()]
         ).create_attribute_model(0)
@@ -109,6 +113,19 @@ class PmacTrajectoryPart(builtin.parts.ChildPart):
         y: ADemandTrajectory = None,
         z: ADemandTrajectory = None,
     ) -> None:
+        with self._write_lock:
+            self._write_profile(
+                context,
+                timeArray,
+                csPort,
+                velocityMode,
+                userPrograms,
+                dict(a=a, b=b, c=c, u=u, v=v, w=w, x=x, y=y, z=z),
+            )
+
+    def _write_profile(
+        self, context, timeArray, csPort, velocityMode, userPrograms, demands
+    ):
         child = context.block_view(self.mri)
 
         # make sure a matching trajectory program is installed on the pmac
@@ -129,7 +146,7 @@ class PmacTrajectoryPart(builtin.parts.ChildPart):
         # The axes taking part in the scan
         use_axes = []
         for axis in CS_AXIS_NAMES:
-            if locals()[axis.lower()] is not None:
+            if demands[axis.lower()] is not None:
                 use_axes.append(axis)
         if csPort is not None:
             # This is a build
@@ -159,7 +176,7 @@ class PmacTrajectoryPart(builtin.parts.ChildPart):
             userPrograms=_zeros_or_right_length(userPrograms, num_points),
         )
         for axis in use_axes:
-            demand = locals()[axis.lower()]
+            demand = demands[axis.lower()]
             attribute_values[f"positions{axis}"] = demand
         child.put_attribute_values(attribute_values)
         # Write the profile
-- 
2.43.0


From 504a42dae016a480c1dd1ebabe4b748246319e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 61/97] fix: split PandA sequencer tables after a row that is
 long enough to make up for the switch

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index ded1f0a..1c139fa 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -79,6 +79,14 @@ class SequencerRows:
 
         assert len(self._rows) > 0, "Zero length seq rows should never be split"
 
+        if len(self._rows) >= count and self._rows[count - 1].repeats != 0:
+            # The table switch delay can only be subtracted from a row that is longer
+            # than it is, so split after the last one that is
+            for i in reversed(range(count)):
+                if self._rows[i].time2 > SEQ_TABLE_SWITCH_DELAY:
+                    count = i + 1
+                    break
+
         if len(self._rows) >= count:
             final_row = self._rows[count - 1]
             if final_row.repeats == 0:  # Final row in continuous loop
-- 
2.43.0


From c9f989fa4b84b1b9c020dd684952bb0c2c96dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 62/97] fix: position compare was not blind for the whole of
 the way back of a loop back turnaround

---
 .../ADPandABlocks/parts/pandaseqtriggerpart.py  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 5918f44..3f4bfe1 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -91,8 +91,12 @@ class SeqTriggers:
 
         # Work backwards through the velocity array until we are going the
         # opposite way
-        i = 0
+        to_go = 0.0
         for i, v in reversed(list(enumerate(velocity_array))):
+            if i < len(velocity_array) - 1:
+                # How far there is to go before the next point, in counts
+                interval = time_array[i + 1] - time_array[i]
+                to_go += (v + velocity_array[i + 1]) / 2 * interval / info.resolution
             # Divide v by resolution so it is in counts
             v /= info.resolution
             if (increasing and v <= 0) or (not increasing and v >= 0):
@@ -101,9 +105,14 @@ class SeqTriggers:
                 assert (
                     i < len(velocity_array) - 1
                 ), f"Last point of {velocity_array} is wrong direction"
-                break
-        blind = time_array[i]
-        return blind
+                blind = time_array[i]
+                if to_go <= 1 if increasing else to_go >= -1:
+                    # It has still to go back past the compare point, so we should
+                    # be blind until it turns round
+                    v_next = velocity_array[i + 1] / info.resolution
+                    blind += interval * v / (v - v_next)
+                return blind
+        return time_array[0]
 
     @staticmethod
     def _get_row_indices(points: Points) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From e7a0884208baace4a3c746c8669f271913d80246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 63/97] fix: frames and turnarounds too long for the PandA
 sequencer were shortened without an error

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 1c139fa..79a6dcb 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -16,6 +16,9 @@ TICK: float = 8e-9
 # How long is the smallest pulse that will travel across TTL
 MIN_PULSE: int = 1250  # ticks = 10us
 
+# Maximum time that fits in one phase of a row
+MAX_TIME: int = 2 ** 32 - 1  # ticks
+
 # Maximum repeats of a single row
 MAX_REPEATS: int = 4096
 
@@ -55,6 +58,9 @@ class SequencerRows:
         trim=0,
     ) -> None:
         """Add a sequencer row with the given settings."""
+        assert (
+            half_duration <= MAX_TIME
+        ), f"Sequencer row of {2 * half_duration * TICK}s is too long"
         complete_rows = count // MAX_REPEATS
         remaining = count % MAX_REPEATS
 
-- 
2.43.0


From cf5b406910697bb0c9faea30c98df8cc95159ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 64/97] fix: position compare did not wait for axes that the
 PandA can't see to turn round

---
 .../modules/ADPandABlocks/parts/pandaseqtriggerpart.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 3f4bfe1..151515d 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -36,11 +36,16 @@ class SeqTriggers:
         axis_mapping: Dict[str, pmac.infos.MotorInfo],
         trigger_enums: Dict[Tuple[str, bool], str],
         min_turnaround: float,
+        motion_axis_mapping: Dict[str, pmac.infos.MotorInfo] = None,
     ) -> None:
         self.generator: CompoundGenerator = generator
         self.axis_mapping: Dict[str, pmac.infos.MotorInfo] = axis_mapping
         self.trigger_enums: Dict[Tuple[str, bool], str] = trigger_enums
         self.min_turnaround: float = min_turnaround
+        # All the axes that move in a turnaround, including those we can't see
+        self.motion_axis_mapping: Dict[str, pmac.infos.MotorInfo] = (
+            motion_axis_mapping or axis_mapping
+        )
         self.last_point: Point = None
 
     @staticmethod
@@ -79,7 +84,7 @@ class SeqTriggers:
         assert self.min_turnaround, f"{self.name}: no MinTurnaround assigned"
         min_turnaround = max(self.min_turnaround.time, self.last_point.delay_after)
         time_arrays, velocity_arrays = pmac.util.profile_between_points(
-            self.axis_mapping,
+            self.motion_axis_mapping,
             self.last_point,
             point,
             min_turnaround,
@@ -464,6 +469,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
         motion_axes = pmac.util.get_motion_axes(generator, axesToMove)
         self.axis_mapping = {}
         self.trigger_enums = {}
+        axis_mapping = {}
 
         if motion_axes:
             # Need to fill in the axis mapping
@@ -492,6 +498,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
             self.axis_mapping,
             self.trigger_enums,
             self.min_turnaround,
+            axis_mapping,
         )
 
         rows_gen = seq_triggers.get_rows(self.loaded_up_to, self.scan_up_to)
-- 
2.43.0


From 63453d329b9c2a7f020aadcb9cf424c5f826981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 65/97] fix: a Block with a colon in its mri could not be a
 child of a Manager

---
 malcolm/core/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/tags.py b/malcolm/core/tags.py
index eaeb961..87f8f46 100644
--- a/malcolm/core/tags.py
+++ b/malcolm/core/tags.py
@@ -40,7 +40,7 @@ class Widget(Enum):
         return f"widget:{self.value}"
 
 
-port_tag_re = re.compile(r"(source|sink)Port:(.*):(.*)")
+port_tag_re = re.compile(r"(source|sink)Port:([^:]*):(.*)")
 
 
 class Port(Enum):
-- 
2.43.0


From 325af2bfe43ac44beab63116623c798d75bd803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 66/97] fix: path prefix was also replaced in the middle of
 paths given to Windows detectors

---
 malcolm/modules/ADCore/infos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADCore/infos.py b/malcolm/modules/ADCore/infos.py
index 63a4cb7..44a33c9 100644
--- a/malcolm/modules/ADCore/infos.py
+++ b/malcolm/modules/ADCore/infos.py
@@ -40,10 +40,11 @@ class FilePathTranslatorInfo(Info):
             win_path = filepath.replace(
                 translator.path_prefix,
                 translator.network_prefix + translator.path_prefix,
+                1,
             ).replace("/", "\\")
         else:
             win_path = filepath.replace(
-                translator.path_prefix, translator.windows_drive_letter + ":"
+                translator.path_prefix, translator.windows_drive_letter + ":", 1
             ).replace("/", "\\")
         return win_path
 
-- 
2.43.0


From df8a687558a9e055c4a6728f417946c601259c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 67/97] fix: file of demand positions was written to the
 Windows path when the file writer is on Windows

---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 3f6f810..13942a5 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -592,9 +592,8 @@ class HDFWriterPart(builtin.parts.ChildPart):
         # Check XML
         set_path = "/entry/%s_set"
         if self.remove_demand_positions_from_xml.value is not False:
-            self._hdf = _write_additional_hdf(
-                filename, generator, h5_file_dir, set_path
-            )
+            # We write this one, so it needs the path as seen from here
+            self._hdf = _write_additional_hdf(filename, generator, file_dir, set_path)
         self._check_xml_is_valid(child)
         # Return the dataset information
         dataset_infos = list(
-- 
2.43.0


From a4ddcb42b227cb180f268629467452aa54f82d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 68/97] fix: exposure asked for was forgotten when setting a
 detector up for the next part of a scan

---
 malcolm/modules/ADCore/parts/detectordriverpart.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADCore/parts/detectordriverpart.py b/malcolm/modules/ADCore/parts/detectordriverpart.py
index 71d9ffd..ef01fcb 100644
--- a/malcolm/modules/ADCore/parts/detectordriverpart.py
+++ b/malcolm/modules/ADCore/parts/detectordriverpart.py
@@ -242,7 +242,11 @@ class DetectorDriverPart(builtin.parts.ChildPart):
             self.configure_args_with_exposure,
         )
         registrar.hook(scanning.hooks.RunHook, self.on_run)
-        registrar.hook(scanning.hooks.PostRunArmedHook, self.on_post_run_armed)
+        registrar.hook(
+            scanning.hooks.PostRunArmedHook,
+            self.on_post_run_armed,
+            self.post_run_armed_args_with_exposure,
+        )
         registrar.hook(
             (scanning.hooks.PauseHook, scanning.hooks.AbortHook), self.on_abort
         )
@@ -331,6 +335,12 @@ class DetectorDriverPart(builtin.parts.ChildPart):
             need_keys.append("exposure")
         return need_keys
 
+    def post_run_armed_args_with_exposure(self, keys):
+        need_keys = list(self.on_post_run_armed.call_types)
+        if "exposure" in keys:
+            need_keys.append("exposure")
+        return need_keys
+
     # Allow CamelCase as fileDir parameter will be serialized
     # noinspection PyPep8Naming
     @add_call_types
@@ -463,6 +473,7 @@ class DetectorDriverPart(builtin.parts.ChildPart):
         part_info: scanning.hooks.APartInfo,
         generator: scanning.hooks.AGenerator,
         breakpoints: scanning.controllers.ABreakpoints = None,
+        **kwargs: Any,
     ) -> None:
         # We may need to set up the detector again based on two conditions:
         #   - breakpoints can be an uneven number of steps
@@ -477,6 +488,7 @@ class DetectorDriverPart(builtin.parts.ChildPart):
                 generator.duration,
                 part_info,
                 initial_configure=False,
+                **kwargs,
             )
             if self.is_hardware_triggered:
                 # We can now re-arm hardware-triggered detectors
-- 
2.43.0


From 910920946d8ee8cd0b5d7b1798ee38d44605f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 69/97] fix: breakpoints were not multiplied up for detectors
 taking several frames per step

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index aae91a2..6c16d3a 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -293,6 +293,9 @@ class DetectorChildPart(builtin.parts.ChildPart):
             # Divide it down
             serialized["duration"] = float(serialized["duration"]) / frames
             generator = CompoundGenerator.from_dict(serialized)
+            # Breakpoints are in steps of the scan, so multiply them up too
+            if breakpoints is not None:
+                breakpoints = [steps * frames for steps in breakpoints]
         kwargs = dict(
             generator=generator,
             axesToMove=axes_to_move,
-- 
2.43.0


From fcfbb5b64eb792a57b039dec12d30169f8e6dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 70/97] fix: seeking took detectors with several frames per
 step to the wrong frame

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 6c16d3a..69f7a88 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -391,7 +391,7 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
-        child.pause(lastGoodStep=completed_steps)
+        child.pause(lastGoodStep=completed_steps * self.frames_per_step)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From 400ce95b8215d9aa5658fa4cc7b0bccdc63b9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 71/97] fix: pausing while a detector was finishing its part of
 the run put the scan in Fault

---
 .../scanning/parts/detectorchildpart.py       | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 69f7a88..875a2b7 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -7,7 +7,15 @@ from scanpointgenerator import (
     StaticPointGenerator,
 )
 
-from malcolm.core import APartName, BadValueError, Future, Put, Request
+from malcolm.core import (
+    DEFAULT_TIMEOUT,
+    APartName,
+    BadValueError,
+    Future,
+    NotWriteableError,
+    Put,
+    Request,
+)
 from malcolm.modules import builtin
 
 from ..hooks import (
@@ -48,6 +56,10 @@ AInitialVisibility = builtin.parts.AInitialVisibility
 ss = RunnableStates
 
 
+def not_post_run(state: str) -> bool:
+    return state != ss.POSTRUN
+
+
 class DetectorChildPart(builtin.parts.ChildPart):
     """Part controlling a child detector Block that exposes a configure/run
     interface with fileDir and fileTemplate"""
@@ -391,7 +403,13 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
-        child.pause(lastGoodStep=completed_steps * self.frames_per_step)
+        last_good_step = completed_steps * self.frames_per_step
+        try:
+            child.pause(lastGoodStep=last_good_step)
+        except NotWriteableError:
+            # It has just finished this run, let it do so before seeking
+            child.when_value_matches("state", not_post_run, timeout=DEFAULT_TIMEOUT)
+            child.pause(lastGoodStep=last_good_step)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From b44ab7daf7e0df9695849cd4140f40547ec556da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:24 +0000
Subject: [PATCH 72/97] fix: waveform tables kept the worst severity they had
 ever had and did not show disconnects

---
 malcolm/modules/ca/util.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b5c0bc8..c20d43d 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -156,11 +156,7 @@ class CABase(Loggable):
         now = time.time()
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
-            value_key = self.name_list[value_index]
-            self._local_value[value_key] = value
-            self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
-            self._local_value.ok = self._local_value.ok or value.ok
-            self._local_value.severity = max(self._local_value.severity, value.severity)
+            self._local_value.set_column(self.name_list[value_index], value)
             self._update_value(self._local_value)
         else:
             self._update_value(value)
@@ -274,10 +270,29 @@ class CAAttribute(CABase):
 
 
 class CATable(dict):
-    ok = True
-    severity = 0
     raw_stamp = (None, None)
 
+    def __init__(self):
+        super().__init__()
+        # The state of each of the PVs
+        self._ok = {}
+        self._severity = {}
+
+    @property
+    def ok(self):
+        return all(self._ok.values())
+
+    @property
+    def severity(self):
+        return max(self._severity.values(), default=0)
+
+    def set_column(self, name, value):
+        self._ok[name] = value.ok
+        if value.ok:
+            self[name] = value
+            self._severity[name] = value.severity
+            self.raw_stamp = getattr(value, "raw_stamp", (None, None))
+
 
 class WaveformTableAttribute(CABase):
     def __init__(
@@ -347,9 +362,7 @@ class WaveformTableAttribute(CABase):
         for ind, value in enumerate(ca_values):
             if self.on_connect:
                 self.on_connect(value)
-            self._local_value[self.name_list[ind]] = value
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._local_value.ok = self._local_value.ok or value.ok
+            self._local_value.set_column(self.name_list[ind], value)
         self._update_value(self._local_value)
         # now setup monitors for all the things
         self.monitor = catools.camonitor(
-- 
2.43.0


From a5f168d07dc1d7f9e0a1f6e29846bf137b7d4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:24 +0000
Subject: [PATCH 73/97] fix: waveform tables stopped updating when the number
 of points changed

---
 malcolm/modules/ca/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index c20d43d..9e6b266 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -345,6 +345,12 @@ class WaveformTableAttribute(CABase):
         self._update_after = 0
         self.limits_from_pv = limits_from_pv
 
+    def _update_value(self, value):
+        if value.ok and len({len(column) for column in value.values()}) > 1:
+            # The PVs update one at a time, so wait for the other columns
+            return
+        super()._update_value(value)
+
     def reconnect(self):
         # release old monitor
         self.disconnect()
-- 
2.43.0


From d5504f57a79ea1055ce2c25de0b2e74257dd909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:24 +0000
Subject: [PATCH 74/97] fix: blocks with optional PVs that were not there went
 into Fault if they have display limits

---
 malcolm/modules/ca/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index 9e6b266..da8b2ee 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -238,7 +238,7 @@ class CAAttribute(CABase):
             self.throw,
         )
 
-        if self.on_connect:
+        if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
         self._update_value(ca_values[0])
         # now setup monitor on rbv
-- 
2.43.0


From 99933084e269f5d09acffe6499c5dc260f91068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:24 +0000
Subject: [PATCH 75/97] fix: choices stopped updating after their PV had a
 value without a name

---
 malcolm/modules/ca/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index da8b2ee..aad3494 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -157,9 +157,15 @@ class CABase(Loggable):
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
             self._local_value.set_column(self.name_list[value_index], value)
-            self._update_value(self._local_value)
-        else:
+            value = self._local_value
+        try:
             self._update_value(value)
+        except ValueError:
+            # If this was raised the monitor would be closed
+            self.log.exception(f"Can't update value to {value!r}")
+            self.attr.set_value(
+                self.attr.value, alarm=Alarm.invalid(f"Bad PV value {value!r}")
+            )
         # See how long to sleep for to make sure we don't get more than one
         # update at < min_delta interval
         if delta > self.min_delta:
-- 
2.43.0


From 25237578ced8e524d361d9be0c837f790aabfdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 76/97] fix: actions hidden because their PVs were not there
 stayed hidden once they were

---
 malcolm/modules/ca/parts/caactionpart.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/ca/parts/caactionpart.py b/malcolm/modules/ca/parts/caactionpart.py
index fb7b2ac..22ad5f7 100644
--- a/malcolm/modules/ca/parts/caactionpart.py
+++ b/malcolm/modules/ca/parts/caactionpart.py
@@ -81,6 +81,7 @@ class CAActionPart(Part):
             pvs.append(self.message_pv)
         ca_values = util.catools.caget(pvs, throw=self.throw)
         # check connection is ok
+        hidden = []
         try:
             for v in ca_values:
                 if not isinstance(v, util.catools.ca_nothing):
@@ -90,10 +91,11 @@ class CAActionPart(Part):
         except AssertionError as e:
             if self.throw:
                 raise e
-            else:
-                self.method.meta.set_tags(
-                    list(self.method.meta.tags) + [tags.method_hidden()]
-                )
+            hidden.append(tags.method_hidden())
+        if not self.throw:
+            # It might have been hidden last time
+            new_tags = [t for t in self.method.meta.tags if t != tags.method_hidden()]
+            self.method.meta.set_tags(new_tags + hidden)
 
     def wait_for_good_status(self, deadline):
         q = Queue()
-- 
2.43.0


From 3dcad846d65c5842a1499e965f5f00dc21cf5aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 77/97] fix: motors assigned to no CS failed to connect unless
 the name of that choice was empty

---
 .../pmac/parts/rawmotorsinkportspart.py       | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
index b3ccdc0..f613b71 100644
--- a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
+++ b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
@@ -75,7 +75,7 @@ class RawMotorSinkPortsPart(Part):
             for axis in CS_AXIS_NAMES + ["I"]:
                 choices.append(f"{choice},{axis}")
         self.cs_attr.meta.set_choices(choices)
-        self.port = self.port_choices[ca_values[2]]
+        self._update_port(ca_values[2])
         self._update_value(ca_values[3], 1)
         self._update_value(ca_values[4], 2)
         # Setup monitor on rbvs
@@ -91,15 +91,19 @@ class RawMotorSinkPortsPart(Part):
             monitor.close()
         self.monitors = []
 
+    def _update_port(self, value):
+        if not value.ok:
+            self.port = None
+        elif value == 0:
+            # The first choice is not a port
+            self.port = ""
+        else:
+            self.port = self.port_choices[value]
+
     def _update_value(self, value, index):
         if index == 0:
             # Got CS Port
-            if not value.ok:
-                self.port = None
-            elif value == 0:
-                self.port = ""
-            else:
-                self.port = self.port_choices[value]
+            self._update_port(value)
         elif index == 1:
             # Got CS Axis
             if value.ok and str(value) in CS_AXIS_NAMES + ["I"]:
@@ -136,5 +140,5 @@ class RawMotorSinkPortsPart(Part):
         ca.util.catools.caput(self.pvs, (port_index, axis), wait=True)
         # now do a caget
         values = ca.util.catools.caget(self.rbvs, format=ca.util.catools.FORMAT_TIME)
-        self.port = self.port_choices[values[0]]
+        self._update_port(values[0])
         self._update_value(values[1], 1)
-- 
2.43.0


From 267985564f608209a975570b757bd99f311c3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 78/97] fix: taking a motor out of its CS left an invalid alarm

---
 malcolm/modules/pmac/parts/rawmotorsinkportspart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
index f613b71..cee2863 100644
--- a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
+++ b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
@@ -106,7 +106,7 @@ class RawMotorSinkPortsPart(Part):
             self._update_port(value)
         elif index == 1:
             # Got CS Axis
-            if value.ok and str(value) in CS_AXIS_NAMES + ["I"]:
+            if value.ok and str(value) in CS_AXIS_NAMES + ["I", ""]:
                 self.axis = value
             else:
                 self.axis = None
-- 
2.43.0


From c7292d2ce26ec538051bc85165759156ebe220a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 79/97] fix: an IOC that had stopped was shown as running again
 when procServ's status changed

---
 malcolm/modules/system/parts/dirparsepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/system/parts/dirparsepart.py b/malcolm/modules/system/parts/dirparsepart.py
index 40c44a4..2f1cca7 100644
--- a/malcolm/modules/system/parts/dirparsepart.py
+++ b/malcolm/modules/system/parts/dirparsepart.py
@@ -109,8 +109,8 @@ class DirParsePart(Part):
             self.version_updated(self.dls_version)
 
     def version_updated(self, value):
+        self.dls_version = value
         if value is not None and value.ok:
-            self.dls_version = value
             if isinstance(value, str):
                 if value.lower() == "work" or value.lower() == "other":
                     message = "IOC running from non-prod area"
-- 
2.43.0


From a2e065f6951420e91153e2f76eb79b13e3cc6dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 80/97] fix: procServ was still said to be there after it had
 gone

---
 malcolm/modules/system/parts/dirparsepart.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/system/parts/dirparsepart.py b/malcolm/modules/system/parts/dirparsepart.py
index 2f1cca7..461a2ed 100644
--- a/malcolm/modules/system/parts/dirparsepart.py
+++ b/malcolm/modules/system/parts/dirparsepart.py
@@ -104,9 +104,8 @@ class DirParsePart(Part):
         self.autosave_status_pv.disconnect()
 
     def set_procserv_state(self, value):
-        if value.ok:
-            self.has_procserv = True
-            self.version_updated(self.dls_version)
+        self.has_procserv = value.ok
+        self.version_updated(self.dls_version)
 
     def version_updated(self, value):
         self.dls_version = value
-- 
2.43.0


From 959d9692f69e0dd0af3cc008ec0d54824bec33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:35 +0000
Subject: [PATCH 81/97] fix: share out frames between Odin and Xspress3 files
 in whole blocks

Unless the number of frames was a multiple of the frames in one block of every
file, configure failed as the shapes of the files added up to more than the scan
---
 malcolm/modules/ADOdin/parts/odinwriterpart.py      | 2 +-
 malcolm/modules/xspress3/parts/xspresswriterpart.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index 807c516..b967952 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -95,7 +95,7 @@ def create_raw_dataset_infos(
 
 def files_shape(frames, block_size, file_count):
     # all files get at least per_file blocks
-    per_file = int(frames) / int(file_count * block_size)
+    per_file = int(frames) // int(file_count * block_size)
     # this is the remainder once per_file blocks have been distributed
     remainder = int(frames) % int(file_count * block_size)
 
diff --git a/malcolm/modules/xspress3/parts/xspresswriterpart.py b/malcolm/modules/xspress3/parts/xspresswriterpart.py
index 8403440..3f55139 100644
--- a/malcolm/modules/xspress3/parts/xspresswriterpart.py
+++ b/malcolm/modules/xspress3/parts/xspresswriterpart.py
@@ -109,7 +109,7 @@ def create_raw_dataset_infos(
 
 def files_shape(frames, block_size, file_count):
     # all files get at least per_file blocks
-    per_file = int(frames) / int(file_count * block_size)
+    per_file = int(frames) // int(file_count * block_size)
     # this is the remainder once per_file blocks have been distributed
     remainder = int(frames) % int(file_count * block_size)
 
-- 
2.43.0


From 8a5839cdb7d760266c653522e64ee1506716270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:35 +0000
Subject: [PATCH 82/97] fix: only report raw datasets of Odin files that exist

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index b967952..4bb416e 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -73,7 +73,7 @@ def create_dataset_infos(
 def create_raw_dataset_infos(
     name: str, rank: int, filename: str, n_raw: int
 ) -> Iterator[Info]:
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.raw{i+1}",
             filename=filename,
@@ -82,7 +82,7 @@ def create_raw_dataset_infos(
             path="/raw" + str(i + 1),
             uniqueid="",
         )
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.uid{i+1}",
             filename=filename,
-- 
2.43.0


From 5aaac6be10deb94c6b78a21b850965db748a6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 83/97] fix: link to the unique ids of Odin files by their
 configured name

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index 4bb416e..e56b82f 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -200,7 +200,7 @@ def create_vds(generator, raw_name, vds_path, child, uid_name, sum_name):
         count = 1
         for f in files:
             vds["raw" + str(count)] = h5py.ExternalLink(f, "/data")
-            vds["uid" + str(count)] = h5py.ExternalLink(f, "/uid")
+            vds["uid" + str(count)] = h5py.ExternalLink(f, "/" + uid_name)
             count += 1
 
     shape = (hdf_shape, 1, 1)
-- 
2.43.0


From f4f7b5296259d84442035667554647eb720cc81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 84/97] fix: report steps of Xspress3 writers, not frames of
 all of them

Every pair captures each frame, so completedSteps ran num_pairs times too fast
---
 malcolm/modules/xspress3/parts/xspresswriterpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/xspress3/parts/xspresswriterpart.py b/malcolm/modules/xspress3/parts/xspresswriterpart.py
index 3f55139..f441c90 100644
--- a/malcolm/modules/xspress3/parts/xspresswriterpart.py
+++ b/malcolm/modules/xspress3/parts/xspresswriterpart.py
@@ -488,6 +488,6 @@ class XspressWriterPart(builtin.parts.ChildPart):
         child.stop()
 
     def update_completed_steps(self, value: int) -> None:
-        completed_steps = value + self.unique_id_offset
+        completed_steps = value // self.num_pairs + self.unique_id_offset
         assert self.registrar, "No registrar"
         self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
-- 
2.43.0


From cc5042cc12f21474ae12a4454606cd7ea9fecde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 85/97] fix: abort on a scan runner stops the scans that are
 still to come

The stop was taken for the outcome of the current scan, so the next scans
of the file were run and the runner ended Finished.
---
 .../modules/scanning/parts/scanrunnerpart.py  | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/malcolm/modules/scanning/parts/scanrunnerpart.py b/malcolm/modules/scanning/parts/scanrunnerpart.py
index e8b068c..117dbb2 100644
--- a/malcolm/modules/scanning/parts/scanrunnerpart.py
+++ b/malcolm/modules/scanning/parts/scanrunnerpart.py
@@ -74,6 +74,8 @@ class ScanRunnerPart(ChildPart):
         self.runner_config = None
         self.context: Optional[AContext] = None
         self.scan_sets: Dict[str, Scan] = {}
+        # Set by abort(), so that no more scans are started
+        self.aborted = False
 
         self.runner_state = StringMeta(
             "Runner state", tags=Widget.TEXTUPDATE.tag()
@@ -260,13 +262,21 @@ class ScanRunnerPart(ChildPart):
     @add_call_types
     def abort(self, context: AContext) -> None:
         if self.context:
+            # Don't start any more scans
+            self.aborted = True
             # Stop the context
             self.context.stop()
-            # Stop the current scan
-            context.block_view(self.mri).abort()
-            # Update status
-            self.set_runner_state(RunnerStates.ABORTED)
-            self.runner_status_message.set_value("Aborted scans")
+            try:
+                # Stop the current scan
+                context.block_view(self.mri).abort()
+            finally:
+                # Update status
+                self.set_runner_state(RunnerStates.ABORTED)
+                self.runner_status_message.set_value("Aborted scans")
+
+    def check_not_aborted(self) -> None:
+        if self.aborted:
+            raise AbortedError("Scans were aborted")
 
     @add_call_types
     def run(self, context: AContext) -> None:
@@ -291,6 +301,7 @@ class ScanRunnerPart(ChildPart):
         self.set_runner_state(RunnerStates.RUNNING)
 
         # Get our scan block and store context
+        self.aborted = False
         self.context = context
         scan_block = self.context.block_view(self.mri)
 
@@ -299,6 +310,7 @@ class ScanRunnerPart(ChildPart):
             self.run_scan_set(
                 self.scan_sets[key], scan_block, sub_directory, report_filepath
             )
+        self.check_not_aborted()
 
         self.set_runner_state(RunnerStates.FINISHED)
         self.current_scan_set.set_value("")
@@ -324,6 +336,7 @@ class ScanRunnerPart(ChildPart):
 
         # Run each scan
         for scan_number in range(1, scan_set.repeats + 1):
+            self.check_not_aborted()
             self.run_scan(
                 scan_set.name,
                 scan_block,
-- 
2.43.0


From 8cfa34ef2d7287c2a534c799eed220f0e230712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:45 +0000
Subject: [PATCH 86/97] fix: a beam selector scan goes on from the right cycle,
 and reports cycles

There are two points of the trajectory to a cycle: after a breakpoint or a
pause the selector started from the wrong point, on the wrong side, and the
steps completed were twice those done.
---
 malcolm/modules/pmac/parts/beamselectorpart.py | 5 +++++
 malcolm/modules/pmac/parts/pmacchildpart.py    | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/beamselectorpart.py b/malcolm/modules/pmac/parts/beamselectorpart.py
index 77ef297..4c885f4 100644
--- a/malcolm/modules/pmac/parts/beamselectorpart.py
+++ b/malcolm/modules/pmac/parts/beamselectorpart.py
@@ -219,6 +219,7 @@ class BeamSelectorPart(PmacChildPart):
 
         # Double the number of points so we have 2 points per complete cycle
         static_axis = StaticPointGenerator(size=static_axis.size * 2)
+        completed_steps *= 2
         steps_to_do *= 2
 
         # Create a linear scan axis to handle motion between the positions
@@ -250,6 +251,10 @@ class BeamSelectorPart(PmacChildPart):
             context, completed_steps, steps_to_do, part_info, new_generator, axesToMove
         )
 
+    def report_progress(self, completed_steps: int) -> None:
+        # There are 2 points per complete cycle
+        super().report_progress(completed_steps // 2)
+
     def add_tail_off(self):
         # The current point
         current_point = self.generator.get_point(self.steps_up_to - 1)
diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 1a025f4..49c4f23 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -437,6 +437,9 @@ class PmacChildPart(builtin.parts.ChildPart):
             # TODO: if we abort during move to start, what happens?
             child.abortProfile()
 
+    def report_progress(self, completed_steps: int) -> None:
+        self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
+
     def update_step(self, scanned, child):
         # scanned is an index into the completed_steps_lookup, so a
         # "how far through the pmac trajectory" rather than a generator
@@ -444,8 +447,7 @@ class PmacChildPart(builtin.parts.ChildPart):
         if scanned > 0:
             # Only report progress if we are triggering for every point
             if self.output_triggers == scanning.infos.MotionTrigger.EVERY_POINT:
-                completed_steps = self.completed_steps_lookup[scanned - 1]
-                self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
+                self.report_progress(self.completed_steps_lookup[scanned - 1])
             # Keep PROFILE_POINTS trajectory points in front, not counting those
             # that we have worked out but not sent yet
             unsent = len(self.profile["timeArray"])
-- 
2.43.0


From b863dee761da3ec82b70c9a2d86def8c514b65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:43 +0000
Subject: [PATCH 87/97] fix: a move of a demo counter takes over from one in
 progress

Pausing a scan left the move to the end of the point going, which moved the
axis on from the start of the point that the scan had been wound back to
---
 malcolm/modules/demo/parts/countermovepart.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/demo/parts/countermovepart.py b/malcolm/modules/demo/parts/countermovepart.py
index d68845c..a295df8 100644
--- a/malcolm/modules/demo/parts/countermovepart.py
+++ b/malcolm/modules/demo/parts/countermovepart.py
@@ -25,6 +25,8 @@ class CounterMovePart(builtin.parts.ChildPart):
 
     def __init__(self, name: APartName, mri: AMri) -> None:
         super().__init__(name, mri, stateful=False, initial_visibility=True)
+        # How many moves have been started
+        self._moves = 0
 
     def setup(self, registrar: PartRegistrar) -> None:
         super().setup(registrar)
@@ -38,6 +40,8 @@ class CounterMovePart(builtin.parts.ChildPart):
         """Move the counter to the demand value, taking duration seconds like
         a motor would do"""
         start = time.time()
+        self._moves += 1
+        this_move = self._moves
         child = context.block_view(self.mri)
         distance = demand - child.counter.value
         remaining = duration
@@ -45,6 +49,9 @@ class CounterMovePart(builtin.parts.ChildPart):
         while remaining > 0:
             child.counter.put_value(demand - distance * remaining / duration)
             context.sleep(min(remaining, UPDATE_TICK))
+            if self._moves != this_move:
+                # Another move has taken over from us
+                return
             remaining = start + duration - time.time()
         # Final move to make sure we end up at the right place
         child.counter.put_value(demand)
-- 
2.43.0


From 652840dab56189eb4e701a06ff4a6eac10b02d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:12 +0000
Subject: [PATCH 88/97] fix: steps of a scan aren't complete before all its
 detectors have done them

A detector was only counted from its first update on, so a scan paused before
then could be wound back to a step that the detector hadn't done
---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 4 ++--
 malcolm/modules/scanning/parts/detectorchildpart.py        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9fc1b88..7008683 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -513,6 +513,8 @@ class RunnableController(builtin.controllers.ManagerController):
         completed_steps = 0
         self.breakpoint_index = 0
         steps_to_do = self.steps_per_run[self.breakpoint_index]
+        # Reset the progress of all child parts
+        self.progress_updates = {}
         part_info = self.run_hooks(
             ConfigureHook(p, c, completed_steps, steps_to_do, part_info, **kw)
             for p, c, kw in self._part_params()
@@ -524,8 +526,6 @@ class RunnableController(builtin.controllers.ManagerController):
         # Update the completed and configured steps
         self.configured_steps.set_value(steps_to_do)
         self.completed_steps.meta.display.set_limitHigh(params.generator.size)
-        # Reset the progress of all child parts
-        self.progress_updates = {}
         self.resume_queue = Queue()
 
     @add_call_types
diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 875a2b7..7e3bbd8 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -354,6 +354,8 @@ class DetectorChildPart(builtin.parts.ChildPart):
         ):
             kwargs.pop("exposure")
         child.configure(**kwargs)
+        # Nothing is complete until we say so, however late our first update is
+        self.update_completed_steps(0)
         # Report back any datasets the child has to our parent
         assert hasattr(child, "datasets"), (
             f"Detector {self.mri} doesn't have a dataset table, did you add a "
-- 
2.43.0


From ce56749e4aae795a57441dfbc6036ec37899546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:55 +0000
Subject: [PATCH 89/97] fix: kinematics of an axis whose encoder is the first
 position of the PandA

It was refused as not captured
---
 malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py b/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
index a8e2359..fd1cf07 100644
--- a/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
+++ b/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
@@ -187,7 +187,7 @@ class KinematicsSavuPart(builtin.parts.ChildPart):
                         self.use_min_max = False
 
             # Check there was a dataset for the axis
-            assert dataset_i, f"No value dataset for {scannable}"
+            assert dataset_i is not None, f"No value dataset for {scannable}"
 
         if self.use_min_max:
             dtypes["min"] = scanning.infos.DatasetType.POSITION_MIN
-- 
2.43.0


From 9e4e2b2f621d84030d2e1d2c941a5cd914499f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:55 +0000
Subject: [PATCH 90/97] fix: kinematics of motors that are scanned themselves
 start from their encoders

The datasets that are to be calculated were linked as the inputs if a raw motor
had the name of a scanned axis
---
 malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py b/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
index fd1cf07..2ff00a6 100644
--- a/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
+++ b/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
@@ -209,7 +209,9 @@ class KinematicsSavuPart(builtin.parts.ChildPart):
         self, context: scanning.hooks.AContext, part_info: scanning.hooks.APartInfo
     ) -> None:
         # Map these in the file
-        dataset_infos = scanning.infos.DatasetProducedInfo.filter_values(part_info)
+        # What is calculated from them isn't what was captured
+        captured = {k: v for k, v in part_info.items() if k != self.name}
+        dataset_infos = scanning.infos.DatasetProducedInfo.filter_values(captured)
         for scannable, axis_num in self.axis_numbers.items():
             min_i, max_i, value_i = None, None, None
             for info in dataset_infos:
-- 
2.43.0


From 364934d128665281471f1d507ec4d0e7d713d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:12 +0000
Subject: [PATCH 91/97] fix: steps of a detector aren't complete before they
 are in its file

The file writer was only counted from its first update on, so a scan paused
before then was resumed after frames that weren't written
---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 13942a5..62efa2e 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -595,6 +595,9 @@ class HDFWriterPart(builtin.parts.ChildPart):
             # We write this one, so it needs the path as seen from here
             self._hdf = _write_additional_hdf(filename, generator, file_dir, set_path)
         self._check_xml_is_valid(child)
+        # Nothing is written until we say so, however late our first update is
+        if self.registrar:
+            self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
         # Return the dataset information
         dataset_infos = list(
             create_dataset_infos(
-- 
2.43.0


From 4035141adbcd2cd3d21ba8a9b801400eb8d315ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:26 +0000
Subject: [PATCH 92/97] fix: steps with Odin and Xspress3 writers aren't
 complete before they are written

The writer was only counted from its first update on, so what the driver had
done was said to be complete
---
 malcolm/modules/ADOdin/parts/odinwriterpart.py      | 3 +++
 malcolm/modules/xspress3/parts/xspresswriterpart.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index e56b82f..6012d09 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -409,6 +409,9 @@ class OdinWriterPart(builtin.parts.ChildPart):
         )
         add_nexus_nodes(generator, vds_full_filename)
 
+        # Nothing is written until we say so, however late our first update is
+        if self.registrar:
+            self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
         # Return the dataset information
         dataset_infos = list(
             create_dataset_infos(formatName, generator, fileName, self.secondary_set)
diff --git a/malcolm/modules/xspress3/parts/xspresswriterpart.py b/malcolm/modules/xspress3/parts/xspresswriterpart.py
index f441c90..4f9bf87 100644
--- a/malcolm/modules/xspress3/parts/xspresswriterpart.py
+++ b/malcolm/modules/xspress3/parts/xspresswriterpart.py
@@ -417,6 +417,9 @@ class XspressWriterPart(builtin.parts.ChildPart):
         )
         add_nexus_nodes(generator, vds_full_filename)
 
+        # Nothing is written until we say so, however late our first update is
+        if self.registrar:
+            self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
         # Return the dataset information
         dataset_infos = list(
             create_dataset_infos(formatName, generator, fileName, self.secondary_set)
-- 
2.43.0


From 7e1bed89e273fd8508fda00d42a54ae4729595db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 93/97] fix: names that a view doesn't have are an error, not a
 value

They gave a KeyError instead of raising it
---
 malcolm/core/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/views.py b/malcolm/core/views.py
index 2f1fcf7..aa65041 100644
--- a/malcolm/core/views.py
+++ b/malcolm/core/views.py
@@ -34,7 +34,7 @@ class View:
         try:
             return getattr(self, item)
         except AttributeError:
-            return KeyError(item)
+            raise KeyError(item)
 
     def __setattr__(self, name, value):
         raise NameError(f"Cannot set attribute {name} on view")
-- 
2.43.0


From 5b8c918c30a0e6532cdb19dc5f38bc2d40ad26c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 94/97] fix: calling a method with too many arguments is an
 error

Those there was no parameter for were left out, and the method called with the rest
---
 malcolm/core/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/views.py b/malcolm/core/views.py
index aa65041..3b1757d 100644
--- a/malcolm/core/views.py
+++ b/malcolm/core/views.py
@@ -106,7 +106,11 @@ class Method(View):
 
     def _add_positional_args(self, args, kwargs):
         # add any positional args into our kwargs dict
-        for name, v in zip(self._data.meta.takes.elements, args):
+        elements = self._data.meta.takes.elements
+        assert len(args) <= len(
+            elements
+        ), f"Expected at most {len(elements)} positional args, got {len(args)}"
+        for name, v in zip(elements, args):
             assert (
                 name not in kwargs
             ), f"{name} specified as positional and keyword args"
-- 
2.43.0


From 5a6f0c05093b2f8d8268a00ab2b4e5df10e94f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:23 +0000
Subject: [PATCH 95/97] fix: the label of a PandA block is only shown once the
 PandA has it

A label that wasn't accepted was still shown
---
 malcolm/modules/pandablocks/parts/pandalabelpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandalabelpart.py b/malcolm/modules/pandablocks/parts/pandalabelpart.py
index 486c55f..6116553 100644
--- a/malcolm/modules/pandablocks/parts/pandalabelpart.py
+++ b/malcolm/modules/pandablocks/parts/pandalabelpart.py
@@ -23,5 +23,6 @@ class PandALabelPart(builtin.parts.LabelPart):
         super().set_label(value, ts)
 
     def set_label(self, value, ts=None):
+        # It might not be accepted, so only show it once it is
+        self.client.set_field("*METADATA", self.metadata_field, value)
         super().set_label(value, ts)
-        self.client.set_field("*METADATA", self.metadata_field, self.attr.value)
-- 
2.43.0


From a3e75d4d923e9ad420986c543d8b8308f386ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 96/97] fix: a web server that was reset stops serving when
 disabled again

---
 malcolm/modules/web/controllers/httpservercomms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/controllers/httpservercomms.py b/malcolm/modules/web/controllers/httpservercomms.py
index e940be6..ac9cc38 100644
--- a/malcolm/modules/web/controllers/httpservercomms.py
+++ b/malcolm/modules/web/controllers/httpservercomms.py
@@ -44,11 +44,12 @@ class HTTPServerComms(builtin.controllers.ServerComms):
                 (handler_info.regexp, handler_info.request_class, handler_info.kwargs)
             )
         self._application = Application(handlers)
-        self._server = HTTPServer(self._application)
         self._start_server()
 
     def _start_server(self):
         if not self._server_started:
+            # A server can only be stopped once, so make a new one each time
+            self._server = HTTPServer(self._application)
             IOLoopHelper.call(self._server.listen, int(self.port))
             self._server_started = True
 
-- 
2.43.0


From 85330d5c94bc7c0d9da4a24dabc48dbadd68c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:58 +0000
Subject: [PATCH 97/97] fix: an Xmap is set up for as many pixels as it is
 armed for

---
 malcolm/modules/xmap/parts/xmapdriverpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/xmap/parts/xmapdriverpart.py b/malcolm/modules/xmap/parts/xmapdriverpart.py
index 4c532f9..c0e3d52 100644
--- a/malcolm/modules/xmap/parts/xmapdriverpart.py
+++ b/malcolm/modules/xmap/parts/xmapdriverpart.py
@@ -41,7 +41,8 @@ class XmapDriverPart(ADCore.parts.DetectorDriverPart):
             pixelAdvanceMode="Gate",
             presetMode="No preset",
             ignoreGate="No",
-            pixelsPerRun=steps_to_do,
+            # As many as it is armed for, which may be more than the steps of a run
+            pixelsPerRun=num_images,
             autoPixelsPerBuffer="Manual",
             pixelsPerBuffer=1,
             binsInSpectrum=2048,
-- 
2.43.0

