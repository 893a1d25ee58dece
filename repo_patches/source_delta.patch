From 7fbce53e3569ce59a421e87423befecc7fb8ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 01/33] fix: a task woken by cancellation counts as runnable

The clock was stepped while a task still had to handle its cancellation.
---
 toffee/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..1ee5de4 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -62,7 +62,7 @@ def __has_unwait_task():
         if task.get_name() == "__clock_loop":
             continue
 
-        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
+        if task._fut_waiter is None or task._fut_waiter._state != "PENDING":
             return True
 
     return False
-- 
2.43.0


From 816de286d79b880bee895dc30e87a91afe5e24c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 02/33] fix: a callback that may still wake a task keeps the
 clock waiting

A task waiting for asyncio.gather, asyncio.wait or a TaskGroup was resumed one
cycle after the last child had ended.
---
 toffee/asynchronous.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 1ee5de4..55ceb83 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -65,6 +65,14 @@ def __has_unwait_task():
         if task._fut_waiter is None or task._fut_waiter._state != "PENDING":
             return True
 
+    # A callback that has not run yet may still wake a task, e.g. the one with which asyncio.gather
+    # or a TaskGroup passes on that a child is done.
+    for handle in getattr(asyncio.get_event_loop(), "_ready", ()):
+        owner = getattr(handle._callback, "__self__", None)
+
+        if not isinstance(owner, asyncio.Task) or owner.get_name() != "__clock_loop":
+            return True
+
     return False
 
 
-- 
2.43.0


From ace674ee531fa3509e8c54e950c38b2a5797aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 03/33] fix: delayers sample once per cycle

A cycle in which model hooks ran was sampled once per round of hooks, so a
delayer was shifted by more than one value in it.
---
 toffee/asynchronous.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 55ceb83..d28999d 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -38,10 +38,11 @@ async def __execute_callback():
     Execute the callback function. The Callback will be executed between the next clock time after other_task_done.
     """
 
-    need_rerun = False
     for func, args, kwargs in callback_list:
-        need_rerun |= await func(*args, **kwargs)
-    return need_rerun
+        if await func(*args, **kwargs):
+            # The remaining callbacks see the cycle once it has settled
+            return True
+    return False
 
 
 def task_run():
-- 
2.43.0


From 56ccb7f63cbcde66c5f33cf9f73ddfaf94c1090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 04/33] fix: model hooks left over by a failed run do not leak
 into the next one

The list of hooks to execute was global to the process and not emptied when a
hook raised or the run was aborted, so every later run executed it again.
---
 toffee/executor.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..bd3ae7c 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -1,5 +1,7 @@
 __all__ = ["Executor"]
 
+import asyncio
+
 from .asynchronous import add_callback
 from .asynchronous import create_task
 from .asynchronous import Event
@@ -11,7 +13,16 @@ from ._base import MObject
 Priority Task Execution
 """
 
-__priority_tasks = []
+
+def get_priority_tasks():
+    """
+    Get the priority task list of the current run.
+    """
+
+    loop = asyncio.get_event_loop()
+    if not hasattr(loop, "priority_tasks"):
+        loop.priority_tasks = []
+    return loop.priority_tasks
 
 
 def add_priority_task(coro, priority, done_event=None):
@@ -19,7 +30,7 @@ def add_priority_task(coro, priority, done_event=None):
     Add a priority task to the priority task list.
     """
 
-    __priority_tasks.append((coro, priority, done_event))
+    get_priority_tasks().append((coro, priority, done_event))
 
 
 async def __execute_priority_tasks():
@@ -27,14 +38,16 @@ async def __execute_priority_tasks():
     Execute the priority tasks in the priority task list. It will be called every clock cycle.
     """
 
+    priority_tasks = get_priority_tasks()
+
     set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
             set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
+    priority_tasks.clear()
     return set_event
 
 
-- 
2.43.0


From 102847872fac673467178088c7b62fc53382cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 05/33] fix: tasks woken by a monitor hook run before the next
 clock step

Only driver hooks made the clock wait for what they triggered.
---
 toffee/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index bd3ae7c..c91c752 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -40,15 +40,15 @@ async def __execute_priority_tasks():
 
     priority_tasks = get_priority_tasks()
 
-    set_event = False
+    # Any hook may wake a task, so the cycle has to settle again afterwards
+    need_rerun = len(priority_tasks) > 0
     for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
-            set_event = True
             done_event.set()
 
     priority_tasks.clear()
-    return set_event
+    return need_rerun
 
 
 add_callback(__execute_priority_tasks)
-- 
2.43.0


From eabcb20989c4442fdbb64ea09b8be35805735b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 06/33] fix: a priority or order given to an executor call
 applies to that call only

It was stored on the driver until the background part of some call had ended,
so hooks after the driver body lost it and overlapping calls took it over.
---
 toffee/_base_agent.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..7c19477 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -65,7 +65,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -74,15 +74,13 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        priority = priority if priority is not None else driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -96,9 +94,7 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        priority = priority if priority is not None else agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -115,6 +111,12 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # The settings made for this call must not apply to any other call
+
+        priority, sche_order = self.priority, self.sche_order
+        self.priority = None
+        self.sche_order = None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -130,11 +132,11 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -143,11 +145,11 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -165,13 +167,13 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -186,9 +188,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From 669c6ccb4c248ee60a78cbca58fe433fd195827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 07/33] fix: a bundle whose pins are all in bundle lists has a
 clock

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..dc6cd63 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1397,6 +1397,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From b31d5463189e1145e50c771a6c0e1f03cf7ba7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 08/33] fix: bundles in a bundle list belong to one instance
 only

---
 toffee/bundle.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index dc6cd63..65e2ee6 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -150,7 +150,9 @@ class BundleList:
         bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = [
+            bundle._Bundle__new_from_same_template() for bundle in old_bundle_list.bundles
+        ]
         return bundle_list
 
 
@@ -407,10 +409,7 @@ class Bundle(MObject):
 
         # Recreate subbundles and signal lists for each instance
         for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
-            new_sub_bundle = sub_bundle.__class__()
-            new_sub_bundle.current_level_signals = sub_bundle.current_level_signals
-            new_sub_bundle.__connect_method = sub_bundle.__connect_method
-            setattr(self, sub_bundle_name, new_sub_bundle)
+            setattr(self, sub_bundle_name, sub_bundle.__new_from_same_template())
 
         # Recreate signal lists for each instance
         for signal_list_name, signal_list in self.__all_signal_lists():
@@ -422,6 +421,16 @@ class Bundle(MObject):
             new_bundle_list = BundleList.from_bundlelist(bundle_list)
             setattr(self, bundle_list_name, new_bundle_list)
 
+    def __new_from_same_template(self):
+        """
+        Create a new bundle with the signals and the connect method of this one.
+        """
+
+        new_bundle = self.__class__()
+        new_bundle.current_level_signals = self.current_level_signals
+        new_bundle.__connect_method = self.__connect_method
+        return new_bundle
+
     def ___dut_call_on_rise__(self, cycle):
         """
         Call the on rise method of target DUT.
-- 
2.43.0


From 3d761787e46cf0804eaf4a22dfebc415c6010526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 09/33] fix: binding again releases lists, unconnected signals
 and the clock of the former design

---
 toffee/bundle.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 65e2ee6..92801da 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1283,20 +1283,21 @@ class Bundle(MObject):
                     if unconnected_signal_access:
                         signal_list.signals[idx] = self._dummy_signal
 
-    def __remove_signal_attr(self, signal_name):
+    @staticmethod
+    def __release_signal(signal):
         """
-        Remove a signal attribute from the bundle.
+        Take back the connection of a signal of the dut to a bundle.
 
         Args:
-            signal_name: The name of the signal to remove.
+            signal: The signal to release, nothing is done if it is not a signal of a dut.
         """
 
-        signal = getattr(self, signal_name)
-        if hasattr(signal.xdata, "number_of_bundles_connected_to"):
+        if Bundle.__is_instance_of_xpin(signal) and hasattr(
+            signal.xdata, "number_of_bundles_connected_to"
+        ):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
@@ -1304,10 +1305,18 @@ class Bundle(MObject):
         """
 
         for signal_name in self.current_level_signals:
-            if hasattr(self, signal_name):
-                self.__remove_signal_attr(signal_name)
+            if signal_name in self.__dict__:
+                Bundle.__release_signal(self.__dict__.pop(signal_name))
+        for _, signal_list in self.__all_signal_lists():
+            for idx, signal in enumerate(signal_list.signals):
+                Bundle.__release_signal(signal)
+                signal_list.signals[idx] = Signal()
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
+        self.__clock_event = None
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From a216b53271e65e08eba4d20f19e8d2d7e085aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 10/33] fix: requests of a bundle bound again are applied once,
 and only on the edges of its design

---
 toffee/bundle.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 92801da..37c2ccc 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -403,6 +403,7 @@ class Bundle(MObject):
         self.__connect_method = PrefixBindMethod("")
         self.__dut_requests__ = Queue()
         self.__dut_instance__ = None
+        self.__responding_duts = []  # The DUTs that call this bundle on a rising edge
         self.__blocked_request__ = None
 
         self.__set_current_level_signal()
@@ -508,8 +509,25 @@ class Bundle(MObject):
         """
         if self.__dut_instance__ is not None:
             error("The dut instance is already set")
-        dut.StepRis(self.___dut_call_on_rise__)
+        self.__respond_to(dut)
+
+    def __respond_to(self, dut):
+        """
+        Apply the requests on the rising edges of the dut, and of no other dut.
+
+        Args:
+            dut: The dut to make the request response for.
+        """
+
         self.__dut_instance__ = dut
+        if not any(known is dut for known in self.__responding_duts):
+            self.__responding_duts.append(dut)
+
+            def on_rise(cycle):
+                if self.__dut_instance__ is dut:
+                    self.___dut_call_on_rise__(cycle)
+
+            dut.StepRis(on_rise)
 
     def process_requests(self, request: Optional[Union[Dict, List[Dict]]]):
         """
@@ -720,7 +738,7 @@ class Bundle(MObject):
         self.bound = True
         if self.write_mode is not None:
             self.__set_all_signals_write_mode(self.write_mode)
-        self.make_requset_response_for(dut)
+        self.__respond_to(dut)
         return self
 
     def as_dict(self, multilevel=True):
-- 
2.43.0


From 331408f92e953b4e48b834841dea2367bb292972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 11/33] fix: processing requests ends after the last request
 whose condition held it back

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 37c2ccc..ef2ab9a 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -553,7 +553,9 @@ class Bundle(MObject):
             request = [request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
+        while (
+            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
+        ):
             self.__dut_instance__.Step(1)
         ret = []
         for req in request:
-- 
2.43.0


From 9a37bd007b66166459ecc92fff3e6f8e6e028021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 12/33] fix: assign leaves the dictionary of the caller as it
 was

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index ef2ab9a..8be7f2a 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -870,7 +870,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {signal: value for signal, value in item.items() if signal != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From b7d4d24f8348952334c18e31c0e47e61ffc90b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 13/33] fix: the executor accepts any coroutine that has a
 variable called agent

---
 toffee/executor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index c91c752..c7278ab 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -270,5 +270,9 @@ class Executor(MObject):
         agent = coro.cr_frame.f_locals.get("agent", None)
         driver_name = coro.__name__
 
-        if agent is not None:
-            return agent.drivers.get(driver_name, None)
+        # Any coroutine may have a local variable called agent
+        driver = getattr(agent, "drivers", {}).get(driver_name, None)
+        if driver is not None:
+            driver_method = getattr(agent, driver_name)
+            if coro.cr_code is driver_method.__code__:
+                return driver
-- 
2.43.0


From dba6b892ae057c5cf4cd48b0b06bd68400e17f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 14/33] fix: models can be unattached and attached again, and
 every attachment is checked afresh

---
 toffee/env.py   | 14 +++++++++++---
 toffee/model.py |  8 ++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..0dd23a6 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -49,9 +49,17 @@ class Env(MObject):
             )
             model.attached_env.unattach(model)
 
+        # The hooks' flags belong to the class, an earlier attachment may have set them
+        model.clear_matched()
+
         self.__inject_all(model)
-        self.__ensure_model_match(model)
+        try:
+            self.__ensure_model_match(model)
+        except ValueError:
+            self.__uninject_all(model)
+            raise
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +74,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From d7c7db74fd2fa2ed424018d74747998ca59013c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 15/33] fix: agent hooks and agent ports match exactly the
 agents and methods they name

---
 toffee/env.py   | 56 +++++++++++++++++++++++++------------------------
 toffee/model.py |  5 ++++-
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 0dd23a6..37847bd 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -121,37 +121,33 @@ class Env(MObject):
     def __is_agent_hook_contain_method(
         agent_hook, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contained = (
             agent_name_of_method == agent_hook.__agent_name__
             or agent_name_of_method in agent_hook.__agents__
-        ):
+        )
+        for idx, path in enumerate(agent_hook.__methods__):
+            if path == f"{agent_name_of_method}.{method_name}":
+                agent_hook.__methods_matched__[idx] = True
+                contained = True
+        if contained:
             agent_hook.__matched__[0] = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
-            agent_hook.__matched__[0] = True
-            agent_hook.__methods_matched__[
-                agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contained
 
     @staticmethod
     def __is_agent_port_contain_method(
         agent_port, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contained = (
             agent_name_of_method == agent_port.get_path()
             or agent_name_of_method in agent_port.agents
-        ):
-            agent_port.matched = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_port.methods:
+        )
+        for idx, path in enumerate(agent_port.methods):
+            if path == f"{agent_name_of_method}.{method_name}":
+                agent_port.methods_matched[idx] = True
+                contained = True
+        if contained:
             agent_port.matched = True
-            agent_port.methods_matched[
-                agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contained
 
     @staticmethod
     def __all_agent_hooks_contain_method(
@@ -262,14 +258,17 @@ class Env(MObject):
 
         model.ensure_all_matched()
 
+        agent_names = list(self.all_agent_names())
+
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in agent_names
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -277,13 +276,16 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            if (
+                not agent_port.get_path() == ""
+                and agent_port.get_path() not in agent_names
+            ):
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..a02c0ba 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,10 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        # The name of the port stands for an agent only if nothing else is given
+        if self.agent_name == "" and self.agents == [] and self.methods == []:
+            return self.name
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From 4b33e895793e24308e2a4fb1e0f018ec875b1435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 16/33] fix: an error raised in a monitor method fails the run

---
 toffee/_base_agent.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 7c19477..19a31a4 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -205,6 +205,16 @@ class Monitor(BaseAgent):
         self.agent = agent
 
         self.monitor_task = create_task(self.__monitor_forever())
+        self.monitor_task.add_done_callback(self.__report_error)
+
+    @staticmethod
+    def __report_error(task):
+        """
+        Report the error of a monitor at once, asyncio would wait until the task is released.
+        """
+
+        if not task.cancelled() and task.exception() is not None:
+            raise task.exception()
 
     def enable_get_queue(self, maxsize):
         self.get_queue = Queue()
-- 
2.43.0


From fc06f19d19cd9b6d49ef5947d711b80a65f763cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 17/33] fix: leaving an executor with exit any passes on the
 error of the first completed group

---
 toffee/executor.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index c7278ab..67ecabe 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -160,6 +160,10 @@ class Executor(MObject):
             )
         await self.__exit_any_event.wait()
 
+        for task in self.__uncompleted:
+            if task.done():
+                await task
+
     async def wait_all(self):
         """
         Wait for all the coroutines to complete. This function should be called after execute.
@@ -238,23 +242,25 @@ class Executor(MObject):
         """
 
         results = []
-        for coro, sche_order, priority in tasks:
-            driver = Executor.__get_driver(coro)
-
-            if driver is not None:
-                driver.priority = None
-                driver.sche_order = None
+        try:
+            for coro, sche_order, priority in tasks:
+                driver = Executor.__get_driver(coro)
 
-                if priority is not None:
-                    driver.priority = priority
+                if driver is not None:
+                    driver.priority = None
+                    driver.sche_order = None
 
-                if sche_order is not None:
-                    driver.sche_order = sche_order
+                    if priority is not None:
+                        driver.priority = priority
 
-            results.append(await coro)
+                    if sche_order is not None:
+                        driver.sche_order = sche_order
 
-        if complete_event is not None and not complete_event.is_set():
-            complete_event.set()
+                results.append(await coro)
+        finally:
+            # A group that failed is completed, too
+            if complete_event is not None and not complete_event.is_set():
+                complete_event.set()
 
         return results
 
-- 
2.43.0


From 4dd311aa08577c8215ac73632f850e6268300efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 18/33] fix: asking whether a pin can be connected to a
 specific signal agrees with binding

---
 toffee/bundle.py | 94 ++++++++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 35 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 8be7f2a..a511331 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -234,7 +234,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -248,7 +248,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -982,11 +982,12 @@ class Bundle(MObject):
 
         all_signals = [{"name": signal_name, "org_name": signal_name, "signal": None}]
 
-        all_signals = self.__bind_from_signal_list(
-            all_signals, "", [], False, True, specific_signal, None
+        connections = []
+        self.__bind_from_signal_list(
+            all_signals, "", [], False, True, connections, None
         )
 
-        return len(all_signals) == 0
+        return specific_signal in connections
 
     @classmethod
     def from_prefix(cls, prefix="", dut=None):
@@ -1345,7 +1346,7 @@ class Bundle(MObject):
         rule_stack,
         unconnected_signal_access,
         detection_mode,
-        specific_signal,
+        connections,
         all_signals_rule,
     ):
         """
@@ -1358,8 +1359,8 @@ class Bundle(MObject):
             unconnected_signal_access: Whether unconnected signals could be accessed.
             detection_mode: Whether the method is in detection mode. if it is, the bundle
                             will not be connected to the signals.
-            specific_signal: It is only valid in detection mode. If it is not None, only
-                             the specific signal will be connected.
+            connections: It is only valid in detection mode. If it is not None, the paths
+                         of the signals that could be connected will be stored in this list.
             all_signals_rule: It is only valid in detection mode. If it is not None, the
                               rule of all signals will be stored in this dictionary.
 
@@ -1377,20 +1378,16 @@ class Bundle(MObject):
                 connected_signals, level_string, rule_stack, unconnected_signal_access
             )
 
-            if specific_signal is not None:
-                error("specific signal could only be used in detection mode")
+            if connections is not None:
+                error("connections could only be listed in detection mode")
         else:
-            if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
-                    full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
+            if connections is not None:
+                for signal in connected_signals:
+                    connections.append(
+                        Bundle.__appended_level_string(
+                            level_string, self.__signal_attr_name(signal)
+                        )
                     )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
@@ -1416,7 +1413,7 @@ class Bundle(MObject):
                 rule_stack,
                 unconnected_signal_access,
                 detection_mode,
-                specific_signal,
+                connections,
                 all_signals_rule,
             )
             if sub_bundle.__clock_event is not None:
@@ -1432,7 +1429,7 @@ class Bundle(MObject):
                     rule_stack,
                     unconnected_signal_access,
                     detection_mode,
-                    specific_signal,
+                    connections,
                     all_signals_rule,
                 )
                 if bundle.__clock_event is not None:
@@ -1645,7 +1642,7 @@ class Bundle(MObject):
         Filter signals in the dictionary that could be connected to a specific signal.
 
         Args:
-            dict: The dictionary to filter.
+            dict: The connection dictionary of this bundle.
             could_connected_to: The specific signal to connect to.
 
         Returns:
@@ -1654,28 +1651,55 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            if self.detect_specific_connectivity(value, could_connected_to):
                 filtered_dict[key] = value
         return filtered_dict
 
     @staticmethod
-    def __get_path_from_rule_stack(rule_stack, signal=""):
+    def __get_path_from_rule_stack(rule_stack):
         """
         Get siganl path from the rule stack.
 
         Args:
-            rule_stack: The stack of rules, this is a list of bundles.
-            signal: The signal to get the path.
+            rule_stack: The stack of rules, this is a list of bundles and the name of the
+                        signal in the last one.
+
+        Returns:
+            The path of the signal, relative to the first bundle.
         """
 
         path = ""
-        if signal != "":
-            rule_stack = rule_stack + [signal]
+        for bundle, sub_bundle in zip(rule_stack[:-2], rule_stack[1:-1]):
+            path += bundle.__sub_bundle_attr_name(sub_bundle) + "."
 
-        for rule in rule_stack[1:]:
-            if rule is rule_stack[-1]:
-                path += rule
-            else:
-                path += rule.name + "."
+        return path + rule_stack[-2].__signal_attr_name(rule_stack[-1])
 
-        return path
+    def __sub_bundle_attr_name(self, target):
+        """
+        Get the name under which a sub-bundle is found in this bundle.
+
+        Args:
+            target: The sub-bundle.
+        """
+
+        for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
+            if sub_bundle is target:
+                return sub_bundle_name
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            for idx, bundle in enumerate(bundle_list.bundles):
+                if bundle is target:
+                    return f"{bundle_list_name}[{idx}]"
+
+    def __signal_attr_name(self, signal_name):
+        """
+        Get the name under which a signal of the current level is found in this bundle.
+
+        Args:
+            signal_name: The name of the signal that is matched by the rules.
+        """
+
+        if signal_name not in self.current_level_signals:
+            for signal_list_name, signal_list in self.__all_signal_lists():
+                if signal_name in signal_list.names:
+                    return f"{signal_list_name}[{signal_list.names.index(signal_name)}]"
+        return signal_name
-- 
2.43.0


From 8eaf3088776fdb260dd10a7536fda6e0829e9c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 19/33] fix: the warning about an unconnected signal of a list
 names just that signal

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index a511331..76f884b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1293,11 +1293,11 @@ class Bundle(MObject):
             for idx, signal in enumerate(signal_list.names):
                 if signal not in connected_signals:
                     rule_string = Bundle.__get_rule_string(rule_stack, signal)
-                    level_string = Bundle.__appended_level_string(
+                    full_signal_name = Bundle.__appended_level_string(
                         level_string, f"{signal_list_name}[{idx}]"
                     )
                     warning(
-                        f'The signal that can be connected to "{level_string}" '
+                        f'The signal that can be connected to "{full_signal_name}" '
                         f'is not found in dut, it should satisfy rule "{rule_string}"'
                     )
 
-- 
2.43.0


From 2ccc7f31e09958a852cb323005fc7ff4020c67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 20/33] fix: a pin counts as connected only while a signal
 refers to it

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 76f884b..27f0ea6 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -85,6 +85,7 @@ class SignalList:
         ), f"signal name {signal_name} not in signal list"
 
         index = self.names.index(signal_name)
+        bundle._Bundle__release_signal(self.signals[index])
         self.signals[index] = signal
         bundle._Bundle__update_signal_info(signal)
         info(
@@ -1168,6 +1169,7 @@ class Bundle(MObject):
             info_dut_name: The name of the signal in the DUT in the log.
         """
 
+        Bundle.__release_signal(self.__dict__.get(signal_name))
         setattr(self, signal_name, signal)
         self.__update_signal_info(signal)
         info(f'dut\'s signal "{info_dut_name}" is connected to "{info_bundle_name}"')
-- 
2.43.0


From d37024619a95ecf256a8e383193354ffeff347ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 21/33] fix: the flat names of signals in bundle lists can be
 assigned

---
 toffee/bundle.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 27f0ea6..2f9bac6 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -929,6 +929,14 @@ class Bundle(MObject):
                         for bundle_list in self.__all_bundle_lists()
                     ):
                         getattr(self, signal).assign(value, multilevel)
+                    elif sub_bundle_name in (listed_bundles := self.__listed_bundles()):
+                        listed_bundles[sub_bundle_name].assign(
+                            {sub_bundle_signal: value},
+                            multilevel,
+                            Bundle.__appended_level_string(
+                                level_string, sub_bundle_name
+                            ),
+                        )
                     else:
                         full_signal_name = Bundle.__appended_level_string(
                             level_string, signal
@@ -1264,6 +1272,20 @@ class Bundle(MObject):
             if isinstance(getattr(self, attr), BundleList):
                 yield (attr, getattr(self, attr))
 
+    def __listed_bundles(self):
+        """
+        Collect the bundles in the bundle lists of the bundle.
+
+        Returns:
+            A dictionary from the name of each of these bundles, such as "vec[0]", to it.
+        """
+
+        return {
+            f"{bundle_list_name}[{idx}]": bundle
+            for bundle_list_name, bundle_list in self.__all_bundle_lists()
+            for idx, bundle in enumerate(bundle_list.bundles)
+        }
+
     def __detect_missing_signals(
         self, connected_signals, level_string, rule_stack, unconnected_signal_access
     ):
-- 
2.43.0


From 16b92b8026e10a18d4ae5f136508ba486e33210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 22/33] fix: sampling of a coverage group can be stopped

---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..6aa1ccd 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self.sample_disabled = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self.sample_disabled:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self.sample_disabled:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self.sample_disabled = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self.sample_disabled = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self.sample_disabled
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From 23a6c4c2342240d30ff40774861d93d76de9bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 23/33] fix: a group whose last uncovered point is deleted is
 covered

---
 toffee/funcov.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 6aa1ccd..c2d7c8f 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -312,6 +312,9 @@ class CovGroup(object):
         if name not in self.cov_points:
             raise ValueError("Invalid key %s" % name)
         del self.cov_points[name]
+        points = self.cov_points.values()
+        self.hinted = all(p["hinted"] for p in points)
+        self.all_once = all(p["hinted"] and p["once"] == True for p in points)
         return self
 
     def reset_point(self, name: str):
-- 
2.43.0


From 496c866ff126a650c3eaff40ff9f9394f57c2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 24/33] fix: a point with a single condition needs no name

---
 toffee/funcov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index c2d7c8f..d5595ba 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -275,7 +275,7 @@ class CovGroup(object):
         """
         key = name
         if not key:
-            key = "%s:%s" % (target, bins.keys())
+            key = "%s:%s" % (target, bins.keys() if isinstance(bins, dict) else bins)
         if key in self.cov_points:
             raise ValueError("Duplicated key %s" % key)
         if not isinstance(bins, dict):
-- 
2.43.0


From 4c25bec0e0b661fedf9e522f20f08e38211cd49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 25/33] fix: a bin whose name begins or ends with a blank can
 be marked by its name

---
 toffee/funcov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d5595ba..258a424 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -370,7 +370,8 @@ class CovGroup(object):
         matched_bins = []
         for b_name in bin_names:
             bins = []
-            b_name = b_name.strip()
+            if b_name not in available_bins:
+                b_name = b_name.strip()
             if b_name in available_bins:
                 bins = [b_name]
             elif "*" in b_name or "?" in b_name:
-- 
2.43.0


From eae7572e05828829d64889c17d16d99c354803a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 26/33] fix: bundle code generated from a regular expression
 with quotes is valid Python

---
 scripts/bundle_code_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/bundle_code_gen.py b/scripts/bundle_code_gen.py
index 66b24fe..d8a2cf4 100644
--- a/scripts/bundle_code_gen.py
+++ b/scripts/bundle_code_gen.py
@@ -123,7 +123,7 @@ def gen_bundle_code_from_regex(bundle_name: str, dut, regex: str, max_width: int
 
     code = __gen_bundle_code(bundle_name, signals, max_width)
     code += "\n"
-    code += f'bundle = {bundle_name}.from_regex(r"{regex}")\n'
+    code += f'bundle = {bundle_name}.from_regex({regex!r})\n'
 
     return code
 
-- 
2.43.0


From f7720b4511c486828af994f9c42b4cc18f72dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 27/33] fix: every log sink shows the id of a record once

---
 toffee/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..94a16c2 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 __all__ = [
@@ -60,6 +61,8 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
+        # other handlers receive the same record
+        record = copy.copy(record)
         if not hasattr(record, "log_id") or record.log_id == "":
             record.log_id = ""
         else:
-- 
2.43.0


From 459c2afcc513026ec876cedd1c45ba3df5694ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 28/33] fix: the log format given to setup_logging is used

---
 toffee/logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 94a16c2..1e848c0 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -136,16 +136,17 @@ def setup_logging(
         handler.close()
 
     toffee_logger.addHandler(stats_handler)
+    formatter = ToffeeFormatter(format)
 
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From de5b4352f12ded439708ed237d7ac58f6da72a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 29/33] fix: keep the sub-bundles of a group that is also a
 signal in generated code

---
 scripts/bundle_code_intel_gen.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index c4d2950..da45445 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -70,7 +70,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                 # else:
                 # logs[son_hash] = (False, inside_hash, son_name, whole_name, grandsons)
             if inside_hash not in insides.keys():
-                insides[inside_hash] = [son_leaf, [], "", []]
+                insides[inside_hash] = [son_leaf, [], "", [], []]
                 if son_leaf & 2:
                     # new bundle appears
                     insides[inside_hash][2] = bundle_names_counter[0]
@@ -107,7 +107,8 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                             if len(prefix) > 0:
                                 tprefix_name = f"_{tprefix_name}"
                             if boths[prefix_name]:
-                                son_leaves = insides[bundle_hash][3]
+                                # the node gets no class of its own, so its sub-bundles are flattened as well
+                                son_leaves = insides[bundle_hash][4]
                                 for _son_leaf in son_leaves:
                                     leaf_name = f"{tprefix_name}{_son_leaf}"
                                     insides[inside_hash][3].append(leaf_name)
@@ -115,6 +116,10 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                                 rp.print(
                                     f'\t{tprefix_name} = {bundle_cls}.from_prefix("{tprefix_name}")'
                                 )
+                                for _son_leaf in insides[bundle_hash][4]:
+                                    leaf_name = f"{tprefix_name}{_son_leaf}"
+                                    insides[inside_hash][4].append(leaf_name)
+                    insides[inside_hash][4].extend(insides[inside_hash][3])
 
                     if len(insides[inside_hash][3]) > 0:
                         leaves_str = ", ".join(insides[inside_hash][3])
-- 
2.43.0


From fdb3b18ea4b6c9b95989ac29bbf7421d5ac5b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 30/33] fix: let an overriding driver or monitor method call
 the one it overrides

---
 toffee/agent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toffee/agent.py b/toffee/agent.py
index b686d8a..fd47c11 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -129,6 +129,8 @@ def __driver_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         driver = agent.drivers[func.__name__]
+        if driver.func is not func:  # called by the method overriding it
+            return await func(agent, *args, **kwargs)
         return await driver.process_driver_call(agent, args, kwargs)
 
     wrapper.__original_func__ = func
@@ -155,6 +157,8 @@ def __monitor_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         monitor = agent.monitors[func.__name__]
+        if monitor.func is not func:  # called by the method overriding it
+            return await func(agent, *args, **kwargs)
         return await monitor.get_queue.get()
 
     wrapper.__original_func__ = func
-- 
2.43.0


From b8587e7f10b7fd1d8df12b9c8b3038edf5f753b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 31/33] fix: raise the error of a gathered coroutine at once,
 even if those before it never end

---
 toffee/asynchronous.py | 7 ++-----
 toffee/executor.py     | 5 +----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index d28999d..69ee55c 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -310,11 +310,8 @@ async def gather(*coros):
     for coro in coros:
         all_tasks.append(create_task(coro))
 
-    results = []
-    for task in all_tasks:
-        results.append(await task)
-
-    return results
+    # The error of any of them is raised at once, even if those before it never end
+    return await asyncio.gather(*all_tasks)
 
 
 """
diff --git a/toffee/executor.py b/toffee/executor.py
index 67ecabe..deaa1ba 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -172,10 +172,7 @@ class Executor(MObject):
         if len(self.__uncompleted) == 0:
             return
 
-        results = []
-        for task in self.__uncompleted:
-            results.append(await task)
-        self.__set_results(results)
+        self.__set_results(await asyncio.gather(*self.__uncompleted))
 
     def get_results(self):
         """
-- 
2.43.0


From 2eb74bedc04b87a21af2b9cc98ee4d271894ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 32/33] fix: name a monitor that is in no environment in the
 error of its full queue

---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 19a31a4..21d58c4 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -18,7 +18,7 @@ class BaseAgent:
         self.func = func
         self.name = func.__name__
         self.agent_name = ""
-        self.path_name = ""
+        self.path = self.name  # as long as the agent is in no environment
         self.compare_func = compare_func
         self.model_infos = {}
 
-- 
2.43.0


From d585da08b40293fa720cff0eb3b7c97737cc3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:48 +0000
Subject: [PATCH 33/33] fix: requests given to a bundle can be used again, and
 those made by callables return their data

---
 toffee/bundle.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 2f9bac6..013da64 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -406,6 +406,7 @@ class Bundle(MObject):
         self.__dut_instance__ = None
         self.__responding_duts = []  # The DUTs that call this bundle on a rising edge
         self.__blocked_request__ = None
+        self.__request_returns__ = []  # What the requests processed last asked for
 
         self.__set_current_level_signal()
 
@@ -462,6 +463,8 @@ class Bundle(MObject):
             if data is None:
                 return
             request = data
+        # The caller may use the request again
+        request = dict(request)
         # check condition
         if "__condition_func__" in request:
             if not request["__condition_func__"](
@@ -496,10 +499,10 @@ class Bundle(MObject):
                 ret_data.append(return_bundle.as_dict())
         if len(ret_data) == 1:
             ret_data = ret_data[0]
-        # save return data in request
-        request["__funcs_return__"] = funcreturns
-        request["__return_values__"] = ret_data
-        request["__return_cycles__"] = cycle
+        # save return data
+        self.__request_returns__.append(
+            {"data": ret_data, "cycle": cycle, "__funcs_return__": funcreturns}
+        )
 
     def make_requset_response_for(self, dut):
         """
@@ -552,23 +555,14 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        self.__request_returns__ = []
         for req in request:
             self.__dut_requests__.put(req)
         while (
             not self.__dut_requests__.empty() or self.__blocked_request__ is not None
         ):
             self.__dut_instance__.Step(1)
-        ret = []
-        for req in request:
-            if isinstance(req, dict) and "__return_values__" in req:
-                ret.append(
-                    {
-                        "data": req["__return_values__"],
-                        "cycle": req["__return_cycles__"],
-                    }
-                )
-                ret[-1]["__funcs_return__"] = req["__funcs_return__"]
-        return ret
+        return self.__request_returns__
 
     def set_name(self, name):
         """
-- 
2.43.0

