From 62a18a33f4a4ab78b82c052e2cd6bf4863af1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/79] fix: pair awaitables of a returned tuple with their
 positions

---
 python/xoscar/core.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 9ea1ee5..e109627 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -444,8 +444,7 @@ cdef class _BaseActor:
                 if extract_tuple:
                     result = list(dones)[0].result()
                 else:
-                    for pos in coro_poses:
-                        task = tasks[pos]
+                    for task, pos in zip(tasks, coro_poses):
                         values[pos] = task.result()
                     result = tuple(values)
 
-- 
2.43.0


From 851863459d96c450643c4488de5104bfd764e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 02/79] fix: keep arguments and attributes of exceptions raised
 remotely

---
 python/xoscar/utils.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 3c2f6fb..89bc5af 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -115,8 +115,27 @@ def wrap_exception(
             "args": exc.args,
         }
     )
+    # attributes stored outside `__dict__`, e.g. `errno` of OSError, are found
+    # on the builtin type and would never reach `__getattr__`
+    for base in type(exc).__mro__:
+        if base.__module__ != "builtins":
+            continue
+        for name, member in vars(base).items():
+            if name.startswith("_") or name == "obj" or name in attr_dict:
+                continue
+            if inspect.isdatadescriptor(member) and hasattr(exc, name):
+                attr_dict[name] = getattr(exc, name)
     new_exc_type = type(type(exc).__name__, bases + (type(exc),), attr_dict)
-    return new_exc_type().with_traceback(traceback)
+    try:
+        # some exceptions, e.g. ExceptionGroup, cannot be created without arguments
+        new_exc = new_exc_type(*exc.args)
+    except TypeError:
+        new_exc = new_exc_type()
+    # instance attributes which shadow class ones would never reach `__getattr__`
+    new_exc.__dict__.update(
+        (k, v) for k, v in exc.__dict__.items() if k not in attr_dict
+    )
+    return new_exc.with_traceback(traceback)
 
 
 # from https://github.com/ericvsmith/dataclasses/blob/master/dataclass_tools.py
-- 
2.43.0


From c7359d4a33a67b9b4a7b4ad56546dae93f63bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/79] fix: a failed creation of an actor leaves nothing
 behind

---
 python/xoscar/backends/pool.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index cb61054..2a06c45 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -623,7 +623,13 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             actor.uid = actor_id
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
-            await self._run_coro(message.message_id, actor.__post_create__())
+            try:
+                await self._run_coro(message.message_id, actor.__post_create__())
+            except BaseException:
+                # creation failed, do not leave a half-created actor
+                if self._actors.get(actor_id) is actor:
+                    del self._actors[actor_id]
+                raise
 
             proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
@@ -919,7 +925,7 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         result = await super().create_actor(message)
-        if not message.from_main:
+        if isinstance(result, ResultMessage) and not message.from_main:
             await self.notify_main_pool_to_create(message)
         return result
 
-- 
2.43.0


From 69aaa075bc62b32adb08b2b2f6c33ad420554212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 04/79] fix: concurrent destroys of one actor run
 __pre_destroy__ once

---
 python/xoscar/backends/pool.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 2a06c45..fb7ed8c 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -146,6 +146,7 @@ class AbstractActorPool(ABC):
         "_config",
         "_stopped",
         "_actors",
+        "_destroying_actors",
         "_caller",
         "_process_messages",
         "_asyncio_task_timeout_detector_task",
@@ -185,6 +186,8 @@ class AbstractActorPool(ABC):
         # states
         # actor id -> actor
         self._actors: dict[bytes, Actor] = dict()
+        # actors whose `__pre_destroy__` is running
+        self._destroying_actors: dict[bytes, asyncio.Event] = dict()
         # message id -> future
         self._process_messages = dict()
 
@@ -654,12 +657,20 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             self.external_address, message.message_id, message.protocol
         ) as processor:
             actor_id = message.actor_ref.uid
+            while actor_id in self._destroying_actors:
+                # being destroyed by another request, see how that ends
+                await self._destroying_actors[actor_id].wait()
             try:
                 actor = self._actors[actor_id]
             except KeyError:
                 raise ActorNotExist(f"Actor {actor_id} does not exist")
-            await self._run_coro(message.message_id, actor.__pre_destroy__())
-            del self._actors[actor_id]
+            destroyed = self._destroying_actors[actor_id] = asyncio.Event()
+            try:
+                await self._run_coro(message.message_id, actor.__pre_destroy__())
+                self._actors.pop(actor_id, None)
+            finally:
+                del self._destroying_actors[actor_id]
+                destroyed.set()
 
             processor.result = ResultMessage(
                 message.message_id, actor_id, protocol=message.protocol
@@ -1122,7 +1133,7 @@ class MainActorPoolBase(ActorPoolBase):
             result = await super().destroy_actor(message)
             if result.message_type == MessageType.error:
                 return result
-            del self._allocated_actors[self.external_address][real_actor_ref]
+            self._allocated_actors[self.external_address].pop(real_actor_ref, None)
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-- 
2.43.0


From 6635f0080c53dc4e0d94137a5db30cfedf6fdda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 05/79] fix: forget an actor of a sub pool only after it is
 destroyed

---
 python/xoscar/backends/pool.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index fb7ed8c..1673bb5 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1137,15 +1137,22 @@ class MainActorPoolBase(ActorPoolBase):
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-        # remove allocated actor ref
-        self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
+        allocated = self._allocated_actors[real_actor_ref.address]
+        allocation = allocated.get(real_actor_ref)
         new_destroy_message = DestroyActorMessage(
             message.message_id,
             real_actor_ref,
             from_main=True,
             protocol=message.protocol,
         )
-        return await self.call(real_actor_ref.address, new_destroy_message)
+        result = await self.call(real_actor_ref.address, new_destroy_message)
+        if (
+            isinstance(result, ResultMessage)
+            or issubclass(result.error_type, ActorNotExist)
+        ) and allocated.get(real_actor_ref) is allocation:
+            # remove allocated actor ref, unless it is created again meanwhile
+            allocated.pop(real_actor_ref, None)
+        return result
 
     @implements(AbstractActorPool.send)
     async def send(self, message: SendMessage) -> ResultMessageType:
-- 
2.43.0


From 972cac86e43df1858967790db36ec648446453a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 06/79] fix: every pending creation occupies its own label
 placeholder

---
 python/xoscar/backends/pool.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 1673bb5..4d18007 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1061,7 +1061,7 @@ class MainActorPoolBase(ActorPoolBase):
             address=self.external_address,
             message_id=message.message_id,
             protocol=message.protocol,
-        ) as processor:
+        ) as processor, contextlib.ExitStack() as stack:
             allocate_strategy = message.allocate_strategy
             with self._allocation_lock:
                 # get allocated address according to corresponding strategy
@@ -1069,7 +1069,15 @@ class MainActorPoolBase(ActorPoolBase):
                     self._config, self._allocated_actors
                 )
                 # set placeholder to make sure this label is occupied
-                self._allocated_actors[address][None] = (allocate_strategy, message)
+                placeholder: Any = object()
+                self._allocated_actors[address][placeholder] = (
+                    allocate_strategy,
+                    message,
+                )
+                # revert placeholder finally
+                stack.callback(
+                    self._allocated_actors[address].pop, placeholder, None
+                )
             if address == self.external_address:
                 # creating actor on main actor pool
                 result = await super().create_actor(message)
@@ -1102,9 +1110,6 @@ class MainActorPoolBase(ActorPoolBase):
                     )
                 processor.result = result
 
-            # revert placeholder
-            self._allocated_actors[address].pop(None, None)
-
         return processor.result
 
     @implements(AbstractActorPool.has_actor)
-- 
2.43.0


From 6a70bee08dad599fc0d54cec93bba0bc4e1013f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 07/79] fix: actors can be allocated to sub pools appended
 later

---
 python/xoscar/backends/indigen/pool.py | 1 +
 python/xoscar/backends/pool.py         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 9254bf6..1571cbd 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -410,6 +410,7 @@ class MainActorPool(MainActorPoolBase):
         process = self.sub_processes[external_address]
         process_index = self._config.get_process_index(external_address)
         del self.sub_processes[external_address]
+        self._allocated_actors.pop(external_address, None)
         self._config.remove_pool_config(process_index)
         await self.stop_sub_pool(external_address, process, timeout, force)
 
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 4d18007..389f22a 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1409,6 +1409,8 @@ class MainActorPoolBase(ActorPoolBase):
 
     def attach_sub_process(self, external_address: str, process: SubProcessHandle):
         self.sub_processes[external_address] = process
+        # pools appended later are not known yet
+        self._allocated_actors.setdefault(external_address, dict())
 
     async def stop_sub_pools(self):
         to_stop_processes: dict[str, SubProcessHandle] = dict()  # type: ignore
-- 
2.43.0


From f50f9a2a6997e6b06a9ec3c083afe0d32e2ed137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 08/79] fix: monitor an appended first sub pool, forget one
 that failed to start

---
 python/xoscar/backends/indigen/pool.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 1571cbd..a5bf0fd 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -387,9 +387,14 @@ class MainActorPool(MainActorPoolBase):
             kwargs,
         )
 
-        process, external_addresses = await self._create_sub_pool_from_parent(
-            self._config, process_index, start_python
-        )
+        try:
+            process, external_addresses = await self._create_sub_pool_from_parent(
+                self._config, process_index, start_python
+            )
+        except BaseException:
+            # not started, do not leave it in config
+            self._config.remove_pool_config(process_index)
+            raise
 
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
@@ -401,6 +406,8 @@ class MainActorPool(MainActorPoolBase):
             content=self._config,
         )
         await self.handle_control_command(control_message)
+        # the first sub pool of a main pool created without any
+        await self.start_monitor()
         # The actual port will return in process_status.
         return external_addresses[0]
 
-- 
2.43.0


From 6a6cdfb9a2d496733ccff8afdd631a2cecc68e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 09/79] fix: recover all actors though others are created
 meanwhile

---
 python/xoscar/backends/indigen/pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index a5bf0fd..a0e14cf 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -509,7 +509,8 @@ class MainActorPool(MainActorPoolBase):
 
         if self._auto_recover == "actor":
             # need to recover all created actors
-            for _, message in self._allocated_actors[address].values():
+            # copy as actors may be created or destroyed meanwhile
+            for _, message in list(self._allocated_actors[address].values()):
                 create_actor_message: CreateActorMessage = message  # type: ignore
                 await self.call(address, create_actor_message)
 
-- 
2.43.0


From 50f09130c479ca858638611ba526616f13831d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 10/79] fix: process indexes of different processes never
 collide

---
 python/xoscar/backends/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 389f22a..3c0600e 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1049,7 +1049,7 @@ class MainActorPoolBase(ActorPoolBase):
         # make sure different processes does not share process indexes
         pid = os.getpid()
         for idx in cls._process_index_gen:
-            yield pid << 16 + idx
+            yield (pid << 16) + idx
 
     @property
     def _sub_processes(self):
-- 
2.43.0


From ce63f80223b1af4527b1cfece81e999a0e289846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 11/79] fix: never give one id to two serialized objects

---
 python/xoscar/serialization/core.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index bf3bf56..c63cff7 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -597,6 +597,7 @@ cdef class _SerialStackItem:
 
 cdef class _IdContextHolder:
     cdef unordered_map[uint64_t, uint64_t] d
+    cdef uint64_t next_id
 
 
 cdef int _COMMON_HEADER_LEN = 4
@@ -624,7 +625,8 @@ cdef tuple _serial_single(
                 ordered_id = id_context_holder.d[obj_id]
             else:
                 obj_id = _fast_id(obj)
-                ordered_id = id_context_holder.d.size()
+                ordered_id = id_context_holder.next_id
+                id_context_holder.next_id += 1
                 id_context_holder.d[obj_id] = ordered_id
 
             # REMEMBER to change _COMMON_HEADER_LEN when content of
-- 
2.43.0


From 8704e1b50c69b38fb723bf6534ea2b1bd19e61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 12/79] fix: deserialize Counter and the like as mappings

---
 python/xoscar/serialization/core.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index c63cff7..81d04fa 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -514,7 +514,8 @@ cdef class DictSerializer(CollectionSerializer):
             ret = dict(zip(keys, values))
         else:
             try:
-                ret = obj_type(zip(keys, values))
+                # as a mapping, since e.g. Counter counts items of an iterable
+                ret = obj_type(dict(zip(keys, values)))
             except TypeError:
                 # first arg of defaultdict is a callable
                 ret = obj_type()
-- 
2.43.0


From ad6e23bf178c470ccfc88952ac06eeff3a0d9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 13/79] fix: serialize subclasses of ndarray with their own
 state

---
 python/xoscar/serialization/numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/numpy.py b/python/xoscar/serialization/numpy.py
index b5fb2c4..590f8a4 100644
--- a/python/xoscar/serialization/numpy.py
+++ b/python/xoscar/serialization/numpy.py
@@ -24,7 +24,8 @@ class NDArraySerializer(Serializer):
     @buffered
     def serial(self, obj: np.ndarray, context: Dict):
         header: dict = {}
-        if obj.dtype.hasobject:
+        if obj.dtype.hasobject or type(obj) is not np.ndarray:
+            # subclasses, e.g. masked arrays, have states besides the data
             header["pickle"] = True
             buffers = pickle_buffers(obj)
             return (header,), buffers, True
-- 
2.43.0


From ca81a1760958636d1fd98af613b187c357ef5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 14/79] fix: a cancelled call does not leave the others of its
 client pending forever

---
 python/xoscar/backends/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index e3ca09d..77a84ef 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -112,12 +112,15 @@ class ActorCallerThreadLocal:
                 except DeserializeMessageFailed as e:
                     message_id = e.message_id
                     future = self._client_to_message_futures[client].pop(message_id)
-                    future.set_exception(e.__cause__)  # type: ignore
+                    if not future.done():
+                        future.set_exception(e.__cause__)  # type: ignore
                 except Exception as e:  # noqa: E722  # pylint: disable=bare-except
                     message_futures = self._client_to_message_futures[client]
                     self._client_to_message_futures[client] = dict()
                     for future in message_futures.values():
-                        future.set_exception(copy.copy(e))
+                        # may be cancelled
+                        if not future.done():
+                            future.set_exception(copy.copy(e))
                 finally:
                     # message may have Ray ObjectRef, delete it early in case next loop doesn't run
                     # as soon as expected.
@@ -135,7 +138,8 @@ class ActorCallerThreadLocal:
             self._client_to_message_futures[client] = dict()
             error = ServerClosed(f"Remote server {client.dest_address} closed")
             for future in message_futures.values():
-                future.set_exception(copy.copy(error))
+                if not future.done():
+                    future.set_exception(copy.copy(error))
         finally:
             try:
                 await client.close()
-- 
2.43.0


From 1e587a217e7230e39ea5f125fefbc63fa36c39db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 15/79] fix: cancelling wait_for cancels what it waits for

---
 python/xoscar/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index a290bb4..f301502 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -206,7 +206,7 @@ async def wait_for(fut: Awaitable[Any], timeout: int | float | None = None) -> A
 
     try:
         return await asyncio.wait_for(new_fut, timeout)
-    except asyncio.TimeoutError:
+    except (asyncio.TimeoutError, asyncio.CancelledError):
         if not task.done():
             try:
                 task.cancel()  # Try to cancel without waiting
-- 
2.43.0


From 429e3881cebab640bd68f3b8e57b283cdd298ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 16/79] fix: an actor created again during its destroy is not
 destroyed by main pool

---
 python/xoscar/backends/pool.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 3c0600e..a0e2c6d 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -922,7 +922,12 @@ class SubActorPoolBase(ActorPoolBase):
     async def notify_main_pool_to_destroy(
         self, message: DestroyActorMessage
     ):  # pragma: no cover
-        await self.call(self._main_address, message)
+        destroyed_message = DestroyActorMessage(
+            new_message_id(),
+            ActorRef(self.external_address, message.actor_ref.uid),
+            protocol=message.protocol,
+        )
+        await self.call(self._main_address, destroyed_message)
 
     async def notify_main_pool_to_create(self, message: CreateActorMessage):
         reg_message = ControlMessage(
@@ -1143,6 +1148,13 @@ class MainActorPoolBase(ActorPoolBase):
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
         allocated = self._allocated_actors[real_actor_ref.address]
+        if message.actor_ref.address == real_actor_ref.address:
+            # notified by the sub pool which has destroyed it,
+            # if called back, an actor created again meanwhile would be destroyed
+            allocated.pop(real_actor_ref, None)
+            return ResultMessage(
+                message.message_id, real_actor_ref.uid, protocol=message.protocol
+            )
         allocation = allocated.get(real_actor_ref)
         new_destroy_message = DestroyActorMessage(
             message.message_id,
-- 
2.43.0


From 42e6c95f395013232b509d233f5ac4e61f769d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 17/79] fix: an actor destroyed while being created is not
 listed by main pool

---
 python/xoscar/backends/pool.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index a0e2c6d..d6ed4a4 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -633,6 +633,11 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
                 if self._actors.get(actor_id) is actor:
                     del self._actors[actor_id]
                 raise
+            if self._actors.get(actor_id) is not actor:
+                # or main pool would list an actor that does not exist
+                raise ActorNotExist(
+                    f"Actor {actor_id!r} was destroyed while being created"
+                )
 
             proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
-- 
2.43.0


From 87b09a14b829575a237a784c8abd97566d357e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 18/79] fix: do not keep an actor listed that was created and
 destroyed meanwhile

---
 python/xoscar/backends/pool.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index d6ed4a4..340aa87 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1160,7 +1160,6 @@ class MainActorPoolBase(ActorPoolBase):
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-        allocation = allocated.get(real_actor_ref)
         new_destroy_message = DestroyActorMessage(
             message.message_id,
             real_actor_ref,
@@ -1168,11 +1167,10 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
         )
         result = await self.call(real_actor_ref.address, new_destroy_message)
-        if (
-            isinstance(result, ResultMessage)
-            or issubclass(result.error_type, ActorNotExist)
-        ) and allocated.get(real_actor_ref) is allocation:
-            # remove allocated actor ref, unless it is created again meanwhile
+        if isinstance(result, ResultMessage) or issubclass(
+            result.error_type, ActorNotExist
+        ):
+            # remove allocated actor ref
             allocated.pop(real_actor_ref, None)
         return result
 
-- 
2.43.0


From 0012d365051085804c8a84ed1af16637ef6f2194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 19/79] fix: cancelling what main pool passes on to a sub pool
 cancels it there

---
 python/xoscar/backends/pool.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 340aa87..4826f3e 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1065,6 +1065,23 @@ class MainActorPoolBase(ActorPoolBase):
     def _sub_processes(self):
         return self.sub_processes
 
+    async def _call_sub_pool(
+        self, address: str, message: _MessageBase
+    ) -> ResultMessageType:
+        future = await self._caller.call(self._router, address, message, wait=False)  # type: ignore
+        try:
+            return await asyncio.shield(future)
+        except asyncio.CancelledError:
+            # cancel it in sub pool as well, and see how that ends
+            cancel_message = CancelMessage(
+                new_message_id(),
+                address,
+                message.message_id,
+                protocol=message.protocol,
+            )
+            await self.call(address, cancel_message)
+            return await future
+
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         with _ErrorProcessor(
@@ -1112,7 +1129,7 @@ class MainActorPoolBase(ActorPoolBase):
                     protocol=message.protocol,
                     message_trace=message.message_trace,
                 )
-                result = await self.call(address, new_create_actor_message)
+                result = await self._call_sub_pool(address, new_create_actor_message)
                 if isinstance(result, ResultMessage):
                     self._allocated_actors[address][result.result] = (
                         allocate_strategy,
@@ -1166,7 +1183,7 @@ class MainActorPoolBase(ActorPoolBase):
             from_main=True,
             protocol=message.protocol,
         )
-        result = await self.call(real_actor_ref.address, new_destroy_message)
+        result = await self._call_sub_pool(real_actor_ref.address, new_destroy_message)
         if isinstance(result, ResultMessage) or issubclass(
             result.error_type, ActorNotExist
         ):
@@ -1192,7 +1209,7 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
             message_trace=message.message_trace,
         )
-        return await self.call(actor_ref.address, new_send_message)
+        return await self._call_sub_pool(actor_ref.address, new_send_message)
 
     @implements(AbstractActorPool.tell)
     async def tell(self, message: TellMessage) -> ResultMessageType:
@@ -1212,7 +1229,7 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
             message_trace=message.message_trace,
         )
-        return await self.call(actor_ref.address, new_tell_message)
+        return await self._call_sub_pool(actor_ref.address, new_tell_message)
 
     @implements(AbstractActorPool.actor_ref)
     async def actor_ref(self, message: ActorRefMessage) -> ResultMessageType:
-- 
2.43.0


From 556810dd890813fc84b2a7fde6e1de903700ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 20/79] fix: several tasks or futures can be returned in a
 tuple

---
 python/xoscar/core.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index e109627..1611d72 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -431,7 +431,7 @@ cdef class _BaseActor:
                 else:
                     result = tuple(task_result if t is coros[0] else t for t in values)
             elif len(coros) > 0:
-                tasks = [asyncio.create_task(t) for t in coros]
+                tasks = [asyncio.ensure_future(t) for t in coros]
                 try:
                     dones, pending = await asyncio.wait(tasks)
                 except asyncio.CancelledError:
-- 
2.43.0


From 092649a5d0e9d62446547b1bf894f663abecf9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 21/79] fix: a batch of an actor waits for all its calls even
 if some fail

---
 python/xoscar/batch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 82f8c25..4fb787b 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -156,11 +156,14 @@ class _ExtensibleWrapper(_ExtensibleCallable):
                 asyncio.create_task(self.func(*args, **kwargs))
                 for args, kwargs in zip(args_list, kwargs_list)
             ]
+            # wait for all calls even if some fail,
+            # or the rest would go on without the lock of the actor
             try:
-                return await asyncio.gather(*tasks)
+                await asyncio.wait(tasks)
             except asyncio.CancelledError:
                 _ = [task.cancel() for task in tasks]
-                return await asyncio.gather(*tasks)
+                await asyncio.wait(tasks)
+            return await asyncio.gather(*tasks)
 
     def _sync_batch(self, args_list, kwargs_list):
         if len(args_list) == 0:
-- 
2.43.0


From 21b7af47d61b689e13d34802d6ee5bd2de451cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 22/79] fix: the end of a generator is not told by the text of
 an error

---
 python/xoscar/api.py    | 10 ++++------
 python/xoscar/errors.py |  4 ++++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index f301502..f635973 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -42,6 +42,7 @@ from .aio import AioFileObject
 from .backend import get_backend
 from .context import get_context
 from .core import ActorRef, BufferRef, FileObjectRef, _Actor, _StatelessActor
+from .errors import GeneratorExhausted
 
 if TYPE_CHECKING:
     from .backends.config import ActorPoolConfig
@@ -372,11 +373,8 @@ class IteratorWrapper(Generic[T]):
         try:
             assert self._actor_ref is not None
             return await self._actor_ref.__xoscar_next__(self._uid)
-        except Exception as e:
-            if "StopIteration" in str(e):
-                raise StopAsyncIteration
-            else:
-                raise
+        except GeneratorExhausted:
+            raise StopAsyncIteration
 
 
 class AsyncActorMixin:
@@ -466,7 +464,7 @@ class AsyncActorMixin:
             if r is stop:
                 await self.__xoscar_destroy_generator__(generator_uid)
                 del gen  # Avoid exception hold generator reference.
-                raise Exception("StopIteration")
+                raise GeneratorExhausted("StopIteration")
             else:
                 return r
         else:
diff --git a/python/xoscar/errors.py b/python/xoscar/errors.py
index 2fe4798..02b169a 100644
--- a/python/xoscar/errors.py
+++ b/python/xoscar/errors.py
@@ -54,6 +54,10 @@ class CannotCancelTask(XoscarError):
     pass
 
 
+class GeneratorExhausted(XoscarError):
+    pass
+
+
 class SendMessageFailed(XoscarError):
     pass
 
-- 
2.43.0


From 31e3812215fba00ab9bf59eeec2ccb6aa283c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 23/79] fix: giving up a generator never blocks the event loop

---
 python/xoscar/api.py | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index f635973..337b7d3 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -31,6 +31,7 @@ from typing import (
     Generic,
     List,
     Optional,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -41,7 +42,15 @@ from urllib.parse import urlparse
 from .aio import AioFileObject
 from .backend import get_backend
 from .context import get_context
-from .core import ActorRef, BufferRef, FileObjectRef, _Actor, _StatelessActor
+from .core import (
+    ActorRef,
+    BufferRef,
+    FileObjectRef,
+    _Actor,
+    _StatelessActor,
+    create_actor_ref,
+    no_lock,
+)
 from .errors import GeneratorExhausted
 
 if TYPE_CHECKING:
@@ -328,6 +337,17 @@ def setup_cluster(address_to_resources: Dict[str, Dict[str, Number]]):
 T = TypeVar("T")
 
 
+_destroy_generator_tasks: Set[asyncio.Task] = set()
+
+
+async def _tell_destroy_generator(actor_addr: str, actor_uid: str, uid: str):
+    try:
+        ref = create_actor_ref(actor_addr, actor_uid)
+        await ref.__xoscar_destroy_generator__.tell(uid)
+    except Exception:
+        logger.debug("Failed to destroy generator: %s", uid, exc_info=True)
+
+
 class IteratorWrapper(Generic[T]):
     def __init__(self, uid: str, actor_addr: str, actor_uid: str):
         self._uid = uid
@@ -345,10 +365,23 @@ class IteratorWrapper(Generic[T]):
         return await self._actor_ref.__xoscar_destroy_generator__(self._uid)
 
     def __del__(self):
-        # It's not a good idea to spawn a new thread and join in __del__,
-        # but currently it's the only way to GC the generator.
-        # TODO(codingl2k1): This __del__ may hangs if the program is exiting.
-        if self._gc_destroy:
+        if not self._gc_destroy:
+            return
+        try:
+            loop = asyncio.get_running_loop()
+        except RuntimeError:
+            loop = None
+        if loop is not None:
+            # Do not block the event loop, the actor may need it to answer.
+            task = loop.create_task(
+                _tell_destroy_generator(self._actor_addr, self._actor_uid, self._uid)
+            )
+            _destroy_generator_tasks.add(task)
+            task.add_done_callback(_destroy_generator_tasks.discard)
+        else:
+            # It's not a good idea to spawn a new thread and join in __del__,
+            # but currently it's the only way to GC the generator.
+            # TODO(codingl2k1): This __del__ may hangs if the program is exiting.
             thread = threading.Thread(
                 target=asyncio.run, args=(self.destroy(),), daemon=True
             )
@@ -470,6 +503,7 @@ class AsyncActorMixin:
         else:
             raise RuntimeError(f"No iterator with id: {generator_uid}")
 
+    @no_lock
     async def __xoscar_destroy_generator__(self, generator_uid: str):
         """
         Destroy the generator.
-- 
2.43.0


From 883c4a16ca6f355e9e02c4827656e783ed3f6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 24/79] fix: a batch implementation that returns nothing can be
 called singly

---
 python/xoscar/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 4fb787b..8fba17c 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -112,7 +112,8 @@ class _ExtensibleCallable:
             self.has_single_func = False
 
         if self.batch_func is not None:
-            return self.batch_func([args], [kwargs])[0]
+            ret = self.batch_func([args], [kwargs])
+            return None if ret is None else ret[0]
         raise NotImplementedError
 
 
-- 
2.43.0


From 4d3eb410e37e8720782ac9966def8e580bc4f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 25/79] fix: local batches refuse calls of several methods as
 remote ones do

---
 python/xoscar/core.pyx | 71 ++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 1611d72..0b69031 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -162,6 +162,37 @@ cdef class _DelayedArgument:
         self.arguments = arguments
 
 
+cdef tuple _collect_delays(object method_name, tuple delays):
+    cdef:
+        long n_delays = len(delays)
+        bint has_kw = False
+        list args_list
+        list kwargs_list
+        _DelayedArgument delay
+
+    args_list = [None] * n_delays
+    kwargs_list = [None] * n_delays
+
+    last_method = None
+    for idx in range(n_delays):
+        delay = delays[idx]
+        method, _call_method, args, kwargs = delay.arguments
+        if last_method is not None and method != last_method:
+            raise ValueError('Does not support calling multiple methods in batch')
+        last_method = method
+
+        args_list[idx] = args
+        kwargs_list[idx] = kwargs
+        if kwargs:
+            has_kw = True
+
+    if not has_kw:
+        kwargs_list = None
+    if last_method is None:
+        last_method = method_name
+    return last_method, args_list, kwargs_list
+
+
 cdef class ActorRefMethod:
     """
     Wrapper for an Actor method at client
@@ -194,34 +225,7 @@ cdef class ActorRefMethod:
         return _DelayedArgument(arg_tuple)
 
     def batch(self, *delays, send=True):
-        cdef:
-            long n_delays = len(delays)
-            bint has_kw = False
-            list args_list
-            list kwargs_list
-            _DelayedArgument delay
-
-        args_list = [None] * n_delays
-        kwargs_list = [None] * n_delays
-
-        last_method = None
-        for idx in range(n_delays):
-            delay = delays[idx]
-            method, _call_method, args, kwargs = delay.arguments
-            if last_method is not None and method != last_method:
-                raise ValueError('Does not support calling multiple methods in batch')
-            last_method = method
-
-            args_list[idx] = args
-            kwargs_list[idx] = kwargs
-            if kwargs:
-                has_kw = True
-
-        if not has_kw:
-            kwargs_list = None
-        if last_method is None:
-            last_method = self.method_name
-
+        last_method, args_list, kwargs_list = _collect_delays(self.method_name, delays)
         message = (last_method, CALL_METHOD_BATCH, (args_list, kwargs_list), None)
         return get_context().send(self.ref, message, wait_response=send, **self._options)
 
@@ -334,12 +338,19 @@ cdef class LocalActorRefMethod:
 
     def delay(self, *args, **kwargs):
         actor, method = self._get_referent()
-        return method.delay(*args, **kwargs)
+        arg_tuple = (self._method_name, CALL_METHOD_DEFAULT, args, kwargs)
+        return _DelayedArgument(arg_tuple)
 
     def batch(self, *delays, send=True):
         actor, method = self._get_referent()
+        method_name, args_list, kwargs_list = _collect_delays(self._method_name, delays)
+        if method_name != self._method_name:
+            method = getattr(actor, method_name)
+        if kwargs_list is None:
+            kwargs_list = [{}] * len(args_list)
         coro = _actor_method_wrapper(
-            method.batch, actor._handle_actor_result, (<_BaseActor>actor)._lock, delays, dict())
+            method.call_with_lists, actor._handle_actor_result, (<_BaseActor>actor)._lock,
+            (args_list, kwargs_list), dict())
         if send:
             return coro
         else:
-- 
2.43.0


From b39f4dbb2d1afa87e0919c6e6333f916a4d668a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 26/79] fix: local references never reach an actor that was
 destroyed

---
 python/xoscar/core.pyx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 0b69031..9c7454e 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -63,6 +63,10 @@ cdef _get_local_actor(address, uid):
     # disabled the local actor proxy if the debug option is on.
     if _log_cycle_send:
         return None
+    return _find_local_actor(address, uid)
+
+
+cdef _find_local_actor(address, uid):
     pool_ref = _local_pool_map.get(address)
     pool = None if pool_ref is None else pool_ref()
     if pool is not None:
@@ -253,7 +257,11 @@ cdef class LocalActorRef(ActorRef):
         self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
 
     cdef _weakref_local_actor(self):
-        actor = _get_local_actor(self.address, self.uid)
+        # Ask the pool even if the weakref is alive, the actor may be destroyed
+        # or created again while something still references the old one.
+        actor = _find_local_actor(self.address, self.uid)
+        if actor is not None and actor is self._actor_weakref():
+            return actor
         # Make sure the input actor is an instance of _BaseActor.
         if actor is not None and isinstance(actor, _BaseActor):
             self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
@@ -264,7 +272,7 @@ cdef class LocalActorRef(ActorRef):
         try:
             return self._methods[item]
         except KeyError:
-            actor = self._actor_weakref() or self._weakref_local_actor()
+            actor = self._weakref_local_actor()
             if actor is None:
                 raise ActorNotExist(f"Actor {self.uid} does not exist") from None
             # For detecting the attribute error.
@@ -310,7 +318,7 @@ cdef class LocalActorRefMethod:
         self._method_name = method_name
 
     cdef tuple _get_referent(self):
-        actor = self._local_actor_ref._actor_weakref() or self._local_actor_ref._weakref_local_actor()
+        actor = self._local_actor_ref._weakref_local_actor()
         if actor is None:
             raise ActorNotExist(f"Actor {self._local_actor_ref.uid} does not exist.")
         method = getattr(actor, self._method_name)
-- 
2.43.0


From 2fbd395122f66bcb7fdd83e843a9ca32e60dd017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 27/79] fix: an actor is recovered with the arguments it was
 created with

---
 python/xoscar/backends/pool.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 4826f3e..be86cee 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -42,6 +42,7 @@ from ..errors import (
     ServerClosed,
 )
 from ..metrics import init_metrics
+from ..serialization import deserialize, serialize_with_spawn
 from ..utils import implements, is_zero_ip, register_asyncio_task_timeout_detector
 from .allocate_strategy import AddressSpecified, allocated_type
 from .communication import (
@@ -945,9 +946,14 @@ class SubActorPoolBase(ActorPoolBase):
 
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
+        if message.from_main:
+            return await super().create_actor(message)
+        # the actor may modify its arguments, but has to be recovered
+        # with the ones it was created with
+        serialized = await serialize_with_spawn(message)
         result = await super().create_actor(message)
-        if isinstance(result, ResultMessage) and not message.from_main:
-            await self.notify_main_pool_to_create(message)
+        if isinstance(result, ResultMessage):
+            await self.notify_main_pool_to_create(deserialize(*serialized))
         return result
 
     @implements(AbstractActorPool.actor_ref)
-- 
2.43.0


From b150283ae0929503ffb48b308652730033677b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 28/79] fix: actors whose class defines uid can be referred to
 locally

---
 python/xoscar/backends/pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index be86cee..2d4f5f0 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -624,6 +624,8 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
                 )
 
             actor = message.actor_cls(*message.args, **message.kwargs)
+            # the class may define a uid of its own, references do not use that
+            actor._set_uid(actor_id)
             actor.uid = actor_id
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
-- 
2.43.0


From bb1f17fd0718563fce7bbc5ca628d41420f67818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 29/79] fix: sub pools and servers do not outlive a start that
 fails

---
 python/xoscar/backends/indigen/pool.py | 52 +++++++++++++++-----------
 python/xoscar/backends/pool.py         | 30 +++++++++++++--
 2 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index a0e14cf..5259c6f 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 import asyncio
 import asyncio.subprocess
 import configparser
+import contextlib
 import itertools
 import logging.config
 import os
@@ -76,6 +77,12 @@ def _shm_get_object(seq: _ShmSeq, shm: shared_memory.SharedMemory):
     return pickle.loads(shm.buf[8 : 8 + size])
 
 
+async def _kill_process(process: asyncio.subprocess.Process):
+    with contextlib.suppress(ProcessLookupError):
+        process.kill()
+    await process.wait()
+
+
 @_register_message_handler
 class MainActorPool(MainActorPoolBase):
     @classmethod
@@ -147,18 +154,18 @@ class MainActorPool(MainActorPoolBase):
 
     @classmethod
     async def wait_sub_pools_ready(cls, create_pool_tasks: List[asyncio.Task]):
-        processes: list[asyncio.subprocess.Process] = []
-        ext_addresses = []
-        error = None
-        for task in create_pool_tasks:
-            process, address = await task
-            processes.append(process)
-            ext_addresses.append(address)
-        if error:
-            for p in processes:
-                # error happens, kill all subprocesses
-                p.kill()
-            raise error
+        try:
+            results = await asyncio.gather(*create_pool_tasks)
+        except BaseException:
+            # error happens, kill all subprocesses
+            for task in create_pool_tasks:
+                task.cancel()
+            for r in await asyncio.gather(*create_pool_tasks, return_exceptions=True):
+                if not isinstance(r, BaseException):
+                    await _kill_process(r[0])
+            raise
+        processes: list[asyncio.subprocess.Process] = [r[0] for r in results]
+        ext_addresses = [r[1] for r in results]
         return processes, ext_addresses
 
     @classmethod
@@ -322,15 +329,18 @@ class MainActorPool(MainActorPoolBase):
                 except asyncio.CancelledError:
                     pass
 
-            _, unfinished = await asyncio.wait(
-                [
-                    asyncio.create_task(process.wait()),
-                    asyncio.create_task(asyncio.to_thread(_get_external_addresses)),
-                ],
-                return_when=asyncio.FIRST_COMPLETED,
-            )
-            for t in unfinished:
-                t.cancel()
+            waits = [
+                asyncio.create_task(process.wait()),
+                asyncio.create_task(asyncio.to_thread(_get_external_addresses)),
+            ]
+            try:
+                await asyncio.wait(waits, return_when=asyncio.FIRST_COMPLETED)
+            except BaseException:
+                await _kill_process(process)
+                raise
+            finally:
+                for t in waits:
+                    t.cancel()
         finally:
             shm.close()
             shm.unlink()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 2d4f5f0..e76f781 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -827,7 +827,18 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             task = asyncio.create_task(server_type.create(server_config))
             create_server_tasks.append(task)
 
-        await asyncio.gather(*create_server_tasks)
+        try:
+            await asyncio.gather(*create_server_tasks)
+        except BaseException:
+            # e.g. address in use, do not leave the other servers listening
+            for task in create_server_tasks:
+                task.cancel()
+            for server in await asyncio.gather(
+                *create_server_tasks, return_exceptions=True
+            ):
+                if isinstance(server, Server):
+                    await server.stop()
+            raise
         return [f.result() for f in create_server_tasks]
 
     @classmethod
@@ -1384,7 +1395,16 @@ class MainActorPoolBase(ActorPoolBase):
                 )
 
         # create main actor pool
-        pool: MainActorPoolType = await super().create(config)
+        try:
+            pool: MainActorPoolType = await super().create(config)
+        except BaseException:
+            # do not leave sub pools that have no main pool
+            for process in processes:
+                if process is not None:
+                    with contextlib.suppress(ProcessLookupError):
+                        process.kill()
+                    await process.wait()
+            raise
         addresses = actor_pool_config.get_external_addresses()[1:]
 
         assert len(addresses) == len(
@@ -1697,5 +1717,9 @@ async def create_actor_pool(
             "on_process_recover": on_process_recover,
         }
     )
-    await pool.start()
+    try:
+        await pool.start()
+    except BaseException:
+        await pool.stop()
+        raise
     return pool
-- 
2.43.0


From f5988eb8b599eb14ce5ad7a6b5b038499e4560f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 30/79] fix: what receives on a closed dummy channel ends

---
 python/xoscar/backends/communication/dummy.py | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/python/xoscar/backends/communication/dummy.py b/python/xoscar/backends/communication/dummy.py
index 4f1ddee..1bda54f 100644
--- a/python/xoscar/backends/communication/dummy.py
+++ b/python/xoscar/backends/communication/dummy.py
@@ -28,6 +28,9 @@ from .base import Channel, ChannelType, Client, Server
 from .core import register_client, register_server
 from .errors import ChannelClosed
 
+# tells the receiver that the channel is closed
+_CLOSED = object()
+
 DEFAULT_DUMMY_ADDRESS = "dummy://0"
 
 logger = logging.getLogger(__name__)
@@ -76,15 +79,23 @@ class DummyChannel(Channel):
     async def recv(self):
         if self._closed.is_set():  # pragma: no cover
             raise ChannelClosed("Channel already closed, cannot write message")
-        try:
-            return await self._in_queue.get()
-        except RuntimeError:
-            if self._closed.is_set():
-                pass
+        message = await self._in_queue.get()
+        if message is _CLOSED:
+            raise EOFError("Channel closed")
+        return message
 
     @implements(Channel.close)
     async def close(self):
+        if self._closed.is_set():
+            return
         self._closed.set()
+        for queue in (self._in_queue, self._out_queue):
+            try:
+                # wake up who is receiving
+                queue.put_nowait(_CLOSED)
+            except RuntimeError:  # pragma: no cover
+                # event loop of the receiver closed
+                pass
 
     @property
     @implements(Channel.closed)
-- 
2.43.0


From ef056fdf8c1ca45d1258f76a0123ff0c2009633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 31/79] fix: a sub pool being appended is not in the config
 before it is started

---
 python/xoscar/backends/config.py       |  7 +++++++
 python/xoscar/backends/indigen/pool.py | 28 +++++++++++---------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index 8b34212..58b8b81 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -36,6 +36,13 @@ class ActorPoolConfig:
         if "proxy" not in self._conf:
             self._conf["proxy"] = dict()
 
+    def copy(self) -> "ActorPoolConfig":
+        """Copy of which pools can be added and removed without changing this one."""
+        conf = self._conf.copy()
+        conf["pools"] = conf["pools"].copy()
+        conf["mapping"] = conf["mapping"].copy()
+        return ActorPoolConfig(conf)
+
     @property
     def n_pool(self):
         return len(self._conf["pools"])
diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 5259c6f..c16a08d 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -384,11 +384,7 @@ class MainActorPool(MainActorPoolBase):
             process_index, external_address
         )
 
-        self._config.add_pool_conf(
-            process_index,
-            label,
-            internal_address,
-            external_address,
+        pool_conf = (
             env,
             modules,
             suspend_sigint,
@@ -396,17 +392,17 @@ class MainActorPool(MainActorPoolBase):
             _logging_conf,
             kwargs,
         )
-
-        try:
-            process, external_addresses = await self._create_sub_pool_from_parent(
-                self._config, process_index, start_python
-            )
-        except BaseException:
-            # not started, do not leave it in config
-            self._config.remove_pool_config(process_index)
-            raise
-
-        self._config.reset_pool_external_address(process_index, external_addresses[0])
+        # the pool is not part of own config until it is started
+        start_config = self._config.copy()
+        start_config.add_pool_conf(
+            process_index, label, internal_address, external_address, *pool_conf
+        )
+        process, external_addresses = await self._create_sub_pool_from_parent(
+            start_config, process_index, start_python
+        )
+        self._config.add_pool_conf(
+            process_index, label, internal_address, external_addresses[0], *pool_conf
+        )
         self.attach_sub_process(external_addresses[0], process)
 
         control_message = ControlMessage(
-- 
2.43.0


From 2aa7f1137fc4720e1598676fb760ce7b51ee629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 32/79] fix: sub pools can be appended and removed though
 another is dead

---
 python/xoscar/backends/pool.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index e76f781..2f29c9b 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1285,6 +1285,13 @@ class MainActorPoolBase(ActorPoolBase):
         return await self.call(message.address, message)
 
     @implements(AbstractActorPool.handle_control_command)
+    async def _sync_sub_pool_config(self, address: str, message: ControlMessage):
+        try:
+            await self.call(address, message)
+        except (ConnectionError, ServerClosed):
+            # process dead, it gets the config when being recovered
+            logger.warning("Sync config to sub pool %s failed", address)
+
     async def handle_control_command(
         self, message: ControlMessage
     ) -> ResultMessageType:
@@ -1305,7 +1312,9 @@ class MainActorPoolBase(ActorPoolBase):
                             message_trace=message.message_trace,
                         )
                         tasks.append(
-                            asyncio.create_task(self.call(addr, control_message))
+                            asyncio.create_task(
+                                self._sync_sub_pool_config(addr, control_message)
+                            )
                         )
                     # call super
                     task = asyncio.create_task(super().handle_control_command(message))
-- 
2.43.0


From fcbcb68a2ecde705d9ffc97d7cec9c78e1055567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 33/79] fix: a sub pool removed while being recovered does not
 come back

---
 python/xoscar/backends/indigen/pool.py | 19 ++++++++++++++++++-
 python/xoscar/backends/pool.py         | 11 +++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index c16a08d..2c97d34 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -425,6 +425,10 @@ class MainActorPool(MainActorPoolBase):
         del self.sub_processes[external_address]
         self._allocated_actors.pop(external_address, None)
         self._config.remove_pool_config(process_index)
+        recover_event = self._recover_events.pop(external_address, None)
+        if recover_event is not None:
+            # it will never be recovered
+            recover_event.set()
         await self.stop_sub_pool(external_address, process, timeout, force)
 
         control_message = ControlMessage(
@@ -511,7 +515,20 @@ class MainActorPool(MainActorPoolBase):
         # process dead, restart it
         # remember always use spawn to recover sub pool
         task = asyncio.create_task(self.start_sub_pool(self._config, process_index))
-        self.sub_processes[address] = (await self.wait_sub_pools_ready([task]))[0][0]
+        process = (await self.wait_sub_pools_ready([task]))[0][0]
+        if address not in self.sub_processes:
+            # removed meanwhile
+            await self.kill_sub_pool(process, force=True)
+            return
+        self.sub_processes[address] = process
+        # config may be changed meanwhile
+        control_message = ControlMessage(
+            message_id=new_message_id(),
+            address=self.external_address,
+            control_message_type=ControlMessageType.sync_config,
+            content=self._config,
+        )
+        await self.call(address, control_message)
 
         if self._auto_recover == "actor":
             # need to recover all created actors
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 2f29c9b..a867e62 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1559,6 +1559,12 @@ class MainActorPoolBase(ActorPoolBase):
             while not self._stopped.is_set():
                 # Copy sub_processes to avoid changes during recover.
                 for address, process in list(self.sub_processes.items()):
+                    if (
+                        address not in self.sub_processes
+                        or self.sub_processes[address] is not process
+                    ):
+                        # removed meanwhile
+                        continue
                     try:
                         recover_events_discovered = address in self._recover_events
                         if not await self.is_sub_pool_alive(
@@ -1572,8 +1578,9 @@ class MainActorPoolBase(ActorPoolBase):
                                 if self._on_process_recover is not None:
                                     self._on_process_recover(self, address)
                         if recover_events_discovered:
-                            event = self._recover_events.pop(address)
-                            event.set()
+                            event = self._recover_events.pop(address, None)
+                            if event is not None:
+                                event.set()
                     except asyncio.CancelledError:
                         raise
                     except RuntimeError as ex:  # pragma: no cover
-- 
2.43.0


From b47bc58da755b5aa4f8b19637103b14c5784d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 34/79] fix: keep default_factory of defaultdict when
 serialized

---
 python/xoscar/serialization/core.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 81d04fa..04189e8 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import datetime
 import enum
 import hashlib
@@ -490,6 +491,8 @@ cdef class DictSerializer(CollectionSerializer):
         value_obj, value_bufs, _ = self._serial_iterable(obj.values())
         if obj_type is dict:
             obj_type = None
+        elif isinstance(obj, collections.defaultdict):
+            obj_type = partial(obj_type, obj.default_factory)
         ser_obj = (key_obj[:-1], value_obj[:-1], len(key_bufs), obj_type)
         return ser_obj, key_bufs + value_bufs, False
 
@@ -517,7 +520,6 @@ cdef class DictSerializer(CollectionSerializer):
                 # as a mapping, since e.g. Counter counts items of an iterable
                 ret = obj_type(dict(zip(keys, values)))
             except TypeError:
-                # first arg of defaultdict is a callable
                 ret = obj_type()
                 ret.update(zip(keys, values))
 
-- 
2.43.0


From b17224117d8985f7cf03c3cbf2fd9928adbe836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 35/79] fix: subclasses of str, bytes, list, tuple and dict are
 serialized as what they are

---
 python/xoscar/serialization/core.pyx | 54 ++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 04189e8..ffd0520 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -316,9 +316,14 @@ cdef class BytesSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is not bytes and type(obj) is not memoryview:
+            # keep the type of subclasses
+            return (True,), pickle_buffers(obj), True
         return (), [obj], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if serialized:
+            return unpickle_buffers(subs)
         return subs[0]
 
 
@@ -332,13 +337,45 @@ cdef class StrSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
-        return (), [(<str>obj).encode()], True
+        if type(obj) is not str:
+            # keep the type of subclasses, for instance enums mixed with str
+            return (True,), pickle_buffers(obj), True
+        # surrogates may exist, for instance in names of files
+        return (), [(<str>obj).encode("utf-8", "surrogatepass")], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if serialized:
+            return unpickle_buffers(subs)
         buffer = subs[0]
         if type(buffer) is memoryview:
             buffer = buffer.tobytes()
-        return buffer.decode()
+        return buffer.decode("utf-8", "surrogatepass")
+
+
+cdef bint _has_own_state(object obj):
+    """Whether a container has states besides its items"""
+    if getattr(obj, "__dict__", None):
+        return True
+    for cls in type(obj).__mro__:
+        if cls.__dict__.get("__slots__"):
+            return True
+    return False
+
+
+cdef bint _restorable_from_items(object obj, object base):
+    """Whether an instance of a subclass can be restored by its type and items"""
+    obj_type = type(obj)
+    if _has_own_state(obj):
+        return False
+    if hasattr(obj_type, "_fields"):
+        # namedtuple
+        return True
+    return (
+        obj_type.__init__ is base.__init__
+        and obj_type.__new__ is base.__new__
+        and obj_type.__reduce__ is base.__reduce__
+        and obj_type.__reduce_ex__ is base.__reduce_ex__
+    )
 
 
 cdef class CollectionSerializer(Serializer):
@@ -389,6 +426,11 @@ cdef class CollectionSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if (
+            type(obj) is not self._obj_type
+            and not _restorable_from_items(obj, self._obj_type)
+        ):
+            return (), pickle_buffers(obj), True
         return self._serial_iterable(obj)
 
     cdef list _deserial_iterable(self, tuple serialized, list subs):
@@ -407,6 +449,9 @@ cdef class TupleSerializer(CollectionSerializer):
     obj_type = tuple
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if not serialized:
+            return unpickle_buffers(subs)
+
         cdef list res = self._deserial_iterable(serialized, subs)
         for v in res:
             assert type(v) is not Placeholder
@@ -424,6 +469,9 @@ cdef class ListSerializer(CollectionSerializer):
     obj_type = list
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if not serialized:
+            return unpickle_buffers(subs)
+
         cdef int64_t idx
         cdef list res = self._deserial_iterable(serialized, subs)
 
@@ -472,6 +520,8 @@ cdef class DictSerializer(CollectionSerializer):
 
         obj_type = type(obj)
 
+        if obj_type is not dict and _has_own_state(obj):
+            return (obj,), [], True
         if obj_type is not dict and obj_type not in self._inspected_inherits:
             inspect_init = inspect.getfullargspec(obj_type.__init__)
             if (
-- 
2.43.0


From 21f48a0f28ab3321cf54e9731ebecc4ff16a8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 36/79] fix: serialize dok matrices

---
 python/xoscar/serialization/scipy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/scipy.py b/python/xoscar/serialization/scipy.py
index 9c83d71..6a95079 100644
--- a/python/xoscar/serialization/scipy.py
+++ b/python/xoscar/serialization/scipy.py
@@ -22,7 +22,7 @@ try:
 except ImportError:  # pragma: no cover
     sps = None
 
-from .core import Serializer, buffered, deserialize, serialize
+from .core import PickleSerializer, Serializer, buffered, deserialize, serialize
 
 
 class CsrMatrixSerializer(Serializer):
@@ -70,3 +70,7 @@ class CsrMatrixSerializer(Serializer):
 
 if sps:  # pragma: no branch
     CsrMatrixSerializer.register(sps.csr_matrix)
+    # these are dicts which cannot be made of their items
+    for _dok_type in ("dok_matrix", "dok_array"):
+        if hasattr(sps, _dok_type):
+            PickleSerializer.register(getattr(sps, _dok_type))
-- 
2.43.0


From 0e565f96dff7345b41cd1d5b4ac74f5cc6184993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 37/79] fix: serialize tensors which are no plain dense ones,
 or have no dimension

---
 python/xoscar/serialization/torch.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/serialization/torch.py b/python/xoscar/serialization/torch.py
index 835aaa9..2ab8d74 100644
--- a/python/xoscar/serialization/torch.py
+++ b/python/xoscar/serialization/torch.py
@@ -17,7 +17,7 @@ from typing import Any, Dict, List, Tuple
 import numpy as np
 
 from ..utils import lazy_import
-from .core import Serializer, buffered
+from .core import Serializer, buffered, pickle_buffers, unpickle_buffers
 
 # lazy import PyTorch to avoid enforced dependency
 torch = lazy_import("torch")
@@ -35,6 +35,16 @@ class TorchTensorSerializer(Serializer):
     def serial(self, obj: "torch.Tensor", context: Dict):  # type: ignore
         # for cpu tensor, use memory viewpoint
         if obj.device.type == "cpu":
+            if (
+                type(obj) is not torch.Tensor
+                or obj.layout != torch.strided
+                or obj.is_quantized
+            ):
+                # have states besides shape and memory
+                header = {"device": "cpu", "format": "pickle"}
+                return (header,), pickle_buffers(obj), True
+            # the memory of lazily conjugated or negated tensors is not their value
+            obj = obj.resolve_conj().resolve_neg()
             # make sure tensor is contiguous
             if not obj.is_contiguous():
                 obj = obj.contiguous()
@@ -56,7 +66,10 @@ class TorchTensorSerializer(Serializer):
             except Exception:
                 # Fallback: copy to uint8 bytes
                 # This works for ANY dtype
-                byte_tensor = obj.view(torch.uint8).clone()  # explicit copy
+                # flat, as the view needs a dimension whose stride is 1
+                flat_tensor = obj.detach().new_empty(obj.numel())
+                flat_tensor.copy_(obj.detach().reshape(-1))  # explicit copy
+                byte_tensor = flat_tensor.view(torch.uint8)
                 np_array = byte_tensor.numpy()
                 buffer = memoryview(np_array)
                 header["format"] = "bytes"
@@ -107,6 +120,8 @@ class TorchTensorSerializer(Serializer):
 
         if device == "cpu":
             fmt = header.get("format", "numpy")
+            if fmt == "pickle":
+                return unpickle_buffers(subs)
             dtype_name = header["dtype"].split(".")[-1]
             dtype = getattr(torch, dtype_name)
 
-- 
2.43.0


From 40e691f80c12a13a55a3c1ff909ab693c3856f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 38/79] fix: an empty dict referred to twice is deserialized as
 one

---
 python/xoscar/serialization/core.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index ffd0520..033e38b 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -510,14 +510,14 @@ cdef class DictSerializer(CollectionSerializer):
         cdef tuple key_obj, value_obj
         cdef list key_bufs, value_bufs
 
-        if type(obj) is dict and len(<dict>obj) == 0:
-            return (), [], True
-
         obj_id = _fast_id(obj)
         if obj_id in context:
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is dict and len(<dict>obj) == 0:
+            return (), [], True
+
         obj_type = type(obj)
 
         if obj_type is not dict and _has_own_state(obj):
-- 
2.43.0


From 35fc2023176ba7f4138b9eec4f94f2ffcd5a96f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 39/79] fix: write memoryviews of any shape and format to
 sockets

---
 python/xoscar/backends/communication/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/xoscar/backends/communication/utils.py b/python/xoscar/backends/communication/utils.py
index df161c2..899da18 100644
--- a/python/xoscar/backends/communication/utils.py
+++ b/python/xoscar/backends/communication/utils.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 
 from asyncio import StreamReader, StreamWriter
+from pickle import PickleBuffer  # nosec  # pylint: disable=import_pickle
 from typing import Dict, List, Union
 
 import numpy as np
@@ -63,6 +64,16 @@ def write_buffers(writer: StreamWriter, buffers: List):
             # GPU buffer
             _write_cuda_buffer(buffer)
         else:
+            if isinstance(buffer, memoryview) and (
+                buffer.ndim != 1 or buffer.itemsize != 1 or not buffer.c_contiguous
+            ):
+                # writers count and slice memoryviews by items of the first
+                # dimension, thus always write flat bytes
+                buffer = (
+                    PickleBuffer(buffer).raw()
+                    if buffer.c_contiguous
+                    else buffer.tobytes()
+                )
             writer.write(buffer)
 
 
-- 
2.43.0


From fa182ca83179120ac60787a8650928d213c2c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 40/79] fix: a message that cannot be deserialized does not
 fail other calls

---
 python/xoscar/backends/pool.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index a867e62..e8e9e51 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -62,6 +62,7 @@ from .message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    DeserializeMessageFailed,
     DestroyActorMessage,
     ErrorMessage,
     ForwardMessage,
@@ -588,6 +589,15 @@ class AbstractActorPool(ABC):
                         # close failed, ignore
                         pass
                     return
+                except DeserializeMessageFailed as e:
+                    # the message has been read completely, hence it fails alone
+                    # and the channel is still fine for others
+                    with _ErrorProcessor(
+                        self.external_address, e.message_id, DEFAULT_PROTOCOL
+                    ) as processor:
+                        raise e.__cause__ or e
+                    asyncio.create_task(self._send_channel(processor.result, channel))
+                    continue
                 if await self._handle_ucx_meta_message(message, channel):
                     continue
                 asyncio.create_task(self.process_message(message, channel))
-- 
2.43.0


From f96bf1cfbeed562f056ae10bdeb1237b75a8ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 41/79] fix: buffers can be changed once they are sent

---
 python/xoscar/backends/communication/socket.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/xoscar/backends/communication/socket.py b/python/xoscar/backends/communication/socket.py
index 77fbdfb..6a10e2b 100644
--- a/python/xoscar/backends/communication/socket.py
+++ b/python/xoscar/backends/communication/socket.py
@@ -66,6 +66,11 @@ class SocketChannel(Channel):
         self.writer = writer
         self._channel_type = channel_type
 
+        # transports may keep the buffers themselves until they are written,
+        # thus drain shall wait for all of them, as whoever sent a buffer
+        # can change it once it is sent
+        writer.transport.set_write_buffer_limits(high=0)
+
         self._send_lock = asyncio.Lock()
         self._recv_lock = asyncio.Lock()
 
-- 
2.43.0


From 00fbdb13bb5cee00bd04c6a3e3c111d28dc870c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 42/79] fix: connections end where reading a message failed

---
 python/xoscar/backends/communication/socket.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/communication/socket.py b/python/xoscar/backends/communication/socket.py
index 6a10e2b..c936b3a 100644
--- a/python/xoscar/backends/communication/socket.py
+++ b/python/xoscar/backends/communication/socket.py
@@ -104,8 +104,13 @@ class SocketChannel(Channel):
     async def recv(self):
         deserializer = AioDeserializer(self.reader)
         async with self._recv_lock:
-            header = await deserializer.get_header()
-            buffers = await read_buffers(header, self.reader)
+            try:
+                header = await deserializer.get_header()
+                buffers = await read_buffers(header, self.reader)
+            except Exception:
+                # where the next message starts is unknown
+                self.writer.close()
+                raise
         return deserialize(header, buffers)
 
     @implements(Channel.close)
-- 
2.43.0


From 1287b0cb3cdf0f8344803615e098b8cd3e482569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 43/79] fix: copy_to raises when the destination fails

---
 python/xoscar/backends/context.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 89582b1..7a6cdee 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -360,10 +360,12 @@ class IndigenActorContext(BaseActorContext):
         client = await self._get_client(address)
         if isinstance(client, UCXClient):
             message = [(buf.address, buf.uid) for buf in remote_buffer_refs]
-            await self._call_send_buffers(
-                client,
-                local_buffers,
-                self._gen_switch_to_copy_to_control_message(message),
+            self._process_result_message(
+                await self._call_send_buffers(
+                    client,
+                    local_buffers,
+                    self._gen_switch_to_copy_to_control_message(message),
+                )
             )
         else:
             # ``local_buffers`` will be divided into buffers of the specified block size for transmission.
@@ -385,8 +387,10 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, remain, l_buf[:remain])
                     )
-                    await self._call_with_client(
-                        client, self._gen_copy_to_buffers_message(one_block_data)
+                    self._process_result_message(
+                        await self._call_with_client(
+                            client, self._gen_copy_to_buffers_message(one_block_data)
+                        )
                     )
                     one_block_data = []
                     current_buf_size = 0
@@ -400,8 +404,10 @@ class IndigenActorContext(BaseActorContext):
                     current_buf_size = len(l_buf)
 
             if one_block_data:
-                await self._call_with_client(
-                    client, self._gen_copy_to_buffers_message(one_block_data)
+                self._process_result_message(
+                    await self._call_with_client(
+                        client, self._gen_copy_to_buffers_message(one_block_data)
+                    )
                 )
 
     async def copy_to_fileobjs(
@@ -425,7 +431,9 @@ class IndigenActorContext(BaseActorContext):
                     current_file_size += len(file_data)
                     if current_file_size >= block_size:
                         message = self._gen_copy_to_fileobjs_message(one_block_data)
-                        await self._call_with_client(client, message)
+                        self._process_result_message(
+                            await self._call_with_client(client, message)
+                        )
                         one_block_data.clear()
                         current_file_size = 0
                 else:
@@ -433,5 +441,7 @@ class IndigenActorContext(BaseActorContext):
 
         if current_file_size > 0:
             message = self._gen_copy_to_fileobjs_message(one_block_data)
-            await self._call_with_client(client, message)
+            self._process_result_message(
+                await self._call_with_client(client, message)
+            )
             one_block_data.clear()
-- 
2.43.0


From 3f4532ac461b972cc35f5d95c2e152ad9b747410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:16 +0000
Subject: [PATCH 44/79] fix: control messages reach pools behind proxies

---
 python/xoscar/backends/core.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index 77a84ef..2a1eb94 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -31,7 +31,6 @@ from .message import (
     DeserializeMessageFailed,
     ErrorMessage,
     ForwardMessage,
-    MessageType,
     ResultMessage,
     _MessageBase,
 )
@@ -217,7 +216,6 @@ class ActorCallerThreadLocal:
         if (
             client.channel_type == ChannelType.remote
             and client.dest_address != dest_address
-            and message.message_type != MessageType.control
         ):
             # wrap message with forward message
             message = ForwardMessage(
-- 
2.43.0


From 88f7ddef8fe86d44c5f25fa46790ed9325e55c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 45/79] fix: cancelling a call takes the way of the call
 through proxies

---
 python/xoscar/backends/context.py | 37 ++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 7a6cdee..b1e0030 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -110,12 +110,20 @@ class IndigenActorContext(BaseActorContext):
         else:
             raise message.as_instanceof_cause()
 
-    async def _wait(self, future: asyncio.Future, address: str, message: _MessageBase):
+    async def _wait(
+        self,
+        future: asyncio.Future,
+        address: str,
+        message: _MessageBase,
+        proxy_addresses: list[str] | None = None,
+    ):
         try:
             await asyncio.shield(future)
         except asyncio.CancelledError:
             try:
-                await self.cancel(address, message.message_id)
+                await self.cancel(
+                    address, message.message_id, proxy_addresses=proxy_addresses
+                )
             except CannotCancelTask:
                 # cancel failed, already finished
                 raise asyncio.CancelledError
@@ -161,7 +169,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(  # type: ignore
+            future, actor_ref.address, message, actor_ref.proxy_addresses
+        )
         return self._process_result_message(result)
 
     async def destroy_actor(self, actor_ref: ActorRef):
@@ -174,7 +184,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(  # type: ignore
+            future, actor_ref.address, message, actor_ref.proxy_addresses
+        )
         return self._process_result_message(result)
 
     async def kill_actor(self, actor_ref: ActorRef, force: bool = True):
@@ -221,7 +233,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)
+        result = await self._wait(  # type: ignore
+            future, actor_ref.address, message, actor_ref.proxy_addresses
+        )
         res = self._process_result_message(result)
         if res.address != connect_addr:
             res.address = fix_all_zero_ip(res.address, connect_addr)
@@ -258,16 +272,23 @@ class IndigenActorContext(BaseActorContext):
                 proxy_addresses=actor_ref.proxy_addresses,
             )
             if wait_response:
-                result = await self._wait(future, actor_ref.address, send_message)  # type: ignore
+                result = await self._wait(  # type: ignore
+                    future, actor_ref.address, send_message, actor_ref.proxy_addresses
+                )
                 return self._process_result_message(result)
             else:
                 return future
 
-    async def cancel(self, address: str, cancel_message_id: bytes):
+    async def cancel(
+        self,
+        address: str,
+        cancel_message_id: bytes,
+        proxy_addresses: list[str] | None = None,
+    ):
         message = CancelMessage(
             new_message_id(), address, cancel_message_id, protocol=DEFAULT_PROTOCOL
         )
-        result = await self._call(address, message)
+        result = await self._call(address, message, proxy_addresses=proxy_addresses)
         return self._process_result_message(result)  # type: ignore
 
     async def wait_actor_pool_recovered(
-- 
2.43.0


From bc57bf934fc8b4ca61120b79141b2389d09e38c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 46/79] fix: ids are unique in forked processes and whatever
 users seed

---
 python/xoscar/_utils.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index d573355..bcc98dc 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -17,10 +17,10 @@
 import collections
 import importlib
 import itertools
+import os
 import time
 import warnings
 from functools import partial
-from random import getrandbits
 from typing import AsyncGenerator
 from weakref import WeakSet
 
@@ -140,11 +140,17 @@ cpdef void reset_id_random_seed() except *:
     cdef bytes seed_bytes
     global _rnd_is_seed_set
 
-    seed_bytes = getrandbits(64).to_bytes(8, "little")
+    # not from `random` which users may seed, ids have to be unique among processes
+    seed_bytes = os.urandom(8)
     _rnd_gen.seed((<uint_fast64_t *><char *>seed_bytes)[0])
     _rnd_is_seed_set = True
 
 
+if hasattr(os, "register_at_fork"):
+    # or forked processes would generate the same ids
+    os.register_at_fork(after_in_child=reset_id_random_seed)
+
+
 cpdef bytes new_random_id(int byte_len):
     cdef uint_fast64_t *res_ptr
     cdef uint_fast64_t res_data[4]
-- 
2.43.0


From 5b0789b862163eaf199042390fa0c2ee82cdabf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 47/79] fix: alru_cache does not keep cancelled computations

---
 python/xoscar/aio/lru.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/xoscar/aio/lru.py b/python/xoscar/aio/lru.py
index 2cdf207..44c9e7a 100644
--- a/python/xoscar/aio/lru.py
+++ b/python/xoscar/aio/lru.py
@@ -177,6 +177,11 @@ def alru_cache(
 
             fut = wrapped._cache.get(key)
 
+            if fut is not None and fut.cancelled():
+                # nothing to share, or every later call would be cancelled
+                wrapped._cache.pop(key)
+                fut = None
+
             if fut is not None:
                 if not fut.done():
                     _cache_hit(wrapped, key)
-- 
2.43.0


From f715b7e84d77fccc39b30391e483b020fd513445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 48/79] fix: no_message_trace restores the trace after errors

---
 python/xoscar/debug.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/debug.py b/python/xoscar/debug.py
index 3372c80..cbd6907 100644
--- a/python/xoscar/debug.py
+++ b/python/xoscar/debug.py
@@ -171,8 +171,10 @@ def no_message_trace():
         yield
     else:
         trace = pop_message_trace()
-        yield
-        set_message_trace(trace)
+        try:
+            yield
+        finally:
+            set_message_trace(trace)
 
 
 def pop_message_trace():
-- 
2.43.0


From 7f62e73b354bf369e18b9ed67400dc3bf430b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 49/79] fix: profiles keep the slowest calls and actors without
 given uids

---
 python/xoscar/profiling.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index b6ec15c..1bd749e 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -16,6 +16,7 @@
 import asyncio
 import copy
 import heapq
+import itertools
 import json
 import logging
 import operator
@@ -134,6 +135,8 @@ class _CallStats:
         self._options = options
         self._call_counter = Counter()
         self._slow_calls = []
+        # decides between calls of the same duration
+        self._slow_call_index = itertools.count()
 
     def collect(self, message, duration: float):
         key = (message.actor_ref.uid, message.content[0])
@@ -142,31 +145,36 @@ class _CallStats:
             return
         slow_call_key = (
             duration,
+            next(self._slow_call_index),
             message.actor_ref.uid,
             message.actor_ref.address,
             message.content,
         )
-        try:
-            if len(self._slow_calls) < 10:
-                heapq.heappush(self._slow_calls, slow_call_key)
-            else:
-                heapq.heapreplace(self._slow_calls, slow_call_key)
-        except TypeError:
-            pass
+        if len(self._slow_calls) < 10:
+            heapq.heappush(self._slow_calls, slow_call_key)
+        else:
+            heapq.heappushpop(self._slow_calls, slow_call_key)
+
+    @staticmethod
+    def _uid_to_str(uid: bytes) -> str:
+        # uids not given by users are random bytes
+        return uid.decode("utf-8", errors="backslashreplace")
 
     def to_dict(self) -> dict:
         most_calls = {}
         for name_tuple, count in self._call_counter.most_common(10):
             uid, method_name = name_tuple
-            most_calls[f"{uid.decode('utf-8')}.{method_name}"] = count
+            most_calls[f"{self._uid_to_str(uid)}.{method_name}"] = count
         slow_calls = {}
-        for duration, uid, address, content in sorted(
+        for duration, _index, uid, address, content in sorted(
             self._slow_calls, key=operator.itemgetter(0), reverse=True
         ):
             method_name, _batch, args, kwargs = content
-            slow_calls[
-                f"[{address}]{uid.decode('utf-8')}.{method_name}(args={args}, kwargs={kwargs})"
-            ] = duration
+            # of equal calls keep the slowest
+            slow_calls.setdefault(
+                f"[{address}]{self._uid_to_str(uid)}.{method_name}(args={args}, kwargs={kwargs})",
+                duration,
+            )
         return {"most_calls": most_calls, "slow_calls": slow_calls}
 
 
-- 
2.43.0


From ada60c983f0147f901d5a866e2199f77655832d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 50/79] fix: recording a metric does not change the caller's
 tags

---
 .../xoscar/metrics/backends/prometheus/prometheus_metric.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
index e5eaa38..5f1b952 100644
--- a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
+++ b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
@@ -47,10 +47,8 @@ class PrometheusMetricMixin(AbstractMetric):
 
     def _record(self, value=1, tags: Optional[Dict[str, str]] = None):
         if self._metric:
-            if tags is not None:
-                tags.update(self._tags)
-            else:
-                tags = self._tags
+            # never change the dict of the caller
+            tags = {**(tags or {}), **self._tags}
             self._metric.labels(**tags).set(value)
 
 
-- 
2.43.0


From f934b199f69df2bcfc9445d09b097efc40c2ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 51/79] fix: a profiling task id can be used again at once

---
 python/xoscar/profiling.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index 1bd749e..ab169de 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -229,7 +229,13 @@ class _ProfilingData:
             self._debug_task[task_id] = task = asyncio.create_task(
                 _debug_profiling_log()
             )
-            task.add_done_callback(lambda _: self._debug_task.pop(task_id, None))
+
+            def _on_debug_task_done(t: asyncio.Task):
+                # the task id may be in use again by now
+                if self._debug_task.get(task_id) is t:
+                    del self._debug_task[task_id]
+
+            task.add_done_callback(_on_debug_task_done)
 
     def pop(self, task_id: str):
         logger.info("Pop profiling data of task %s.", task_id)
-- 
2.43.0


From 18dc89a345a0d0ca7a46f3eecaf2fbb02b6182ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 52/79] fix: an answer nobody waits for any more fails no other
 calls

---
 python/xoscar/backends/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index 2a1eb94..c011a8f 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -103,15 +103,18 @@ class ActorCallerThreadLocal:
                         raise ServerClosed(
                             f"Remote server {client.dest_address} closed: {e}"
                         ) from None
+                    # may be failed already by a message which could not be read
                     future = self._client_to_message_futures[client].pop(
-                        message.message_id
+                        message.message_id, None
                     )
-                    if not future.done():
+                    if future is not None and not future.done():
                         future.set_result(message)
                 except DeserializeMessageFailed as e:
                     message_id = e.message_id
-                    future = self._client_to_message_futures[client].pop(message_id)
-                    if not future.done():
+                    future = self._client_to_message_futures[client].pop(
+                        message_id, None
+                    )
+                    if future is not None and not future.done():
                         future.set_exception(e.__cause__)  # type: ignore
                 except Exception as e:  # noqa: E722  # pylint: disable=bare-except
                     message_futures = self._client_to_message_futures[client]
-- 
2.43.0


From 15384d2740c3ac5cdd3adcb08c30cba37402053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 53/79] fix: dicts with keys that refer back to them keep their
 order

---
 python/xoscar/serialization/core.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 033e38b..249e27e 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -489,7 +489,11 @@ cdef class ListSerializer(CollectionSerializer):
 
 
 def _dict_key_replacer(ret, key, real_key):
-    ret[real_key] = ret.pop(key)
+    # keep the order of items
+    items = [(real_key if k is key else k, v) for k, v in ret.items()]
+    ret.clear()
+    for k, v in items:
+        ret[k] = v
 
 
 def _dict_value_replacer(context, ret, key, real_value):
-- 
2.43.0


From 5dd87125d9a4924b841a105067c45c2ae20285d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 54/79] fix: a stopped server removes its unix socket file

---
 python/xoscar/backends/communication/socket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/communication/socket.py b/python/xoscar/backends/communication/socket.py
index c936b3a..555dfb0 100644
--- a/python/xoscar/backends/communication/socket.py
+++ b/python/xoscar/backends/communication/socket.py
@@ -413,11 +413,12 @@ class UnixSocketServer(_BaseSocketServer):
 
     @implements(Server.stop)
     async def stop(self):
-        await super().stop()
+        # once its connections are closed, the process may be killed at any time
         try:
             os.remove(self.path)
         except OSError:  # pragma: no cover
             pass
+        await super().stop()
 
 
 @register_client
-- 
2.43.0


From 253fc9cce0bbd4004d72511159e862c36858937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 55/79] fix: pending calls end when the loop they wait in is
 shut down

---
 python/xoscar/backends/core.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index c011a8f..b683bad 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -53,7 +53,10 @@ class ActorCallerThreadLocal:
 
     def _listen_client(self, client: Client):
         if client not in self._clients:
-            self._clients[client] = asyncio.create_task(self._listen(client))
+            task = asyncio.create_task(self._listen(client))
+            # no answer comes once it ended, may be cancelled even before it began
+            task.add_done_callback(lambda _: self._fail_pending(client))
+            self._clients[client] = task
             self._client_to_message_futures[client] = dict()
             client_count = len(self._clients)
             if client_count >= 100:  # pragma: no cover
@@ -85,6 +88,14 @@ class ActorCallerThreadLocal:
         self._listen_client(client)
         return client
 
+    def _fail_pending(self, client: Client):
+        message_futures = self._client_to_message_futures[client]
+        self._client_to_message_futures[client] = dict()
+        error = ServerClosed(f"Remote server {client.dest_address} closed")
+        for future in message_futures.values():
+            if not future.done():
+                future.set_exception(copy.copy(error))
+
     async def _listen(self, client: Client):
         try:
             while not client.closed:
@@ -136,12 +147,7 @@ class ActorCallerThreadLocal:
                         pass
                     await asyncio.sleep(0)
 
-            message_futures = self._client_to_message_futures[client]
-            self._client_to_message_futures[client] = dict()
-            error = ServerClosed(f"Remote server {client.dest_address} closed")
-            for future in message_futures.values():
-                if not future.done():
-                    future.set_exception(copy.copy(error))
+            self._fail_pending(client)
         finally:
             try:
                 await client.close()
-- 
2.43.0


From 84813c142b690e76fc62d5d8f9a857c468b3ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:07 +0000
Subject: [PATCH 56/79] fix: the rendezvous store forgets watchers that are
 gone

The server kept sending changes to the descriptors of clients which had
ended. That failed the request of whoever changed the key, or reached a new
client which had got the same descriptor, as an answer nobody had asked for.
---
 cpp/collective/rendezvous/src/tcp_store.cpp | 41 +++++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/cpp/collective/rendezvous/src/tcp_store.cpp b/cpp/collective/rendezvous/src/tcp_store.cpp
index 325555f..0d81bd4 100644
--- a/cpp/collective/rendezvous/src/tcp_store.cpp
+++ b/cpp/collective/rendezvous/src/tcp_store.cpp
@@ -272,6 +272,19 @@ void TCPStoreMasterDaemon::queryFds(std::vector<struct pollfd> &fds) {
                     ++it;
                 }
             }
+            for (auto it = watchedSockets_.begin();
+                 it != watchedSockets_.end();) {
+                auto &watching = it->second;
+                watching.erase(std::remove(watching.begin(),
+                                           watching.end(),
+                                           fds[fdIdx].fd),
+                               watching.end());
+                if (watching.empty()) {
+                    it = watchedSockets_.erase(it);
+                } else {
+                    ++it;
+                }
+            }
             fds.erase(fds.begin() + fdIdx);
             sockets_.erase(sockets_.begin() + fdIdx - CONNECT_SOCKET_OFFSET);
             --fdIdx;
@@ -330,8 +343,13 @@ void TCPStoreMasterDaemon::wakeupWaitingClients(const std::string &key) {
     if (socketsToWait != waitingSockets_.end()) {
         for (int socket : socketsToWait->second) {
             if (--keysAwaited_[socket] == 0) {
-                tcputil::sendValue<WaitResponseType>(
-                    socket, WaitResponseType::STOP_WAITING);
+                try {
+                    tcputil::sendValue<WaitResponseType>(
+                        socket, WaitResponseType::STOP_WAITING);
+                } catch (const std::exception &) {
+                    // The waiting client is gone, which queryFds() will find
+                    // out. That is no failure of the client served now.
+                }
             }
         }
         waitingSockets_.erase(socketsToWait);
@@ -343,11 +361,20 @@ void TCPStoreMasterDaemon::sendKeyUpdatesToClients(
     const enum WatchResponseType &type,
     const std::vector<uint8_t> &oldData,
     const std::vector<uint8_t> &newData) {
-    for (int socket : watchedSockets_[key]) {
-        tcputil::sendValue<WatchResponseType>(socket, type);
-        tcputil::sendString(socket, key, true);
-        tcputil::sendVector<uint8_t>(socket, oldData);
-        tcputil::sendVector<uint8_t>(socket, newData);
+    auto watching = watchedSockets_.find(key);
+    if (watching == watchedSockets_.end()) {
+        return;
+    }
+    for (int socket : watching->second) {
+        try {
+            tcputil::sendValue<WatchResponseType>(socket, type);
+            tcputil::sendString(socket, key, true);
+            tcputil::sendVector<uint8_t>(socket, oldData);
+            tcputil::sendVector<uint8_t>(socket, newData);
+        } catch (const std::exception &) {
+            // The watching client is gone, which queryFds() will find out.
+            // That is no failure of the client served now.
+        }
     }
 }
 
-- 
2.43.0


From 8dab3cd10570b9540498bf5582fa67caf601ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:00 +0000
Subject: [PATCH 57/79] fix: compareSet wakes those who wait for the key it
 creates

wait() and get() returned for keys made by set, add, append and multiSet, but
went on waiting for one made by compareSet.
---
 cpp/collective/rendezvous/src/tcp_store.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/collective/rendezvous/src/tcp_store.cpp b/cpp/collective/rendezvous/src/tcp_store.cpp
index 0d81bd4..16de488 100644
--- a/cpp/collective/rendezvous/src/tcp_store.cpp
+++ b/cpp/collective/rendezvous/src/tcp_store.cpp
@@ -413,6 +413,8 @@ void TCPStoreMasterDaemon::compareSetHandler(int socket) {
         if (currentValue.empty()) {
             tcpStore_[key] = newValue;
 
+            // As on "set", wake up all clients that have been waiting
+            wakeupWaitingClients(key);
             // Send key update to all watching clients
             sendKeyUpdatesToClients(
                 key, WatchResponseType::KEY_CREATED, currentValue, newValue);
-- 
2.43.0


From 1d6388ca604fb4ce4fe19bfc9700b70836770ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:00 +0000
Subject: [PATCH 58/79] fix: a store can be used after a wait of it timed out

The server did not know of the timeout and answered the wait when the key came
to be, which the client read as the answer of whatever it asked then. The
timeout also stayed in force for all later calls, and a wait without timeout
kept that of the one before.
---
 cpp/collective/rendezvous/src/tcp_store.cpp | 85 +++++++++++++--------
 1 file changed, 53 insertions(+), 32 deletions(-)

diff --git a/cpp/collective/rendezvous/src/tcp_store.cpp b/cpp/collective/rendezvous/src/tcp_store.cpp
index 16de488..ea44d68 100644
--- a/cpp/collective/rendezvous/src/tcp_store.cpp
+++ b/cpp/collective/rendezvous/src/tcp_store.cpp
@@ -158,11 +158,12 @@ enum class QueryType : uint8_t {
     APPEND,
     MULTI_GET,
     MULTI_SET,
+    CANCEL_WAIT,
 };
 
 enum class CheckResponseType : uint8_t { READY, NOT_READY };
 
-enum class WaitResponseType : uint8_t { STOP_WAITING };
+enum class WaitResponseType : uint8_t { STOP_WAITING, WAIT_CANCELED };
 
 enum class WatchResponseType : uint8_t {
     KEY_UPDATED,
@@ -194,12 +195,15 @@ private:
     void getNumKeysHandler(int socket) const;
     void deleteHandler(int socket);
     void waitHandler(int socket);
+    void cancelWaitHandler(int socket);
     void watchHandler(int socket);
     void appendHandler(int socket);
     void multiGetHandler(int socket);
     void multiSetHandler(int socket);
 
     bool checkKeys(const std::vector<std::string> &keys) const;
+    // Forgets what a client waits for
+    void clearWaitState(int socket);
     // Helper function to alerts waiting workers, used in setHandler, getHandler
     void wakeupWaitingClients(const std::string &key);
     // Helper function used when the key is changed
@@ -249,29 +253,7 @@ void TCPStoreMasterDaemon::queryFds(std::vector<struct pollfd> &fds) {
             // connection whenever we hit an exception here.
 
             // Remove all the tracking state of the close FD
-            for (auto it = waitingSockets_.begin();
-                 it != waitingSockets_.end();) {
-                for (auto vecIt = it->second.begin();
-                     vecIt != it->second.end();) {
-                    if (*vecIt == fds[fdIdx].fd) {
-                        vecIt = it->second.erase(vecIt);
-                    } else {
-                        ++vecIt;
-                    }
-                }
-                if (it->second.empty()) {
-                    it = waitingSockets_.erase(it);
-                } else {
-                    ++it;
-                }
-            }
-            for (auto it = keysAwaited_.begin(); it != keysAwaited_.end();) {
-                if (it->first == fds[fdIdx].fd) {
-                    it = keysAwaited_.erase(it);
-                } else {
-                    ++it;
-                }
-            }
+            clearWaitState(fds[fdIdx].fd);
             for (auto it = watchedSockets_.begin();
                  it != watchedSockets_.end();) {
                 auto &watching = it->second;
@@ -293,6 +275,24 @@ void TCPStoreMasterDaemon::queryFds(std::vector<struct pollfd> &fds) {
     }
 }
 
+void TCPStoreMasterDaemon::clearWaitState(int socket) {
+    for (auto it = waitingSockets_.begin(); it != waitingSockets_.end();) {
+        for (auto vecIt = it->second.begin(); vecIt != it->second.end();) {
+            if (*vecIt == socket) {
+                vecIt = it->second.erase(vecIt);
+            } else {
+                ++vecIt;
+            }
+        }
+        if (it->second.empty()) {
+            it = waitingSockets_.erase(it);
+        } else {
+            ++it;
+        }
+    }
+    keysAwaited_.erase(socket);
+}
+
 // query communicates with the worker. The format
 // of the query is as follows:
 // type of query | size of arg1 | arg1 | size of arg2 | arg2 | ...
@@ -333,6 +333,8 @@ void TCPStoreMasterDaemon::query(int socket) {
         multiGetHandler(socket);
     } else if (qt == QueryType::MULTI_SET) {
         multiSetHandler(socket);
+    } else if (qt == QueryType::CANCEL_WAIT) {
+        cancelWaitHandler(socket);
     } else {
         throw std::runtime_error("Unexpected query type");
     }
@@ -535,6 +537,12 @@ void TCPStoreMasterDaemon::waitHandler(int socket) {
     }
 }
 
+void TCPStoreMasterDaemon::cancelWaitHandler(int socket) {
+    clearWaitState(socket);
+    tcputil::sendValue<WaitResponseType>(socket,
+                                         WaitResponseType::WAIT_CANCELED);
+}
+
 void TCPStoreMasterDaemon::watchHandler(int socket) {
     std::string key = tcputil::recvString(socket);
 
@@ -973,11 +981,8 @@ std::unique_ptr<TCPClient> TCPClient::connect(const SocketAddress &addr,
     return std::make_unique<TCPClient>(std::move(socket));
 }
 
+// Zero means no timeout, for the system as well
 void TCPClient::setTimeout(std::chrono::milliseconds value) {
-    if (value == std::chrono::milliseconds::zero()) {
-        return;
-    }
-
 #ifdef _WIN32
     struct timeval timeoutTV
         = {static_cast<long>(value.count() / 1000),
@@ -1280,9 +1285,6 @@ void TCPStore::wait(const std::vector<std::string> &keys,
 
 void TCPStore::doWait(std::vector<std::string> keys,
                       std::chrono::milliseconds timeout) {
-    // TODO: Should we revert to the original timeout at the end of the call?
-    client_->setTimeout(timeout);
-
     detail::SendBuffer buffer(*client_, detail::QueryType::WAIT);
     buffer.appendValue(keys.size());
     for (const std::string &key : keys) {
@@ -1290,7 +1292,26 @@ void TCPStore::doWait(std::vector<std::string> keys,
     }
     buffer.flush();
 
-    auto response = client_->receiveValue<detail::WaitResponseType>();
+    // The timeout is that of this wait, not that of what comes after
+    client_->setTimeout(timeout);
+    detail::WaitResponseType response;
+    try {
+        response = client_->receiveValue<detail::WaitResponseType>();
+    } catch (const std::system_error &) {
+        // The connection is lost
+        throw;
+    } catch (const std::exception &) {
+        // Nothing came in time. Have the server forget the wait, or its answer
+        // would be read as that of a later call.
+        client_->setTimeout(timeout_);
+        detail::SendBuffer cancel(*client_, detail::QueryType::CANCEL_WAIT);
+        cancel.flush();
+        while (client_->receiveValue<detail::WaitResponseType>()
+               != detail::WaitResponseType::WAIT_CANCELED) {
+        }
+        throw;
+    }
+    client_->setTimeout(timeout_);
     if (response != detail::WaitResponseType::STOP_WAITING) {
         throw std::runtime_error("Stop_waiting response is expected");
     }
-- 
2.43.0


From 42732c7d4b867af16cbdcbf94d1144e988c7ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:00 +0000
Subject: [PATCH 59/79] fix: a store's client rests when its server has ended

Its background thread polled the closed connection without pause, and ended the
whole process if the connection was reset.
---
 cpp/collective/rendezvous/src/tcp_store.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp/collective/rendezvous/src/tcp_store.cpp b/cpp/collective/rendezvous/src/tcp_store.cpp
index ea44d68..9ab77ed 100644
--- a/cpp/collective/rendezvous/src/tcp_store.cpp
+++ b/cpp/collective/rendezvous/src/tcp_store.cpp
@@ -862,8 +862,17 @@ void TCPStoreWorkerDaemon::run() {
         // if connection is closed gracefully by master, peeked data will return
         // 0
         char data = 0;
-        int ret = recv(fds[1].fd, &data, 1, MSG_PEEK);
+        ssize_t ret = recv(fds[1].fd, &data, 1, MSG_PEEK);
         if (ret == 0) {
+            // Nothing more will come. Only wait to be told to shut down.
+            fds[1].fd = -1;
+            continue;
+        }
+        if (ret == -1) {
+            if (errno != EINTR) {
+                // The connection was lost, there is nothing to read either.
+                fds[1].fd = -1;
+            }
             continue;
         }
 
-- 
2.43.0


From 5a6c2ead79b040806a98600ef44fa5a8f1407228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 60/79] fix: number of processes of a pool can be left out as
 documented

---
 python/xoscar/backends/indigen/backend.py | 1 -
 python/xoscar/backends/test/backend.py    | 1 -
 2 files changed, 2 deletions(-)

diff --git a/python/xoscar/backends/indigen/backend.py b/python/xoscar/backends/indigen/backend.py
index 39229d6..14ca078 100644
--- a/python/xoscar/backends/indigen/backend.py
+++ b/python/xoscar/backends/indigen/backend.py
@@ -45,7 +45,6 @@ class IndigenActorBackend(BaseActorBackend):
     ):
         from ..pool import create_actor_pool
 
-        assert n_process is not None
         return await create_actor_pool(
             address, pool_cls=MainActorPool, n_process=n_process, **kwargs
         )
diff --git a/python/xoscar/backends/test/backend.py b/python/xoscar/backends/test/backend.py
index 5b249a5..c5716f7 100644
--- a/python/xoscar/backends/test/backend.py
+++ b/python/xoscar/backends/test/backend.py
@@ -32,7 +32,6 @@ class TestActorBackend(IndigenActorBackend):
     ):
         from ..pool import create_actor_pool
 
-        assert n_process is not None
         return await create_actor_pool(
             address, pool_cls=TestMainActorPool, n_process=n_process, **kwargs
         )
-- 
2.43.0


From bafd02f204701b57c6d4f7aec22e7f553c15a543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 61/79] fix: pools of many processes or large environments can
 be started

---
 python/xoscar/backends/indigen/pool.py | 27 +++++++++++---------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 2c97d34..d5c7df3 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -61,9 +61,7 @@ class _ShmSeq(IntEnum):
 
 def _shm_put_object(seq: _ShmSeq, shm: shared_memory.SharedMemory, o: object):
     serialized = pickle.dumps(o)
-    assert (
-        len(serialized) < _SUBPROCESS_SHM_SIZE - 8
-    ), f"Serialized object {o} is too long."
+    assert len(serialized) <= shm.size - 8, f"Serialized object {o} is too long."
     shm.buf[4:8] = struct.pack("<I", len(serialized))
     shm.buf[8 : 8 + len(serialized)] = serialized
     shm.buf[:4] = struct.pack("<I", seq)
@@ -278,20 +276,17 @@ class MainActorPool(MainActorPoolBase):
             start_python = sys.executable
 
         external_addresses: List | None = None
-        shm = shared_memory.SharedMemory(
-            create=True, size=_SUBPROCESS_SHM_SIZE, track=False
-        )
+        init_params = {
+            "actor_pool_config": actor_pool_config,
+            "process_index": process_index,
+            "main_pool_pid": os.getpid(),
+            "python_version": sys.hexversion,
+        }
+        # config grows with the number of pools
+        shm_size = max(_SUBPROCESS_SHM_SIZE, len(pickle.dumps(init_params)) + 8)
+        shm = shared_memory.SharedMemory(create=True, size=shm_size, track=False)
         try:
-            _shm_put_object(
-                _ShmSeq.INIT_PARAMS,
-                shm,
-                {
-                    "actor_pool_config": actor_pool_config,
-                    "process_index": process_index,
-                    "main_pool_pid": os.getpid(),
-                    "python_version": sys.hexversion,
-                },
-            )
+            _shm_put_object(_ShmSeq.INIT_PARAMS, shm, init_params)
             cmd = [
                 start_python,
                 "-m",
-- 
2.43.0


From 8ed97a30b855ab256999fc2d2206acc3ecfc9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 62/79] fix: a sub pool is recovered with the python it was
 started with

---
 python/xoscar/backends/config.py       | 2 ++
 python/xoscar/backends/indigen/pool.py | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index 58b8b81..2c34289 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -59,6 +59,7 @@ class ActorPoolConfig:
         use_uvloop: bool | None = False,
         logging_conf: dict | None = None,
         kwargs: dict | None = None,
+        start_python: str | None = None,
     ):
         pools: dict = self._conf["pools"]
         if not isinstance(external_address, list):
@@ -73,6 +74,7 @@ class ActorPoolConfig:
             "use_uvloop": use_uvloop,
             "logging_conf": logging_conf,
             "kwargs": kwargs or {},
+            "start_python": start_python,
         }
 
         mapping: dict = self._conf["mapping"]
diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index d5c7df3..6d14c6f 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -272,8 +272,10 @@ class MainActorPool(MainActorPoolBase):
     ):
         # We check the Python version in _shm_get_object to make it faster,
         # as in most cases the Python versions are the same.
+        pool_config = actor_pool_config.get_pool_config(process_index)
         if start_python is None:
-            start_python = sys.executable
+            # the one used before if the sub pool is recovered
+            start_python = pool_config["start_python"] or sys.executable
 
         external_addresses: List | None = None
         init_params = {
@@ -297,7 +299,7 @@ class MainActorPool(MainActorPoolBase):
             ]
             # We need to inherit the parent environment to ensure the subprocess works correctly on Windows.
             new_env = dict(os.environ)
-            env = actor_pool_config.get_pool_config(process_index).get("env") or {}
+            env = pool_config.get("env") or {}
             new_env.update(env)
             if os.getenv("XOSCAR_CPU_AFFINITY") == "1":
                 import multiprocessing
@@ -386,6 +388,7 @@ class MainActorPool(MainActorPoolBase):
             _use_uv_loop,
             _logging_conf,
             kwargs,
+            start_python,
         )
         # the pool is not part of own config until it is started
         start_config = self._config.copy()
-- 
2.43.0


From 5566b1124721a95c9dfdcbb80ac4b878268021f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:58 +0000
Subject: [PATCH 63/79] fix: a pool listening on all interfaces can be used via
 any of its addresses

---
 python/xoscar/backends/context.py |  6 +++++-
 python/xoscar/backends/pool.py    | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index b1e0030..ba874a9 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -157,7 +157,9 @@ class IndigenActorContext(BaseActorContext):
         )
         future = await self._call(address, create_actor_message, wait=False)
         result = await self._wait(future, address, create_actor_message)  # type: ignore
-        return self._process_result_message(result)
+        actor_ref = self._process_result_message(result)
+        actor_ref.address = fix_all_zero_ip(actor_ref.address, address)
+        return actor_ref
 
     async def has_actor(self, actor_ref: ActorRef) -> bool:
         message = HasActorMessage(
@@ -201,6 +203,7 @@ class IndigenActorContext(BaseActorContext):
         main_address = self._process_result_message(
             await self._call(actor_ref.address, control_message, proxy_addresses=actor_ref.proxy_addresses)  # type: ignore
         )
+        main_address = fix_all_zero_ip(main_address, actor_ref.address)
         real_actor_ref = await self.actor_ref(actor_ref)
         if real_actor_ref.address == main_address:
             raise ValueError("Cannot kill actor on main pool")
@@ -306,6 +309,7 @@ class IndigenActorContext(BaseActorContext):
             main_address = self._process_result_message(
                 await self._call(address, control_message)  # type: ignore
             )
+            main_address = fix_all_zero_ip(main_address, address)
 
         # if address is main pool, it is never recovered
         if address == main_address:
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index e8e9e51..41b5fa9 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1111,6 +1111,18 @@ class MainActorPoolBase(ActorPoolBase):
             await self.call(address, cancel_message)
             return await future
 
+    def _get_pool_address(self, address: str) -> str:
+        """
+        Address in the config of the pool meant by given one, which differs
+        if this pool listens on all interfaces and is reached via one of them.
+        """
+        if address not in self._allocated_actors and is_zero_ip(self.external_address):
+            port = address.rsplit(":", 1)[-1]
+            for addr in self._allocated_actors:
+                if is_zero_ip(addr) and addr.rsplit(":", 1)[-1] == port:
+                    return addr
+        return address
+
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         with _ErrorProcessor(
@@ -1124,6 +1136,7 @@ class MainActorPoolBase(ActorPoolBase):
                 address = allocate_strategy.get_allocated_address(
                     self._config, self._allocated_actors
                 )
+                address = self._get_pool_address(address)
                 # set placeholder to make sure this label is occupied
                 placeholder: Any = object()
                 self._allocated_actors[address][placeholder] = (
@@ -1288,6 +1301,7 @@ class MainActorPoolBase(ActorPoolBase):
 
     @implements(AbstractActorPool.cancel)
     async def cancel(self, message: CancelMessage) -> ResultMessageType:
+        message.address = self._get_pool_address(message.address)
         if message.address == self.external_address:
             # local message
             return await super().cancel(message)
@@ -1308,6 +1322,7 @@ class MainActorPoolBase(ActorPoolBase):
         with _ErrorProcessor(
             self.external_address, message.message_id, message.protocol
         ) as processor:
+            message.address = self._get_pool_address(message.address)
             if message.address == self.external_address:
                 if message.control_message_type == ControlMessageType.sync_config:
                     # sync config, need to notify all sub pools
-- 
2.43.0


From 583a34568bc807848a55c1ea934e65e28f3aaac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:26 +0000
Subject: [PATCH 64/79] fix: an actor created in its own process is recovered
 with unmodified lists and arrays

---
 python/xoscar/backends/pool.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 41b5fa9..44bf9f2 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -28,6 +28,7 @@ import traceback
 from abc import ABC, ABCMeta, abstractmethod
 from typing import Any, Callable, Coroutine, Optional, Type, TypeVar
 
+import cloudpickle
 import psutil
 
 from .._utils import TypeDispatcher, create_actor_ref, to_binary
@@ -973,10 +974,18 @@ class SubActorPoolBase(ActorPoolBase):
             return await super().create_actor(message)
         # the actor may modify its arguments, but has to be recovered
         # with the ones it was created with
-        serialized = await serialize_with_spawn(message)
+        headers, buffers = await serialize_with_spawn(message)
+        # neither headers nor buffers may share anything with the arguments
+        header = cloudpickle.dumps(headers)
+        buffers = [
+            buf if hasattr(buf, "__cuda_array_interface__") else bytes(buf)
+            for buf in buffers
+        ]
         result = await super().create_actor(message)
         if isinstance(result, ResultMessage):
-            await self.notify_main_pool_to_create(deserialize(*serialized))
+            await self.notify_main_pool_to_create(
+                deserialize(cloudpickle.loads(header), buffers)
+            )
         return result
 
     @implements(AbstractActorPool.actor_ref)
-- 
2.43.0


From 1426ba5d125d1e9a3d07ef62cd7bd005b7b98f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:06 +0000
Subject: [PATCH 65/79] fix: extras and urls of requirements with markers are
 kept

---
 python/xoscar/virtualenv/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 709eacd..4d80d57 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -302,7 +302,9 @@ def filter_requirements(requirements: list[str], **variables) -> list[str]:
             try:
                 req = Requirement(req_str)
                 if req.marker is None or req.marker.evaluate(env):
-                    result.append(f"{req.name}{req.specifier}")
+                    # extras and url of the requirement are kept
+                    req.marker = None
+                    result.append(str(req))
                     continue
             except InvalidRequirement:
                 if is_custom_marker(marker_part):
-- 
2.43.0


From 871f61542e693b68fce175e386f59d0ee2b0d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:06 +0000
Subject: [PATCH 66/79] fix: markers on a CUDA version can be evaluated without
 CUDA

---
 python/xoscar/virtualenv/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 4d80d57..f0d95c1 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -256,6 +256,11 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 right = maybe_parse_cuda_arch(normalize_value(right))
 
                 op_func = ops[type(op_node)]
+                if not isinstance(op_node, (ast.Eq, ast.NotEq)) and (
+                    left is None or right is None
+                ):
+                    # e.g. cuda_version if there is no CUDA
+                    return False
                 if not op_func(left, right):
                     return False
                 left = right  # for chained comparisons
-- 
2.43.0


From 897a5f185af839db2ac1ceff528e56105892abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:06 +0000
Subject: [PATCH 67/79] fix: installed packages are found by any spelling of
 their names

---
 python/xoscar/virtualenv/uv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/virtualenv/uv.py b/python/xoscar/virtualenv/uv.py
index 46ef777..91513e3 100644
--- a/python/xoscar/virtualenv/uv.py
+++ b/python/xoscar/virtualenv/uv.py
@@ -27,6 +27,7 @@ from pathlib import Path
 from typing import Optional
 
 from packaging.requirements import Requirement
+from packaging.utils import canonicalize_name
 from packaging.version import Version
 
 from .core import VirtualEnvManager
@@ -168,7 +169,7 @@ class UVVirtualEnvManager(VirtualEnvManager):
                 continue
 
             req = Requirement(spec_str)
-            name = req.name.lower()
+            name = canonicalize_name(req.name)
             cur_ver = installed.get(name)
 
             if cur_ver is None:
@@ -201,7 +202,7 @@ class UVVirtualEnvManager(VirtualEnvManager):
 
         # all the installed packages in system site packages
         installed = {
-            dist.metadata["Name"].lower(): dist.version
+            canonicalize_name(dist.metadata["Name"]): dist.version
             for dist in distributions()
             if dist.metadata and "Name" in dist.metadata
         }
@@ -224,7 +225,7 @@ class UVVirtualEnvManager(VirtualEnvManager):
         final = keep.copy()
         for item in resolved:
             name, version = item.split("==")
-            key = name.lower()
+            key = canonicalize_name(name)
             if key not in installed or installed[key] != version:
                 final.append(item)
         logger.debug(f"Filtered install list: {final}")
-- 
2.43.0


From 6270389d7d1cdc1ed2a697d0ca972b0835605592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:42 +0000
Subject: [PATCH 68/79] fix: versions in markers can be compared with versions
 without dots

---
 python/xoscar/virtualenv/core.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index f0d95c1..595bbd3 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -23,7 +23,7 @@ from pathlib import Path
 
 from packaging.markers import Marker, default_environment
 from packaging.requirements import InvalidRequirement, Requirement
-from packaging.version import Version
+from packaging.version import InvalidVersion, Version
 
 from .platform import (
     check_cuda_available,
@@ -227,6 +227,12 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
 
         return val
 
+    def maybe_parse_version(val):
+        try:
+            return Version(val)
+        except InvalidVersion:
+            return val
+
     def maybe_parse_cuda_arch(val):
         if isinstance(val, str) and val.startswith("sm_"):
             try:
@@ -255,6 +261,12 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 right = _eval(right_expr)
                 right = maybe_parse_cuda_arch(normalize_value(right))
 
+                # e.g. 12.1 >= '12'
+                if isinstance(left, Version) and isinstance(right, str):
+                    right = maybe_parse_version(right)
+                elif isinstance(right, Version) and isinstance(left, str):
+                    left = maybe_parse_version(left)
+
                 op_func = ops[type(op_node)]
                 if not isinstance(op_node, (ast.Eq, ast.NotEq)) and (
                     left is None or right is None
-- 
2.43.0


From 6de177031a2d994412511195de7fc36755b0d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:09 +0000
Subject: [PATCH 69/79] fix: a handler registered for a type is used for its
 known subclasses too

---
 python/xoscar/_utils.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index bcc98dc..276162a 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -46,6 +46,8 @@ cdef class TypeDispatcher:
         _type_dispatchers.add(self)
 
     cpdef void register(self, object type_, object handler):
+        # what was inherited so far may now have a closer handler
+        self._inherit_handlers.clear()
         if isinstance(type_, str):
             self._lazy_handlers[type_] = handler
         elif type(type_) is not NamedType and isinstance(type_, tuple):
-- 
2.43.0


From e2aa708b5116071cbef0ffe603ec60906731d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 70/79] fix: a serializer of several types can be unregistered
 for one of them

---
 python/xoscar/_utils.pxd             | 1 +
 python/xoscar/_utils.pyx             | 8 ++++++++
 python/xoscar/serialization/core.pyx | 3 ++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/_utils.pxd b/python/xoscar/_utils.pxd
index 63506bf..08be283 100644
--- a/python/xoscar/_utils.pxd
+++ b/python/xoscar/_utils.pxd
@@ -21,6 +21,7 @@ cdef class TypeDispatcher:
 
     cpdef void register(self, object type_, object handler)
     cpdef void unregister(self, object type_)
+    cpdef bint has_handler_of(self, object handler_type)
     cdef _reload_lazy_handlers(self)
     cpdef get_handler(self, object type_)
 
diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index 276162a..155a1f5 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -65,6 +65,14 @@ cdef class TypeDispatcher:
             self._handlers.pop(type_, None)
             self._inherit_handlers.clear()
 
+    cpdef bint has_handler_of(self, object handler_type):
+        """Whether a handler of the very type is still registered."""
+        for handlers in (self._handlers, self._lazy_handlers):
+            for handler in handlers.values():
+                if type(handler) is handler_type:
+                    return True
+        return False
+
     cdef _reload_lazy_handlers(self):
         for k, v in self._lazy_handlers.items():
             mod_name, obj_name = k.rsplit('.', 1)
diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 249e27e..28b568e 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -187,7 +187,8 @@ cdef class Serializer:
         if name is not None:
             obj_type = NamedType(name, obj_type)
         _serial_dispatcher.unregister(obj_type)
-        _deserializers.pop(cls.serializer_id, None)
+        if not _serial_dispatcher.has_handler_of(cls):
+            _deserializers.pop(cls.serializer_id, None)
 
 
 cdef inline uint64_t _fast_id(object obj) nogil:
-- 
2.43.0


From 41b8853fa685a2118bf7bc95ac3d40805d3fbdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:54 +0000
Subject: [PATCH 71/79] fix: collectives send the elements of arrays which are
 not contiguous

---
 python/xoscar/collective/process_group.py | 38 +++++++++++++----------
 python/xoscar/collective/utils.py         | 13 ++++++++
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/python/xoscar/collective/process_group.py b/python/xoscar/collective/process_group.py
index 41ea510..97101eb 100644
--- a/python/xoscar/collective/process_group.py
+++ b/python/xoscar/collective/process_group.py
@@ -26,7 +26,11 @@ from .common import (
     ReduceOpMappingGloo,
     TypeMappingGloo,
 )
-from .utils import convert_data_to_cp_array, convert_data_to_np_array
+from .utils import (
+    convert_data_to_cp_array,
+    convert_recv_data_to_np_array,
+    convert_send_data_to_np_array,
+)
 
 cupy = lazy_import("cupy")
 if cupy is not None:
@@ -182,8 +186,8 @@ class ProcessGroupGloo(ProcessGroup):
         root: Optional[int] = 0,
         tag: Optional[int] = 0,
     ):
-        send_buf = convert_data_to_np_array(send_data)
-        recv_buf = convert_data_to_np_array(recv_data)
+        send_buf = convert_send_data_to_np_array(send_data)
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         size = send_buf.size
         dtype = send_buf.dtype
         sendptr = send_buf.ctypes.data
@@ -208,8 +212,8 @@ class ProcessGroupGloo(ProcessGroup):
         algorithm: AllReduceAlgorithm = AllReduceAlgorithm.RING,
         tag: Optional[int] = 0,
     ):
-        send_buf = convert_data_to_np_array(send_data)
-        recv_buf = convert_data_to_np_array(recv_data)
+        send_buf = convert_send_data_to_np_array(send_data)
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         size = send_buf.size
         dtype = send_buf.dtype
         sendptr = send_buf.ctypes.data
@@ -233,8 +237,8 @@ class ProcessGroupGloo(ProcessGroup):
         root: Optional[int] = 0,
         tag: Optional[int] = 0,
     ):
-        send_buf = convert_data_to_np_array(send_data)
-        recv_buf = convert_data_to_np_array(recv_data)
+        send_buf = convert_send_data_to_np_array(send_data)
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         size = send_buf.size
         dtype = send_buf.dtype
         sendptr = send_buf.ctypes.data
@@ -243,8 +247,8 @@ class ProcessGroupGloo(ProcessGroup):
         xp.gather(self._context, sendptr, recvptr, size, gloo_type, root, tag)
 
     def allgather(self, send_data: Any, recv_data: Any, tag: Optional[int] = 0):
-        send_buf = convert_data_to_np_array(send_data)
-        recv_buf = convert_data_to_np_array(recv_data)
+        send_buf = convert_send_data_to_np_array(send_data)
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         size = send_buf.size
         dtype = send_buf.dtype
         sendptr = send_buf.ctypes.data
@@ -259,8 +263,8 @@ class ProcessGroupGloo(ProcessGroup):
         root: Optional[int] = 0,
         tag: Optional[int] = 0,
     ):
-        send_bufs = [convert_data_to_np_array(d) for d in send_data]
-        recv_buf = convert_data_to_np_array(recv_data)
+        send_bufs = [convert_send_data_to_np_array(d) for d in send_data]
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         size = sum([d.size for d in send_bufs])
         dtype = recv_buf.dtype
         sendptrs = [d.ctypes.data for d in send_bufs]
@@ -275,8 +279,8 @@ class ProcessGroupGloo(ProcessGroup):
         recv_elems: List[int],
         op: CollectiveReduceOp = CollectiveReduceOp.SUM,
     ):  # pragma: no cover
-        send_buf = convert_data_to_np_array(send_data)
-        recv_buf = convert_data_to_np_array(recv_data)
+        send_buf = convert_send_data_to_np_array(send_data)
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         sendptr = send_buf.ctypes.data
         recvptr = recv_buf.ctypes.data
         size = send_buf.size
@@ -293,8 +297,8 @@ class ProcessGroupGloo(ProcessGroup):
         )
 
     def alltoall(self, send_data: Any, recv_data: Any, tag: Optional[int] = 0):
-        send_buf = convert_data_to_np_array(send_data)
-        recv_buf = convert_data_to_np_array(recv_data)
+        send_buf = convert_send_data_to_np_array(send_data)
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         size = send_buf.size
         dtype = send_buf.dtype
         sendptr = send_buf.ctypes.data
@@ -310,11 +314,11 @@ class ProcessGroupGloo(ProcessGroup):
         tag: Optional[int] = 0,
     ):
         if send_data is not None:
-            send_buf = convert_data_to_np_array(send_data)
+            send_buf = convert_send_data_to_np_array(send_data)
             sendptr = send_buf.ctypes.data
         else:
             sendptr = None
-        recv_buf = convert_data_to_np_array(recv_data)
+        recv_buf = convert_recv_data_to_np_array(recv_data)
         size = recv_buf.size
         dtype = recv_buf.dtype
         recvptr = recv_buf.ctypes.data
diff --git a/python/xoscar/collective/utils.py b/python/xoscar/collective/utils.py
index c89ac67..aedb4ac 100644
--- a/python/xoscar/collective/utils.py
+++ b/python/xoscar/collective/utils.py
@@ -27,6 +27,19 @@ def convert_data_to_np_array(data):
         return np.frombuffer(data, dtype="u1")
 
 
+def convert_send_data_to_np_array(data):
+    array = convert_data_to_np_array(data)
+    # only a pointer is handed on, elements must be next to each other
+    return array if array.flags.forc else np.ascontiguousarray(array)
+
+
+def convert_recv_data_to_np_array(data):
+    array = convert_data_to_np_array(data)
+    if not array.flags.forc:
+        raise ValueError("Cannot receive into an array which is not contiguous")
+    return array
+
+
 def convert_data_to_cp_array(data):
     if isinstance(data, cupy.ndarray):
         return data
-- 
2.43.0


From 6f8d789ff3e0f57c2d970d95f0569b503ddd49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:45 +0000
Subject: [PATCH 72/79] fix: scatter reads and writes no memory beyond the
 arrays given

---
 python/xoscar/collective/process_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/collective/process_group.py b/python/xoscar/collective/process_group.py
index 97101eb..a5fa67d 100644
--- a/python/xoscar/collective/process_group.py
+++ b/python/xoscar/collective/process_group.py
@@ -265,7 +265,8 @@ class ProcessGroupGloo(ProcessGroup):
     ):
         send_bufs = [convert_send_data_to_np_array(d) for d in send_data]
         recv_buf = convert_recv_data_to_np_array(recv_data)
-        size = sum([d.size for d in send_bufs])
+        # the elements each rank gets
+        size = recv_buf.size
         dtype = recv_buf.dtype
         sendptrs = [d.ctypes.data for d in send_bufs]
         recvptr = recv_buf.ctypes.data
-- 
2.43.0


From 68ae34bca876db91b929f19616330e5c4be59a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:33 +0000
Subject: [PATCH 73/79] fix: memory of reduce on other ranks is freed as it was
 allocated

---
 cpp/collective/gloo/src/reduce.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/collective/gloo/src/reduce.cc b/cpp/collective/gloo/src/reduce.cc
index e1afe39..44a9125 100644
--- a/cpp/collective/gloo/src/reduce.cc
+++ b/cpp/collective/gloo/src/reduce.cc
@@ -45,7 +45,7 @@ void reduce(const std::shared_ptr<gloo::Context> &context,
     gloo::reduce(opts_);
 
     if (context->rank != root)
-        delete output_ptr;
+        delete[] output_ptr;
 }
 
 void reduce_wrapper(const std::shared_ptr<gloo::Context> &context,
-- 
2.43.0


From 0f59ff52fac03adf43f025bb73b74dab9e837d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:02 +0000
Subject: [PATCH 74/79] restore the backend for tests as it was

---
 python/xoscar/backends/test/backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/xoscar/backends/test/backend.py b/python/xoscar/backends/test/backend.py
index c5716f7..5b249a5 100644
--- a/python/xoscar/backends/test/backend.py
+++ b/python/xoscar/backends/test/backend.py
@@ -32,6 +32,7 @@ class TestActorBackend(IndigenActorBackend):
     ):
         from ..pool import create_actor_pool
 
+        assert n_process is not None
         return await create_actor_pool(
             address, pool_cls=TestMainActorPool, n_process=n_process, **kwargs
         )
-- 
2.43.0


From fb85161760e077fcf555ab36e0223467c84b2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 75/79] fix: views written to sockets do not break the
 collection of garbage

Views obtained from a PickleBuffer of a memoryview export the memoryview,
and CPython crashes when it collects both within a cycle, e.g. of an error
and its traceback.
---
 python/xoscar/backends/communication/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/communication/utils.py b/python/xoscar/backends/communication/utils.py
index 899da18..d6b3d65 100644
--- a/python/xoscar/backends/communication/utils.py
+++ b/python/xoscar/backends/communication/utils.py
@@ -14,7 +14,6 @@
 # limitations under the License.
 
 from asyncio import StreamReader, StreamWriter
-from pickle import PickleBuffer  # nosec  # pylint: disable=import_pickle
 from typing import Dict, List, Union
 
 import numpy as np
@@ -69,11 +68,11 @@ def write_buffers(writer: StreamWriter, buffers: List):
             ):
                 # writers count and slice memoryviews by items of the first
                 # dimension, thus always write flat bytes
-                buffer = (
-                    PickleBuffer(buffer).raw()
-                    if buffer.c_contiguous
-                    else buffer.tobytes()
-                )
+                try:
+                    buffer = buffer.cast("B")
+                except TypeError:
+                    # not contiguous, no items, or items of several fields
+                    buffer = buffer.tobytes()
             writer.write(buffer)
 
 
-- 
2.43.0


From ee8f2822edbfd484c815227ca8e84fdf349e11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 76/79] fix: copy_to works between processes without internal
 addresses

---
 python/xoscar/backends/router.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index c14a074..d6513df 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -199,8 +199,10 @@ class Router:
         if external_address in self._mapping:
             # try to lookup inner address from address mapping
             addr = self._mapping.get(external_address)
-            client_type = get_client_type(addr)  # type: ignore
-            client_type_to_addresses[client_type] = addr  # type: ignore
+            # there is none if internal addresses are disabled
+            if addr is not None:
+                client_type = get_client_type(addr)
+                client_type_to_addresses[client_type] = addr
         return client_type_to_addresses
 
     def get_all_client_types(self, external_address: str) -> list[Type[Client]]:
-- 
2.43.0


From 881e66eb48baf0130bdbd3b6f2405e860dfe22de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 77/79] fix: bytes received into memoryviews are bytes again

---
 python/xoscar/serialization/core.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 28b568e..ca26ac8 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -317,14 +317,19 @@ cdef class BytesSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
-        if type(obj) is not bytes and type(obj) is not memoryview:
+        if type(obj) is memoryview:
+            return (False,), [obj], True
+        if type(obj) is not bytes:
             # keep the type of subclasses
             return (True,), pickle_buffers(obj), True
         return (), [obj], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
-        if serialized:
+        if serialized and serialized[0]:
             return unpickle_buffers(subs)
+        if not serialized and type(subs[0]) is memoryview:
+            # some channels receive into memoryviews
+            return subs[0].tobytes()
         return subs[0]
 
 
-- 
2.43.0


From 5fb1365834b5fcfb197630c1d3377b441392f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 78/79] fix: UCX channels send messages as a whole and can be
 closed by several at once

Empty buffers, which are never received, are not sent; buffers that are not
contiguous are sent in the order of items; a message is sent as a whole even
if its sender is cancelled; closing while others close or abort works.
---
 python/xoscar/backends/communication/ucx.py | 77 +++++++++++++--------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/python/xoscar/backends/communication/ucx.py b/python/xoscar/backends/communication/ucx.py
index 26d69a8..199f9a6 100644
--- a/python/xoscar/backends/communication/ucx.py
+++ b/python/xoscar/backends/communication/ucx.py
@@ -55,6 +55,19 @@ def synchronize_stream(stream: int = 0):
     stream.synchronize()  # type: ignore
 
 
+def _nbytes(buffer: Any) -> int:
+    return buffer.nbytes if hasattr(buffer, "nbytes") else len(buffer)
+
+
+def _contiguous(buffer: Any) -> Any:
+    """What UCX can send in one piece, in the order of items as sockets send it"""
+    if is_cuda_buffer(buffer) or isinstance(buffer, (bytes, bytearray)):
+        return buffer
+    if memoryview(buffer).c_contiguous:
+        return buffer
+    return memoryview(buffer).tobytes()
+
+
 class UCXInitializer:
     _inited = False
 
@@ -294,35 +307,42 @@ class UCXChannel(Channel):
         return deserialize(header, buffers)
 
     async def send_buffers(self, buffers: list, meta: Optional[_MessageBase] = None):
-        try:
-            # It is necessary to first synchronize the default stream before start
-            # sending We synchronize the default stream because UCX is not
-            # stream-ordered and syncing the default stream will wait for other
-            # non-blocking CUDA streams. Note this is only sufficient if the memory
-            # being sent is not currently in use on non-blocking CUDA streams.
-            if any(is_cuda_buffer(buf) for buf in buffers):
-                # has GPU buffer
-                synchronize_stream(0)
-
-            meta_buffers = None
-            if meta:
-                meta_buffers = await self._serialize(meta)
-
-            async with self._send_lock:
-                if meta_buffers:
-                    for buf in meta_buffers:
-                        await self.ucp_endpoint.send(buf)
-                for buffer in buffers:
-                    await self.ucp_endpoint.send(buffer)
-        except ucp.exceptions.UCXError:  # pragma: no cover
-            self.abort()
-            raise ChannelClosed("While writing, the connection was closed")
+        # It is necessary to first synchronize the default stream before start
+        # sending We synchronize the default stream because UCX is not
+        # stream-ordered and syncing the default stream will wait for other
+        # non-blocking CUDA streams. Note this is only sufficient if the memory
+        # being sent is not currently in use on non-blocking CUDA streams.
+        if any(is_cuda_buffer(buf) for buf in buffers):
+            # has GPU buffer
+            synchronize_stream(0)
+
+        if meta:
+            buffers = await self._serialize(meta) + buffers
+
+        # nothing is received for empty buffers
+        buffers = [_contiguous(buf) for buf in buffers if _nbytes(buf) > 0]
+        # once begun it has to be sent as a whole, even if the caller is cancelled,
+        # or what is sent next would be taken for the rest of it
+        await asyncio.shield(asyncio.ensure_future(self._send_all(buffers)))
+
+    async def _send_all(self, buffers: list):
+        async with self._send_lock:
+            for buffer in buffers:
+                endpoint = self.ucp_endpoint
+                if endpoint is None:
+                    raise ChannelClosed("UCX Endpoint is closed, unable to send message")
+                try:
+                    await endpoint.send(buffer)
+                except ucp.exceptions.UCXError:
+                    self.abort()
+                    raise ChannelClosed("While writing, the connection was closed")
 
     async def recv_buffers(self, buffers: list):
         async with self._recv_lock:
             try:
                 for buffer in buffers:
-                    await self.ucp_endpoint.recv(buffer)
+                    if _nbytes(buffer) > 0:
+                        await self.ucp_endpoint.recv(buffer)
             except BaseException as e:  # pragma: no cover
                 if not self._closed:
                     # In addition to UCX exceptions, may be CancelledError or another
@@ -343,11 +363,12 @@ class UCXChannel(Channel):
     @implements(Channel.close)
     async def close(self):
         self._closed = True
-        if self.ucp_endpoint is not None:
-            await self.ucp_endpoint.close()
+        # may be closed or aborted by others meanwhile
+        endpoint, self.ucp_endpoint = self.ucp_endpoint, None
+        if endpoint is not None:
+            await endpoint.close()
             # abort
-            self.ucp_endpoint.abort()
-            self.ucp_endpoint = None
+            endpoint.abort()
 
     @property
     @implements(Channel.closed)
-- 
2.43.0


From 71dee1b9ec89d678d94dd88420a50e06152f0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:03 +0000
Subject: [PATCH 79/79] fix: a refused copy over UCX does not break its channel

What was sent along has to be received though the copy is refused, and
buffers larger than what is copied are filled up to that only.
---
 python/xoscar/backends/context.py |  9 ++++++-
 python/xoscar/backends/pool.py    | 43 +++++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index ba874a9..4f22a8d 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -384,7 +384,14 @@ class IndigenActorContext(BaseActorContext):
         address = remote_buffer_refs[0].address
         client = await self._get_client(address)
         if isinstance(client, UCXClient):
-            message = [(buf.address, buf.uid) for buf in remote_buffer_refs]
+            message = [
+                (
+                    r_buf.address,
+                    r_buf.uid,
+                    l_buf.nbytes if hasattr(l_buf, "nbytes") else len(l_buf),
+                )
+                for l_buf, r_buf in zip(local_buffers, remote_buffer_refs)
+            ]
             self._process_result_message(
                 await self._call_send_buffers(
                     client,
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 44bf9f2..595ed3f 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -44,7 +44,12 @@ from ..errors import (
 )
 from ..metrics import init_metrics
 from ..serialization import deserialize, serialize_with_spawn
-from ..utils import implements, is_zero_ip, register_asyncio_task_timeout_detector
+from ..utils import (
+    implements,
+    is_cuda_buffer,
+    is_zero_ip,
+    register_asyncio_task_timeout_detector,
+)
 from .allocate_strategy import AddressSpecified, allocated_type
 from .communication import (
     Channel,
@@ -137,6 +142,20 @@ def _register_message_handler(pool_type: Type["AbstractActorPool"]):
     return pool_type
 
 
+def _head_of_buffer(buffer: Any, size: int) -> Any:
+    """The part of a buffer that is filled by data of the size given in bytes"""
+    if is_cuda_buffer(buffer):
+        return buffer
+    view = memoryview(buffer)
+    if size == 0:
+        return bytearray()
+    if view.readonly:
+        raise ValueError("Cannot copy to a read-only buffer")
+    if size > view.nbytes:
+        raise ValueError(f"Cannot copy {size} bytes to a buffer of {view.nbytes}")
+    return view.cast("B")[:size]
+
+
 class AbstractActorPool(ABC):
     __slots__ = (
         "process_index",
@@ -564,11 +583,25 @@ class AbstractActorPool(ABC):
                     message,
                     channel,
                 ):
-                    buffers = [
-                        BufferRef.get_buffer(BufferRef(addr, uid))
-                        for addr, uid in message.content
-                    ]
+                    error = None
+                    buffers = []
+                    for addr, uid, size in message.content:
+                        try:
+                            buffer = BufferRef.get_buffer(BufferRef(addr, uid))
+                            buffers.append(_head_of_buffer(buffer, size))
+                        except Exception as e:
+                            error = e
+                    if error is not None:
+                        # what is sent has to be received anyway, otherwise it would
+                        # be taken for the next message
+                        buffers = [bytearray(size) for _, _, size in message.content]
                     await channel.recv_buffers(buffers)
+                    try:
+                        if error is not None:
+                            raise error
+                    finally:
+                        # no cycle of the error and this frame
+                        del error
                     processor.result = ResultMessage(
                         message_id=message.message_id, result=True
                     )
-- 
2.43.0

