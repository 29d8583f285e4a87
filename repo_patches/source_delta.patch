From 51d3bddd0f7b096cbdfe84ef7908b8f144759602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 001/242] fix: Lock and ScarletLock leaking a slot when
 cancelled while it is being passed on

---
 scarletio/core/traps/locks.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/traps/locks.py b/scarletio/core/traps/locks.py
index 2ebe9d5..5871cc7 100755
--- a/scarletio/core/traps/locks.py
+++ b/scarletio/core/traps/locks.py
@@ -72,7 +72,8 @@ class Lock:
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The slot we were waiting for got released to us already. Pass it on.
+                    self.release()
                 
                 raise
     
@@ -111,7 +112,10 @@ class Lock:
         """
         waiters = self._waiters
         while waiters:
-            yield from waiters[0]
+            # Do not await the waiter itself. If we get cancelled, then it would get cancelled with us.
+            future = Future(self._loop)
+            waiters[0].add_done_callback(lambda waiter: future.set_result_if_pending(None))
+            yield from future
     
     __await__ = __iter__
     
@@ -217,7 +221,8 @@ class ScarletLock(Lock):
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The slot we were waiting for got released to us already. Pass it on.
+                    self.release()
                 
                 raise
     
-- 
2.43.0


From 5c83e8f49d0b84b6a676c5f5665ccd84f56c288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 002/242] fix: Timeout.__exit__ raising TypeError when the
 timed out block swallowed the cancellation

---
 scarletio/web_common/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/helpers.py b/scarletio/web_common/helpers.py
index 820cdb9..9277807 100755
--- a/scarletio/web_common/helpers.py
+++ b/scarletio/web_common/helpers.py
@@ -309,7 +309,11 @@ class Timeout:
         
         state = self._state
         self._state = TIMEOUT_STATE_EXITED
-        if (state == TIMEOUT_STATE_TIMED_OUT) and issubclass(exception_type, CancelledError):
+        if (
+            (state == TIMEOUT_STATE_TIMED_OUT) and
+            (exception_type is not None) and
+            issubclass(exception_type, CancelledError)
+        ):
             raise TimeoutError from None
         
         return False
-- 
2.43.0


From 644adce0a0f6056e730b408f4559242f17b89301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 003/242] fix: Task.cancel_with being lost when the awaited
 future is already done

---
 scarletio/core/traps/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index 34f6ee7..bcf3efd 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -147,7 +147,7 @@ class Task(Future):
                 )
             
             waited_future = self._waited_future
-            if (waited_future is None) or waited_future.cancel():
+            if (waited_future is None) or (not waited_future.cancel()):
                 state |= FUTURE_STATE_CANCELLING_SELF
             
             self._result = exception
-- 
2.43.0


From fe805ba823f14192d1e5000420b264745a33b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 004/242] fix: AsyncQueue and AsyncLifoQueue losing or
 duplicating elements and leaving producers blocked

---
 scarletio/core/traps/queues.py | 370 ++++++++++++++++++---------------
 1 file changed, 199 insertions(+), 171 deletions(-)

diff --git a/scarletio/core/traps/queues.py b/scarletio/core/traps/queues.py
index 60b24c0..b3887b8 100755
--- a/scarletio/core/traps/queues.py
+++ b/scarletio/core/traps/queues.py
@@ -27,17 +27,20 @@ class AsyncQueue:
     _loop : ``EventThread``
         The loop to what the queue is bound to.
     
+    _max_length : `None | int`
+        The maximal length of the queue.
+    
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
     
-    _set_result_waiters : `None`, `list` of ``Future``
-        Result setter waiters for the queue to become empty.
+    _set_result_waiters : `None | list<(Future, object)>`
+        Result setter waiters for the queue to have free space. Each with the element to put on the queue.
     
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _waiters : `deque<Future>`
+        If the queue is empty and it's result is already waited, then contains the waiters. A ``.set_result`` call sets
+        the result of the first one of them, while a ``.set_exception`` call sets the exception of all of them.
     """
-    __slots__ = ('_exception', '_loop', '_results', '_set_result_waiters', '_waiter',)
+    __slots__ = ('_exception', '_loop', '_max_length', '_results', '_set_result_waiters', '_waiters',)
     
     def __new__(cls, loop, iterable = None, max_length = None, exception = None):
         """
@@ -69,14 +72,15 @@ class AsyncQueue:
                 )
         
         if iterable is None:
-            results = deque(maxlen = max_length)
+            results = deque()
         else:
-            results = deque(iterable, maxlen = max_length)
+            results = deque(deque(iterable, maxlen = max_length))
         
         self = object.__new__(cls)
         self._loop = loop
+        self._max_length = max_length
         self._results = results
-        self._waiter = None
+        self._waiters = deque()
         self._exception = exception
         self._set_result_waiters = None
         return self
@@ -85,7 +89,7 @@ class AsyncQueue:
     def set_result(self, element):
         """
         Puts the given `element` on the queue. If the queue is empty and it's result is already waited, feeds it to
-        ``._waiter`` instead.
+        the first waiter instead.
         
         Parameters
         ----------
@@ -98,23 +102,109 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`.
         """
         # should we raise InvalidStateError?
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result = 1
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
+        if self._feed_waiter(element):
+            set_result = 0
+        elif self._has_free_space():
+            self._results.append(element)
             set_result = 0
+        else:
+            set_result = 1
         
         return set_result
     
     
+    def _has_free_space(self):
+        """
+        Returns whether the queue has space for at least one more element.
+        
+        Returns
+        -------
+        has_free_space : `bool`
+        """
+        max_length = self._max_length
+        return (max_length is None) or (len(self._results) < max_length)
+    
+    
+    def _feed_waiter(self, element):
+        """
+        Feeds the element to the first pending waiter.
+        
+        Parameters
+        ----------
+        element : `object`
+            The element to feed.
+        
+        Returns
+        -------
+        fed : `bool`
+        """
+        waiters = self._waiters
+        while waiters:
+            if waiters.popleft().set_result_if_pending(element):
+                return True
+        
+        return False
+    
+    
+    def _wait_for_element(self):
+        """
+        Waits till an element or an exception is fed to us.
+        
+        This method is a generator.
+        
+        Returns
+        -------
+        element : `object`
+        
+        Raises
+        ------
+        BaseException
+            Exception set to the queue.
+        """
+        waiters = self._waiters
+        waiter = Future(self._loop)
+        waiters.append(waiter)
+        
+        try:
+            return (yield from waiter)
+        except:
+            try:
+                waiters.remove(waiter)
+            except ValueError:
+                # If we are interrupted after an element was fed to us, pass it on.
+                if waiter.is_done() and (waiter.get_exception() is None):
+                    element = waiter.get_result()
+                    if not self._feed_waiter(element):
+                        self._put_back(element)
+            
+            raise
+    
+    
+    def _put_back(self, element):
+        """
+        Puts back an element to the queue as the next one to be retrieved.
+        
+        Parameters
+        ----------
+        element : `object`
+            The element to put back.
+        """
+        self._results.appendleft(element)
+    
+    
+    def _pop_element(self):
+        """
+        Pops the next element of the queue. The queue must not be empty.
+        
+        Returns
+        -------
+        element : `object`
+        """
+        element = self._results.popleft()
+        self._poll_from_set_result_waiters()
+        return element
+    
+    
     async def set_result_wait(self, element):
         """
         Puts the given `element` on the queue. If the queue is full, blocks till it's elements are exhausted.
@@ -132,47 +222,38 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`. If you needed to wait
             for setting the result, returns `2`.
         """
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result_waiters = self._set_result_waiters
-                if (set_result_waiters is None):
-                    set_result_waiters = []
-                    self._set_result_waiters = set_result_waiters
-                
-                waiter = Future(self._loop)
-                
-                set_result_waiters.append(waiter)
-                
+        if self._feed_waiter(element):
+            set_result = 0
+        elif self._has_free_space():
+            self._results.append(element)
+            set_result = 0
+        else:
+            set_result_waiters = self._set_result_waiters
+            if (set_result_waiters is None):
+                set_result_waiters = []
+                self._set_result_waiters = set_result_waiters
+            
+            waiter = Future(self._loop)
+            item = (waiter, element)
+            set_result_waiters.append(item)
+            
+            try:
+                was_result_set = await waiter
+            except:
                 try:
-                    can_set_result = await waiter
-                except:
-                    try:
-                        set_result_waiters.remove(waiter)
-                    except ValueError:
-                        pass
-                    else:
-                        if not set_result_waiters:
-                            self._set_result_waiters = None
-                    
-                    raise
-                
+                    set_result_waiters.remove(item)
+                except ValueError:
+                    pass
                 else:
-                    if can_set_result:
-                        results.append(element)
-                        set_result = 2
-                    else:
-                        set_result = 1
+                    if (not set_result_waiters) and (self._set_result_waiters is set_result_waiters):
+                        self._set_result_waiters = None
                 
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+                raise
+            
+            if was_result_set:
+                set_result = 2
+            else:
+                set_result = 1
         
         return set_result
     
@@ -180,7 +261,7 @@ class AsyncQueue:
     def set_exception(self, exception):
         """
         Sets the given `exception` to raise, when it's queue gets empty. If the queue is empty and it's result is
-        already waited, feeds it to ``._waiter`` instead.
+        already waited, feeds it to the waiters instead.
         
         Parameters
         ----------
@@ -203,10 +284,9 @@ class AsyncQueue:
         
         self._exception = exception
         
-        waiter = self._waiter
-        if (waiter is not None):
-            self._waiter = None
-            waiter.set_exception_if_pending(exception)
+        waiters = self._waiters
+        while waiters:
+            waiters.popleft().set_exception_if_pending(exception)
         
         # cancel all waiters
         set_result_waiters = self._set_result_waiters
@@ -214,8 +294,8 @@ class AsyncQueue:
             self._set_result_waiters = None
             
             while set_result_waiters:
-                set_result_waiters.pop(0).set_result_if_pending(False)
-            
+                set_result_waiters.pop(0)[0].set_result_if_pending(False)
+    
     
     def __await__(self):
         """
@@ -234,23 +314,14 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            return results.popleft()
+        if self._results:
+            return self._pop_element()
         
         exception = self._exception
         if exception is not None:
             raise exception
         
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        try:
-            return (yield from waiter)
-        finally:
-            self._poll_from_set_result_waiters()
+        return (yield from self._wait_for_element())
     
     get_result = to_coroutine(copy_func(__await__))
     
@@ -261,19 +332,19 @@ class AsyncQueue:
     
     def _poll_from_set_result_waiters(self):
         """
-        Polls one future from set result waiters.
+        Puts the elements of the result setter waiters on the queue while there is free space for them.
         """
         set_result_waiters = self._set_result_waiters
-        if (set_result_waiters is not None):
-            while True:
-                set_result = set_result_waiters.pop(0).set_result_if_pending(True)
-                
-                if (not set_result_waiters):
-                    self._set_result_waiters = None
-                    break
-                
-                if set_result == 1:
-                    break
+        if (set_result_waiters is None):
+            return
+        
+        while set_result_waiters and self._has_free_space():
+            waiter, element = set_result_waiters.pop(0)
+            if waiter.set_result_if_pending(True):
+                self._results.append(element)
+        
+        if not set_result_waiters:
+            self._set_result_waiters = None
     
     
     def get_result_no_wait(self):
@@ -294,11 +365,8 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
-            return result
+        if self._results:
+            return self._pop_element()
         
         exception = self._exception
         if exception is None:
@@ -334,7 +402,7 @@ class AsyncQueue:
             
         repr_parts.append(']')
         
-        max_length = results.maxlen
+        max_length = self._max_length
         if (max_length is not None):
             repr_parts.append(', max_length = ')
             repr_parts.append(repr(max_length))
@@ -382,11 +450,8 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
-            return result
+        if self._results:
+            return self._pop_element()
         
         exception = self._exception
         if exception is not None:
@@ -395,15 +460,17 @@ class AsyncQueue:
             
             raise exception
         
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
         try:
-            return (await waiter)
+            return (await self._await_element())
         except CancelledError as err:
-            raise StopAsyncIteration from err
+            # Do not eat up the cancellation of the task itself
+            if err is self._exception:
+                raise StopAsyncIteration from err
+            
+            raise
+    
+    
+    _await_element = to_coroutine(copy_func(_wait_for_element))
     
     # deque operations
     
@@ -416,7 +483,7 @@ class AsyncQueue:
         -------
         max_length: `int`
         """
-        return self._results.maxlen
+        return self._max_length
     
     
     def clear(self):
@@ -424,6 +491,7 @@ class AsyncQueue:
         Clears the queue's results.
         """
         self._results.clear()
+        self._poll_from_set_result_waiters()
     
     
     def copy(self):
@@ -437,8 +505,9 @@ class AsyncQueue:
         new = object.__new__(type(self))
         
         new._loop = self._loop
+        new._max_length = self._max_length
         new._results = self._results.copy()
-        new._waiter = None
+        new._waiters = deque()
         new._exception = self._exception
         new._set_result_waiters = None
         
@@ -462,14 +531,13 @@ class AsyncQueue:
     if __debug__:
         def __del__(self):
             """
-            If the queue has ``_waiter`` set, silences it.
+            If the queue has ``_waiters``, silences them.
             
             Notes
             -----
             This function is only present, when `__debug__` is set as `True`.
             """
-            waiter = self._waiter
-            if waiter is not None:
+            for waiter in self._waiters:
                 waiter.silence()
 
 
@@ -486,68 +554,28 @@ class AsyncLifoQueue(AsyncQueue):
         The exception set as the queue's result to raise, when the queue gets empty.
     _loop : ``EventThread``
         The loop to what the queue is bound to.
+    _max_length : `None | int`
+        The maximal length of the queue.
+    
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
-    """
-    __slots__ = ()
-    
-    @copy_docs(AsyncQueue.__await__)
-    def __await__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        return (yield from waiter)
     
-    @copy_docs(AsyncQueue.result_no_wait)
-    def get_result_no_wait(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is None:
-            raise IndexError('The queue is empty')
-        
-        raise exception
+    _set_result_waiters : `None | list<(Future, object)>`
+        Result setter waiters for the queue to have free space. Each with the element to put on the queue.
     
+    _waiters : `deque<Future>`
+        If the queue is empty and it's result is already waited, then contains the waiters. A ``.set_result`` call sets
+        the result of the first one of them, while a ``.set_exception`` call sets the exception of all of them.
+    """
+    __slots__ = ()
     
-    @property
-    def result_no_wait(self):
-        return self.get_result_no_wait
+    @copy_docs(AsyncQueue._put_back)
+    def _put_back(self, element):
+        self._results.append(element)
     
     
-    @copy_docs(AsyncQueue.__anext__)
-    async def __anext__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        try:
-            return (await waiter)
-        except CancelledError as err:
-            raise StopAsyncIteration from err
+    @copy_docs(AsyncQueue._pop_element)
+    def _pop_element(self):
+        element = self._results.pop()
+        self._poll_from_set_result_waiters()
+        return element
-- 
2.43.0


From b980a9837d8f583c09e0eaf2bc1a2500350b7ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 005/242] fix: TaskGroup losing a task propagated to an already
 cancelled popping waiter

---
 scarletio/core/traps/task_group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index 01806fa..3f64d83 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -459,6 +459,10 @@ class TaskGroup(RichAttributeErrorBaseType):
         should_add_to_done = 1
         
         for waiter, handler in self.waiters.items():
+            # Skip waiters that are already done (cancelled), since no one would receive the future.
+            if waiter.is_done():
+                continue
+            
             try:
                 should_add_to_done &= handler.send(future)
             except StopIteration as err:
-- 
2.43.0


From b9a20136ef6acf6df408409691d17e01c8a6a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 006/242] fix: TaskGroupContextManager.__repr__ referring to a
 not existing attribute

---
 scarletio/core/traps/task_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index 3f64d83..40cd327 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -99,7 +99,7 @@ class TaskGroupContextManager(RichAttributeErrorBaseType):
     
     def __repr__(self):
         """Returns the task group context manager representation."""
-        return f'<{type(self).__name__} task_group = {self.taskk_group}, leaver = {self.leaver.__name__}>'
+        return f'<{type(self).__name__} task_group = {self.task_group!r}, leaver = {self.leaver.__name__}>'
 
 
 def _handler_wait_next():
-- 
2.43.0


From 31d94ac78b6c5c7c894827a7c0a31d87c4be7e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 007/242] fix: TaskGroup.wait_exception reporting plain
 cancelled tasks as failed with exception

---
 scarletio/core/traps/task_group.py | 35 ++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index 40cd327..fc053e2 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -2,6 +2,8 @@ __all__ = ('TaskGroup',)
 
 from ...utils import RichAttributeErrorBaseType
 
+from ..exceptions import CancelledError
+
 from .future import Future
 from .future_states import FUTURE_STATE_CANCELLED, FUTURE_STATE_RESULT_RAISE
 from .task import Task
@@ -102,6 +104,31 @@ class TaskGroupContextManager(RichAttributeErrorBaseType):
         return f'<{type(self).__name__} task_group = {self.task_group!r}, leaver = {self.leaver.__name__}>'
 
 
+def _did_fail_with_exception(future):
+    """
+    Returns whether the done future failed with an exception. Plain cancellation does not count as one.
+    
+    Tasks store the received cancellation as their result.
+    
+    Parameters
+    ----------
+    future : ``Future``
+        The future to check.
+    
+    Returns
+    -------
+    did_fail_with_exception : `bool`
+    """
+    state = future._state
+    if not (state & FUTURE_STATE_RESULT_RAISE):
+        return False
+    
+    if (state & FUTURE_STATE_CANCELLED) and isinstance(future._result, CancelledError):
+        return False
+    
+    return True
+
+
 def _handler_wait_next():
     """
     Task group handler waiting for the next finishing task.
@@ -208,7 +235,7 @@ def _handler_wait_exception(task_group):
         The first failing task.
     """
     for future in task_group.done:
-        if future._state & FUTURE_STATE_RESULT_RAISE:
+        if _did_fail_with_exception(future):
             return 1, future
     
     pending = task_group.pending
@@ -217,7 +244,7 @@ def _handler_wait_exception(task_group):
             return 1, None
         
         future = (yield 1)
-        if future._state & FUTURE_STATE_RESULT_RAISE:
+        if _did_fail_with_exception(future):
             return 1, future
 
 
@@ -245,7 +272,7 @@ def _handler_wait_exception_and_pop(task_group):
         The first failing task.
     """
     for future in task_group.done:
-        if future._state & FUTURE_STATE_RESULT_RAISE:
+        if _did_fail_with_exception(future):
             task_group.done.discard(future)
             return 0, future
     
@@ -255,7 +282,7 @@ def _handler_wait_exception_and_pop(task_group):
             return 1, None
         
         future = (yield 1)
-        if future._state & FUTURE_STATE_RESULT_RAISE:
+        if _did_fail_with_exception(future):
             return 0, future
 
 
-- 
2.43.0


From 33a82d12ba7eed4293caa7206b6d0e537ead8283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 008/242] fix: repr of WeakCallable and weak_method calling the
 referenced callable

---
 scarletio/utils/weak_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/weak_core.py b/scarletio/utils/weak_core.py
index 16ec784..c1587ec 100755
--- a/scarletio/utils/weak_core.py
+++ b/scarletio/utils/weak_core.py
@@ -132,7 +132,8 @@ class WeakReferer(WeakrefType):
     def __repr__(self):
         repr_parts = ['<', type(self).__name__]
         
-        value = self()
+        # Subtypes may overwrite `__call__`
+        value = WeakReferer.__call__(self)
         if value is None:
             repr_parts.append(' (dead)')
         else:
-- 
2.43.0


From e81afd2710db52177e77229defebebc38701b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 009/242] fix: Cycler ignoring cancel and reschedule done by
 the called functions and from other threads

---
 scarletio/core/event_loop/cycler.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/scarletio/core/event_loop/cycler.py b/scarletio/core/event_loop/cycler.py
index 372f957..f5f01b0 100755
--- a/scarletio/core/event_loop/cycler.py
+++ b/scarletio/core/event_loop/cycler.py
@@ -1,5 +1,6 @@
 __all__ = ('Cycler',)
 
+from heapq import heappush
 from threading import current_thread
 
 from ...utils import CallableAnalyzer, include
@@ -7,6 +8,8 @@ from ...utils import CallableAnalyzer, include
 from ..time import LOOP_TIME
 from ..traps import Task
 
+from .handles import TimerHandle
+
 
 write_exception_async = include('write_exception_async')
 
@@ -99,7 +102,7 @@ class CyclerCallable:
         if self_priority > other_priority:
             return True
         
-        if other_priority == other_priority:
+        if self_priority == other_priority:
             if self.func == other.func:
                 return True
         
@@ -134,7 +137,7 @@ class CyclerCallable:
         if self_priority < other_priority:
             return True
         
-        if other_priority == other_priority:
+        if self_priority == other_priority:
             if self.func == other.func:
                 return True
         
@@ -240,7 +243,9 @@ class Cycler:
         if current_thread() is loop:
             handle = loop.call_after(cycle_time, cls._run, self)
         else:
-            handle = loop.call_soon_thread_safe_lazy(type(loop).call_after, loop, cycle_time, cls._run, self)
+            # The scheduled handles can be modified only from the loop, but we want to own the actual timer already.
+            handle = TimerHandle(LOOP_TIME() + cycle_time, cls._run, (self,))
+            loop.call_soon_thread_safe_lazy(heappush, loop._scheduled, handle)
         
         self.handle = handle
         
@@ -250,7 +255,11 @@ class Cycler:
         """
         Runs all the functions added to the cycler.
         """
-        for func in self.funcs:
+        # Schedule the next cycle before calling anything, so the called functions can cancel or reschedule it.
+        handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
+        self.handle = handle
+        
+        for func in self.funcs.copy():
             try:
                 result = func.func(self)
                 if func.is_async:
@@ -267,7 +276,9 @@ class Cycler:
                     loop = self.loop,
                 )
         
-        self.handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
+        # If they did neither, count the cycle time from the end of this one.
+        if self.handle is handle:
+            self._reschedule()
     
     def __repr__(self):
         """Returns the cycler's representation."""
-- 
2.43.0


From 907f2d2ca568ecb568a1601ba2c7adcc04f1d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 010/242] fix: ScarletExecutor losing exceptions and leaving
 tasks running when left

---
 scarletio/core/traps/async_executing.py | 59 +++++++------------------
 1 file changed, 15 insertions(+), 44 deletions(-)

diff --git a/scarletio/core/traps/async_executing.py b/scarletio/core/traps/async_executing.py
index daff54f..c4456cf 100755
--- a/scarletio/core/traps/async_executing.py
+++ b/scarletio/core/traps/async_executing.py
@@ -344,56 +344,27 @@ class ScarletExecutor:
         
         This method is a coroutine.
         """
-        if exception_type is None:
-            active = self._active
-            
-            while active:
-                waiter = self._waiter
-                if waiter is None:
-                    waiter = Future(self._loop)
-                    self._waiter = waiter
-                
-                await waiter
-                
-                exception = self._exception
-                if exception is None:
+        active = self._active
+        
+        try:
+            if exception_type is None:
+                while active and (self._exception is None):
                     waiter = Future(self._loop)
                     self._waiter = waiter
-                    continue
-                
-                self._callback = None
-                
-                self._waiter = None
-                self._loop = None
-                self._exception = None
-                
-                for future in active:
-                    future.cancel()
-                
-                active.clear()
-                
-                raise exception
+                    await waiter
+        
+        finally:
+            for future in active:
+                future.cancel()
             
-            self._callback = None
+            active.clear()
+            
+            exception = self._exception
             
+            self._callback = None
             self._waiter = None
             self._loop = None
             self._exception = None
-            return False
-        
-        active = self._active
-        for future in active:
-            future.cancel()
-        
-        active.clear()
-        
-        exception = self._exception
-        
-        self._callback = None
-        
-        self._waiter = None
-        self._loop = None
-        self._exception = None
         
         if exception is None:
             if exception_type is CancelledError:
@@ -402,7 +373,7 @@ class ScarletExecutor:
                 return False
         else:
             raise exception
-
+    
     
     def __repr__(self):
         """Returns the scarlet executor's representation."""
-- 
2.43.0


From ab2f40e901b223c0864aaaa7e8d3d7a58970eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 011/242] fix: SyncQueue and executors losing results, waiters
 and executor threads when used from more threads

---
 scarletio/core/event_loop/executor.py | 138 ++++++++++++++------------
 1 file changed, 72 insertions(+), 66 deletions(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 426d37b..b74263d 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -33,20 +33,24 @@ class SyncWait:
     
     Attributes
     ----------
+    _exception : `None | BaseException`
+        The waiter's exception if applicable. Defaults to `None`.
     _result : `object`
         The waiter's result if applicable. Defaults to `None`.
     _waiter : `threading.SyncEvent`
         Threading event, what is set, when the waiter's result is set.
     """
-    __slots__ = ('_result', '_waiter',)
+    __slots__ = ('_exception', '_result', '_waiter',)
     
     def __init__(self):
         """
         Creates a new ``SyncWait``.
         """
+        self._exception = None
         self._result = None
         self._waiter = SyncEvent()
-        
+    
+    
     def set_result(self, result):
         """
         Sets the waiter's result.
@@ -60,6 +64,14 @@ class SyncWait:
         self._waiter.set()
     
     
+    def cancel(self):
+        """
+        Cancels the waiter.
+        """
+        self._exception = CancelledError()
+        self._waiter.set()
+    
+    
     def wait(self):
         """
         Waits till the waiter's result is set, then returns it.
@@ -70,12 +82,15 @@ class SyncWait:
         
         Raises
         ------
-        TypeError
-            The set exception is not a  `BaseException`.
-        BaseException
-            The set exception.
+        CancelledError
+            The waiter was cancelled.
         """
         self._waiter.wait()
+        
+        exception = self._exception
+        if (exception is not None):
+            raise exception
+        
         return self._result
 
 
@@ -91,10 +106,10 @@ class SyncQueue:
         Threading lock to grant exclusive access to the queue.
     _results : `deque`
         A deque of the results set to the queue.
-    _waiter : `None`, ``SyncWait``
-        Result waiter of the queue.
+    _waiters : `deque` of ``SyncWait``
+        Result waiters of the queue.
     """
-    __slots__ = ('_cancelled', '_lock', '_results', '_waiter',)
+    __slots__ = ('_cancelled', '_lock', '_results', '_waiters',)
     
     def __init__(self, iterable = None, max_length = None, cancelled = False):
         """
@@ -110,7 +125,7 @@ class SyncQueue:
             Whether the queue should be initially cancelled.
         """
         self._results = deque(maxlen = max_length) if iterable is None else deque(iterable, maxlen = max_length)
-        self._waiter = None
+        self._waiters = deque()
         self._cancelled = cancelled
         self._lock = SyncLock()
     
@@ -126,17 +141,16 @@ class SyncQueue:
         """
         with self._lock:
             # Should we raise InvalidStateError?
-            waiter = self._waiter
-            if waiter is None:
-                self._results.append(result)
+            waiters = self._waiters
+            if waiters:
+                waiters.popleft().set_result(result)
             else:
-                waiter.set_result(result)
-                self._waiter = None
+                self._results.append(result)
     
     
     def cancel(self):
         """
-        Cancels the sync-queue and it's waiter as well.
+        Cancels the sync-queue and it's waiters as well.
         """
         if self._cancelled:
             return
@@ -145,10 +159,9 @@ class SyncQueue:
             # Should we raise InvalidStateError?
             self._cancelled = True
             
-            waiter = self._waiter
-            if waiter is not None:
-                waiter.cancel()
-                self._waiter = None
+            waiters = self._waiters
+            while waiters:
+                waiters.popleft().cancel()
     
     
     def get_result(self):
@@ -165,13 +178,11 @@ class SyncQueue:
             if results:
                 return results.popleft()
             
-            waiter = self._waiter
-            if waiter is None:
-                if self._cancelled:
-                    raise CancelledError()
-                
-                waiter = SyncWait()
-                self._waiter = waiter
+            if self._cancelled:
+                raise CancelledError()
+            
+            waiter = SyncWait()
+            self._waiters.append(waiter)
         
         return waiter.wait()
     
@@ -230,7 +241,7 @@ class SyncQueue:
                     result = results[index]
                     index += 1
                     
-                    results.append(repr(result))
+                    repr_parts.append(repr(result))
                     if index == limit:
                         break
                     
@@ -285,7 +296,7 @@ class SyncQueue:
             new = object.__new__(type(self))
             
             new._results = self._results.copy()
-            new._waiter = None
+            new._waiters = deque()
             new._cancelled = self._cancelled
             new._lock = SyncLock()
             
@@ -477,22 +488,6 @@ class ExecutorThread(Thread):
         self.queue.set_result(None)
     
     
-    def _shrink_queue(self):
-        """
-        Removes all the done elements from the executor's queue.
-        """
-        results = self.queue._results
-        index = 0
-        limit = len(results)
-        while index < limit:
-            future = results[index]
-            if future.is_done():
-                del results[index]
-                limit -= 1
-            else:
-                index += 1
-    
-    
     def get_stack(self, limit = -1):
         """
         Return the list of stack frames for the executor.
@@ -691,11 +686,18 @@ class ExecutionPair:
         return f'{type(self).__name__}(func = {self.func!r}, future = {self.future!r})'
 
 
+def _execution_marker():
+    """
+    Queued up to executor threads to find out when they finish. Since the queued up functions are executed in order, by
+    the time this one is, the thread finished with everything before it.
+    """
+
+
 class _ClaimEndedCallback:
     """
     Future callback set to result waiter futures when calling ``ClaimedExecutor.release``.
     
-    Gives back the executor thread, when it's queue becomes empty.
+    Gives back the executor thread, since it finished with everything what was queued up before the release.
     
     Parameters
     ----------
@@ -721,13 +723,8 @@ class _ClaimEndedCallback:
         self.executor = executor
     
     def __call__(self, future):
-        """Gives back the executor thread, when it's queue becomes empty."""
-        loop = future._loop
-        executor = self.executor
-        executor._shrink_queue()
-        if not executor.queue:
-            parent = self.parent
-            loop.call_soon_thread_safe(type(parent)._claim_ended, parent, executor)
+        """Gives back the executor thread."""
+        self.parent._claim_ended(self.executor)
     
     def __eq__(self, other):
         """Returns whether the two claim ended callbacks are the same."""
@@ -743,12 +740,14 @@ class ClaimedExecutor:
     
     Attributes
     ----------
+    _last_future : `None | Future`
+        The future of the last queued up function.
     executor : ``ExecutorThread``
         The claimed executor thread.
     parent : ``Executor``
         The parent executor from where the ``.executor`` is claimed.
     """
-    __slots__ = ('executor', 'parent',)
+    __slots__ = ('_last_future', 'executor', 'parent',)
     
     def __init__(self, parent, executor):
         """
@@ -761,6 +760,7 @@ class ClaimedExecutor:
         executor : ``ExecutorThread``
             The claimed executor thread.
         """
+        self._last_future = None
         self.parent = parent
         self.executor = executor
     
@@ -793,6 +793,7 @@ class ClaimedExecutor:
         future = self.parent.create_future()
         
         executor.queue.set_result(ExecutionPair(func, future,),)
+        self._last_future = future
         
         return future
     
@@ -805,21 +806,19 @@ class ClaimedExecutor:
         if executor is None:
             return
         
-        executor._shrink_queue()
+        self.executor = None
         
-        results = executor.queue._results
-        if results:
-            callback = _ClaimEndedCallback(self.parent, executor)
-            for element in results:
-                future = element.future
-                if future.is_done():
-                    continue
-                
-                future.add_done_callback(callback)
-        else:
+        last_future = self._last_future
+        self._last_future = None
+        
+        # If the last future is done and it was not cancelled then the executor thread is not doing anything.
+        if (last_future is None) or (last_future.is_done() and (not last_future.is_cancelled())):
             self.parent._claim_ended(executor)
+            return
         
-        self.executor = None
+        future = Future(last_future._loop)
+        future.add_done_callback(_ClaimEndedCallback(self.parent, executor))
+        executor.queue.set_result(ExecutionPair(_execution_marker, future))
     
     __del__ = release
     
@@ -862,6 +861,13 @@ class ExecutionEndedCallback:
         
     def __call__(self, future):
         """calls the parent executor's ``._execution_ended`` method, giving the executor thread back to it."""
+        # If cancelled, then the executor thread may be still running the function. Wait till it finishes with it.
+        if future.is_cancelled():
+            future = Future(future._loop)
+            future.add_done_callback(self)
+            self.executor.queue.set_result(ExecutionPair(_execution_marker, future))
+            return
+        
         parent = self.parent
         future._loop.call_soon_thread_safe(type(parent)._execution_ended, parent, self.executor)
     
-- 
2.43.0


From 39e54867d2e3572744ec0363b8b852155f6fc29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 012/242] fix: enter_executor mishandling cancellation and
 hand-back to the event loop

---
 scarletio/core/traps/task_thread_switcher.py | 42 +++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/scarletio/core/traps/task_thread_switcher.py b/scarletio/core/traps/task_thread_switcher.py
index b5f3ec0..a986c24 100755
--- a/scarletio/core/traps/task_thread_switcher.py
+++ b/scarletio/core/traps/task_thread_switcher.py
@@ -13,7 +13,6 @@ from .future_states import (
 from .task import Task
 
 
-FUTURE_MASK_CANCEL_INITIALISED_BEFORE = FUTURE_STATE_CANCELLING_SELF | FUTURE_STATE_CANCELLED
 FUTURE_MASK_CANCEL_WITH_EXCEPTION = FUTURE_STATE_RESULT_RAISE | FUTURE_STATE_CANCELLED
 
 
@@ -108,8 +107,12 @@ class enter_executor:
         """
         Moves the task's execution to an executor thread and wakes it up.
         """
-        callbacks = self._enter_future._callbacks
-        callbacks.clear()
+        enter_future = self._enter_future
+        # If we got cancelled already, the task is waken up by the future.
+        if enter_future.is_done():
+            return
+        
+        enter_future._callbacks.clear()
         
         task = self._task
         task.add_done_callback(self._cancel_callback)
@@ -137,36 +140,42 @@ class enter_executor:
         Wraps the tasks' section's running inside of an executor, still allowing it to use `await`-s.
         """
         task = self._task
-        # relink future task
         loop = task._loop
         end_future = Future(loop)
-        task._waited_future = end_future
         self._exit_future = end_future
         
         # Set result to the enter task, so it can be retrieved.
-        self._enter_future.set_result(None)
+        enter_future = self._enter_future
+        if not enter_future.set_result_if_pending(None):
+            # Cancelled before we could enter, give back the control.
+            loop.call_soon_thread_safe(task._wake_up, enter_future)
+            return
+        
+        # relink future task
+        task._waited_future = None
         
         coroutine = task._coroutine
         
         # If some1 await at the block, we will sync_wrap it. If the exit future is awaited, then we quit.
         local_waited_future = None
+        # The first step enters the block. We can not be cancelled at that point.
+        entered = False
         
         try:
             while True:
                 if (local_waited_future is not None):
                     if local_waited_future is end_future:
-                        end_future.set_result(None)
-                        loop.call_soon_thread_safe(task._step)
+                        end_future.set_result_if_pending(None)
+                        loop.call_soon_thread_safe(task._wake_up, end_future)
                         break
                     
                     self._waited_future = local_waited_future
-                    if task._state & FUTURE_MASK_CANCEL_INITIALISED_BEFORE:
-                        local_waited_future.cancel()
                     
                     try:
                         local_waited_future.sync_wrap().wait_for_completion()
                     finally:
                         local_waited_future = None
+                        task._waited_future = None
                 
                 if task.is_done():
                     # there is no reason to raise
@@ -174,22 +183,24 @@ class enter_executor:
                 
                 try:
                     # Call either coroutine.throw(err) or coroutine.send(None).
-                    if task._state & FUTURE_STATE_CANCELLING_SELF:
+                    state = task._state
+                    if entered and (state & FUTURE_STATE_CANCELLING_SELF):
+                        task._state = state & ~FUTURE_STATE_CANCELLING_SELF
                         result = coroutine.throw(CancelledError())
                     else:
+                        entered = True
                         result = coroutine.send(None)
                 
                 except StopIteration as retrieved_exception:
                     state = task._state
                     if state & FUTURE_STATE_CANCELLING_SELF:
                         state |= FUTURE_STATE_CANCELLED
-                        task._loop._schedule_callbacks(self)
                     else:
                         task._result = retrieved_exception.value
                         state |= FUTURE_STATE_RESULT_RETURN
                     
                     task._state = state
-                    loop._schedule_callbacks(self)
+                    loop._schedule_callbacks(task)
                     loop.wake_up()
                     break
                     
@@ -202,14 +213,14 @@ class enter_executor:
                     else:
                         result.__cause__ = retrieved_exception
                     
-                    loop._schedule_callbacks(self)
+                    loop._schedule_callbacks(task)
                     loop.wake_up()
                     break
                 
                 except BaseException as retrieved_exception:
                     task._result = retrieved_exception
                     task._state |= FUTURE_STATE_RESULT_RAISE
-                    loop._schedule_callbacks(self)
+                    loop._schedule_callbacks(task)
                     loop.wake_up()
                     break
                 
@@ -223,6 +234,7 @@ class enter_executor:
                         if state & FUTURE_STATE_CANCELLING_SELF:
                             if result.cancel():
                                 task._state = state & ~FUTURE_STATE_CANCELLING_SELF
+                                loop.wake_up()
                     else:
                         continue
         
-- 
2.43.0


From 8daf4c574f36500b6f8fa8a9934f3a9f3f25334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 013/242] fix: future wrappers missing results set meanwhile
 and setting their waiter from a foreign thread

---
 scarletio/core/traps/future_wrapper_async.py | 17 +++++++++++++----
 scarletio/core/traps/future_wrapper_sync.py  |  6 ++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/scarletio/core/traps/future_wrapper_async.py b/scarletio/core/traps/future_wrapper_async.py
index 2695b4a..f42aebc 100755
--- a/scarletio/core/traps/future_wrapper_async.py
+++ b/scarletio/core/traps/future_wrapper_async.py
@@ -27,8 +27,8 @@ def _set_future_waiter_callback(waiter, future):
     future : ``Future``
         The finished future.
     """
-    if waiter.set_result_if_pending(True):
-        waiter._loop.wake_up()
+    # We are in an other thread, the waiter can be modified only from its own.
+    waiter._loop.call_soon_thread_safe(Future.set_result_if_pending, waiter, True)
 
 
 def _skip_loop_then_set_cancellation_waiter_callback(loop, waiter):
@@ -54,8 +54,8 @@ def _set_cancellation_waiter_callback(waiter):
     waiter : ``Future``
         Waiter to set.
     """
-    if waiter.set_result_if_pending(True):
-        waiter._loop.wake_up()
+    # We are in an other thread, the waiter can be modified only from its own.
+    waiter._loop.call_soon_thread_safe(Future.set_result_if_pending, waiter, True)
 
 
 async def _propagate_cancellation_async(future, loop):
@@ -180,6 +180,9 @@ class FutureWrapperAsync(FutureWrapperBase):
         
         callback = MethodType(_set_future_waiter_callback, waiter)
         future.add_done_callback(callback)
+        # The future's loop may have scheduled its callbacks while we were adding ours.
+        if future.is_done():
+            waiter.set_result_if_pending(True)
         
         if (timeout is None):
             timeout_handle = None
@@ -248,6 +251,9 @@ class FutureWrapperAsync(FutureWrapperBase):
         
         callback = MethodType(_set_future_waiter_callback, waiter)
         future.add_done_callback(callback)
+        # The future's loop may have scheduled its callbacks while we were adding ours.
+        if future.is_done():
+            waiter.set_result_if_pending(True)
         
         if (timeout is None):
             timeout_handle = None
@@ -296,6 +302,9 @@ class FutureWrapperAsync(FutureWrapperBase):
         
         callback = MethodType(_set_future_waiter_callback, waiter)
         future.add_done_callback(callback)
+        # The future's loop may have scheduled its callbacks while we were adding ours.
+        if future.is_done():
+            waiter.set_result_if_pending(True)
         
         future._loop.wake_up()
         
diff --git a/scarletio/core/traps/future_wrapper_sync.py b/scarletio/core/traps/future_wrapper_sync.py
index 5f9316d..53b7a89 100755
--- a/scarletio/core/traps/future_wrapper_sync.py
+++ b/scarletio/core/traps/future_wrapper_sync.py
@@ -141,6 +141,9 @@ class FutureWrapperSync(FutureWrapperBase):
         
         callback = MethodType(_set_waiter_future_callback, waiter)
         future.add_done_callback(callback)
+        # The future's loop may have scheduled its callbacks while we were adding ours.
+        if future.is_done():
+            waiter.set()
         
         future._loop.wake_up()
         
@@ -194,6 +197,9 @@ class FutureWrapperSync(FutureWrapperBase):
         
         callback = MethodType(_set_waiter_future_callback, waiter)
         future.add_done_callback(callback)
+        # The future's loop may have scheduled its callbacks while we were adding ours.
+        if future.is_done():
+            waiter.set()
         
         future._loop.wake_up()
         
-- 
2.43.0


From 4dcfa4c38dcbd0996df523afacdcf6a1b5b730d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 014/242] fix: EventThread started twice when more threads use
 it first at the same time

---
 scarletio/core/event_loop/event_loop.py       | 23 +++++++++++--------
 .../event_loop_functionality_helpers.py       |  3 ++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index f5a45bb..7f44dc6 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -15,7 +15,7 @@ from socket import (
     socket as Socket
 )
 from stat import S_ISSOCK
-from threading import Thread, current_thread
+from threading import Lock as SyncLock, Thread, current_thread
 
 from ...utils import IS_UNIX, Reference, WeakSet, copy_docs, export, include, is_coroutine
 
@@ -82,6 +82,8 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         respective loop time.
     _self_read_socket : `Socket`
         Socket, which reads from ``._self_write_socket``.
+    _start_lock : `threading.Lock`
+        Lock to ensure that the thread is started up only once.
     context : ``EventThreadContextManager``
         Context of the event loop to ensure it's safe startup and closing.
     current_task : `None`, ``Task``
@@ -104,8 +106,8 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
     
     __slots__ = (
         '__dict__', '__weakref__', '_async_generators', '_async_generators_shutdown_called', '_self_write_socket',
-        '_ready', '_scheduled', '_self_read_socket', 'context', 'current_task', 'running', 'selector', 'should_run',
-        'started',
+        '_ready', '_scheduled', '_self_read_socket', '_start_lock', 'context', 'current_task', 'running', 'selector',
+        'should_run', 'started',
     )
     
     def __init__(self):
@@ -131,6 +133,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         
         self._self_read_socket = None
         self._self_write_socket = None
+        self._start_lock = SyncLock()
     
     
     def is_started(self):
@@ -196,12 +199,14 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         if thread_waiter is None:
             return
         
-        if not self._started.is_set():
-            try:
-                Thread.start(self)
-            except:
-                thread_waiter.set()
-                raise
+        # More threads may want to start us at the same time.
+        with self._start_lock:
+            if not self._started.is_set():
+                try:
+                    Thread.start(self)
+                except:
+                    thread_waiter.set()
+                    raise
         
         thread_waiter.wait()
     
diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index de6238c..ca5c4f0 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -151,7 +151,7 @@ class EventThreadRunDescriptor:
             return obj.caller
         
         if not obj.started:
-            if obj._started.is_set():
+            if current_thread() is obj:
                 obj.started = True
                 return obj.runner
             else:
@@ -159,6 +159,7 @@ class EventThreadRunDescriptor:
                 return obj.caller
         
         if not obj._is_stopped:
+            obj._maybe_start()
             return obj.caller
         
         raise RuntimeError(f'The {type(obj).__name__} is already stopped.')
-- 
2.43.0


From 063e5394decfc40577ea6b3fe454bc296d367bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 015/242] fix: EventThread._stop shadowing
 threading.Thread._stop, so a stopped loop never counts as stopped

---
 scarletio/core/event_loop/event_loop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 7f44dc6..636c7b8 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -756,13 +756,13 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         """
         if self.should_run:
             if current_thread() is self:
-                self._stop()
+                self._do_stop()
             else:
-                self.call_soon(self._stop)
+                self.call_soon(self._do_stop)
                 self.wake_up()
     
     
-    def _stop(self):
+    def _do_stop(self):
         """
         Stops the event loop. Internal function of ``.stop``, called or queued up by it.
         
-- 
2.43.0


From 348cc52adb2843d7988ff4ab3f1e1e6ed7719c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 016/242] fix: EventThread.shutdown_async_generators never
 closing the generators

---
 scarletio/core/event_loop/event_loop.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 636c7b8..13a1364 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -781,20 +781,18 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         self._async_generators_shutdown_called = True
         
         async_generators = self._async_generators
-        if async_generators:
+        if not async_generators:
             return
         
         closing_async_generators = list(async_generators)
         async_generators.clear()
         
-        results = await TaskGroup(
-            self,
-            (Task(self, ag.aclose()) for ag in closing_async_generators),
-        )
+        tasks = [Task(self, async_generator.aclose()) for async_generator in closing_async_generators]
+        await TaskGroup(self, tasks).wait_all()
         
-        for result, async_generator in zip(results, closing_async_generators):
-            exception = result.exception
-            if (exception is not None) and (not isinstance(exception,CancelledError)):
+        for task, async_generator in zip(tasks, closing_async_generators):
+            exception = task.get_exception()
+            if (exception is not None) and (not isinstance(exception, CancelledError)):
                 await write_exception_async(
                     exception, [
                         'Exception occurred during shutting down async generator:\n',
-- 
2.43.0


From 24c8aebdab6e062c5e237cfc8033d58319de74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 017/242] fix: asynchronous generator hooks set only for the
 importing thread, never for event loops

---
 scarletio/core/event_loop/event_loop.py       |  4 +-
 .../event_loop_functionality_helpers.py       | 56 ++++++++++---------
 2 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 13a1364..89427ab 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -31,7 +31,7 @@ from ..traps import Future, FutureWrapperAsync, Task, TaskGroup
 from .cycler import Cycler
 from .event_loop_functionality_helpers import (
     EventThreadRunDescriptor, _create_connection_shared_precheck, _create_unix_connection_shared_precheck,
-    _is_stream_socket, _iter_futures_of, _set_reuse_port, _ssl_deprecation_precheck
+    _is_stream_socket, _iter_futures_of, _set_async_generator_hooks, _set_reuse_port, _ssl_deprecation_precheck
 )
 from .event_thread_suspender import ThreadSuspenderContext
 from .event_thread_type import EventThreadType
@@ -654,6 +654,8 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         Hata ``EventThread`` are created as already running event loops.
         """
         with self.context:
+            _set_async_generator_hooks(self)
+            
             key = None
             file_descriptor = None
             reader = None
diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index ca5c4f0..b88f0d0 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -1,6 +1,7 @@
 __all__ = ()
 
 import sys
+from functools import partial as partial_func
 from socket import (
     SOCK_DGRAM as SOCKET_TYPE_DATAGRAM, SOCK_STREAM as SOCKET_TYPE_STREAM, SOL_SOCKET as SOCKET_OPTION_LEVEL_SOCKET,
     SO_REUSEPORT as SOCKET_OPTION_REUSE_PORT
@@ -73,54 +74,57 @@ def _set_reuse_port(socket):
         ) from exception
 
 
-_OLD_ASYNC_GENERATOR_HOOKS = sys.get_asyncgen_hooks()
-
-
-def _async_generator_first_iteration_hook(async_generator):
+def _async_generator_first_iteration_hook(loop, async_generator):
     """
     Adds asynchronous generators to their respective event loop. These async gens are shut down, when the loop is
     stopped.
     
     Parameters
     ----------
+    loop : ``EventThread``
+        The event loop in which's thread the generator was first iterated.
     async_generator : `async_generator`
+        The asynchronous generator.
     """
-    loop = current_thread()
-    if isinstance(loop, EventThread):
-        if loop._async_generators_shutdown_called:
-            return
-        
-        loop._async_generators.add(async_generator)
+    if loop._async_generators_shutdown_called:
         return
     
-    first_iteration = _OLD_ASYNC_GENERATOR_HOOKS.firstiter
-    if first_iteration is not None:
-        first_iteration(async_generator)
+    loop._async_generators.add(async_generator)
 
 
-def _async_generator_finalizer_hook(async_generator):
+def _async_generator_finalizer_hook(loop, async_generator):
     """
     Removes asynchronous generator from their respective event loop.
     
     Parameters
     ----------
+    loop : ``EventThread``
+        The event loop in which's thread the generator was first iterated.
     async_generator : `async_generator`
+        The asynchronous generator.
     """
-    loop = current_thread()
-    if isinstance(loop, EventThread):
-        loop._async_generators.discard(async_generator)
-        if not loop.running:
-            return
-            
-        Task(loop, async_generator.aclose())
-        loop.wake_up()
+    loop._async_generators.discard(async_generator)
+    if not loop.running:
         return
     
-    finalizer = _OLD_ASYNC_GENERATOR_HOOKS.finalizer
-    if finalizer is not None:
-        finalizer(async_generator)
+    Task(loop, async_generator.aclose())
+    loop.wake_up()
+
 
-sys.set_asyncgen_hooks(firstiter = _async_generator_first_iteration_hook, finalizer = _async_generator_finalizer_hook)
+def _set_async_generator_hooks(loop):
+    """
+    Sets the asynchronous generator hooks of the current thread. They are always specific to a thread, so it has to be
+    called from the thread of the event loop.
+    
+    Parameters
+    ----------
+    loop : ``EventThread``
+        The event loop to set the hooks of.
+    """
+    sys.set_asyncgen_hooks(
+        firstiter = partial_func(_async_generator_first_iteration_hook, loop),
+        finalizer = partial_func(_async_generator_finalizer_hook, loop),
+    )
 
 
 class EventThreadRunDescriptor:
-- 
2.43.0


From 2985dac4ac02b4bf7e9563c9a8c4703e5d2d36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 018/242] fix: unquote misdecoding '8', '9', '+', truncated,
 invalid and split percentages

---
 scarletio/web_common/quoting.py | 165 +++++++++++---------------------
 1 file changed, 57 insertions(+), 108 deletions(-)

diff --git a/scarletio/web_common/quoting.py b/scarletio/web_common/quoting.py
index d019b90..bf02ccd 100755
--- a/scarletio/web_common/quoting.py
+++ b/scarletio/web_common/quoting.py
@@ -1,5 +1,6 @@
 __all__ = ('quote', 'unquote',)
 
+from re import compile as re_compile
 from string import ascii_letters, digits
 
 
@@ -15,6 +16,8 @@ ALLOWED = frozenset((*UNRESERVED, *SUB_DELIMITERS_WITHOUT_QUOTES))
 QUOTE_SAFE_MAP = {}
 UNQUOTE_UNSAFE_MAP = {}
 
+PERCENTAGES_RP = re_compile('(?:%[0-9a-fA-F]{2})+')
+
 
 def iter_nullable_string(string):
     """
@@ -33,51 +36,20 @@ def iter_nullable_string(string):
         yield from string
 
 
-def _base_16_char_to_int(char):
-    """
-    Converts a base-16 character to its integer representation.
-    
-    Parameters
-    ----------
-    char : `int`
-        Character.
-    
-    Returns
-    -------
-    value : `int`
-    """
-    value = char & 0x7
-    if char >= b'0'[0] and char <= b'9'[0]:
-        pass
-    elif (char >= b'a'[0] and char <= b'f'[0]) or (char >= b'A'[0] and char <= b'F'[0]):
-        value += 9
-    else:
-        raise ValueError(
-            f'Unallowed character in percentage: {chr(char)!r}.'
-        )
-    
-    return value
-
-
-def _int_to_base_16_char(value):
+def _percent_encode(char):
     """
-    Converts a base-16 character to its integer representation.
+    Percent-encodes the given character even if it would be allowed to stay as it is.
     
     Parameters
     ----------
-    value : `int`
-        Integer.
+    char : `str`
+        Character to encode.
     
     Returns
     -------
-    char : `int`
+    encoded : `str`
     """
-    char = 0x30 | value
-    
-    if value > 9:
-        char += 0x27
-    
-    return char
+    return ''.join([f'%{byte:02X}' for byte in char.encode('utf8')])
 
 
 def quote(value, safe = None, protected = None, query_string = False):
@@ -134,7 +106,7 @@ def quote(value, safe = None, protected = None, query_string = False):
             *iter_nullable_string(None if query_string else QUERY_STRING_NOT_SAFE),
         ))
         
-        binary_safe = frozenset(ord(char) for char in safe)
+        binary_safe = frozenset(ord(char) for char in safe if char.isascii())
         
         QUOTE_SAFE_MAP[key] = (safe, binary_safe)
     
@@ -192,85 +164,62 @@ def unquote(value, unsafe = None, query_string = False):
     if not value:
         return ''
     
-    percentages = None
-    result = []
-    joined = -1
-    
     if (unsafe is not None):
         try:
             unsafe = UNQUOTE_UNSAFE_MAP[unsafe]
         except KeyError:
             unsafe = UNQUOTE_UNSAFE_MAP[unsafe] = frozenset(unsafe)
     
-    iterator = iter(value)
-    for char in iterator:
-        if (percentages is not None):
-            try:
-                unquoted = percentages.decode('utf8')
-            except UnicodeDecodeError:
-                pass
-            else:
-                if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                    result.append(quote(unquoted, query_string = True))
-                elif (unsafe is not None) and (unquoted in unsafe):
-                    result.append(quote(unquoted))
-                else:
-                    result.append(unquoted)
-                
-                percentages = None
-        
-        if char == '%':
-            try:
-                char_0 = next(iterator)
-                char_1 = next(iterator)
-            except StopIteration:
-                break
-            
-            joined = (_base_16_char_to_int(ord(char_0)) << 4) | _base_16_char_to_int(ord(char_1))
-            
-            if (percentages is None):
-                percentages = bytearray()
-            
-            percentages.append(joined)
-            continue
-        
-        if (percentages is not None) and (joined != -1):
-            result.append('%')
-            result.append(char_0)
-            result.append(char_1)
-            joined = -1
+    result = []
+    index = 0
+    
+    for match in PERCENTAGES_RP.finditer(value):
+        start = match.start()
+        _unquote_literal_into(result, value[index : start], unsafe, query_string)
+        index = match.end()
         
-        if char == '+':
-            if (unsafe is None) or (char not in unsafe):
-                char = ' '
+        # Bytes which are not part of a valid utf8 sequence are represented by surrogates.
+        position = start
+        for char in bytes.fromhex(match.group().replace('%', '')).decode('utf8', 'surrogateescape'):
+            if '\udc80' <= char <= '\udcff':
+                # Undecodable, keep it as it was.
+                length = 3
+                char = value[position : position + length]
+            else:
+                length = 3 * len(char.encode('utf8'))
+                if (query_string and (char in QUERY_STRING_NOT_SAFE)) or ((unsafe is not None) and (char in unsafe)):
+                    char = _percent_encode(char)
             
             result.append(char)
-            continue
-        
-        if (unsafe is not None) and (char in unsafe):
-            result.append('%')
-            result.append(chr(_int_to_base_16_char(ord(char) >> 4)))
-            result.append(chr(_int_to_base_16_char(ord(char) & 0xf)))
-            continue
-        
-        result.append(char)
-    
+            position += length
     
-    if (percentages is not None):
-        try:
-            unquoted = percentages.decode('utf8')
-        except UnicodeDecodeError:
-            if (joined != -1):
-                result.append('%')
-                result.append(char_0)
-                result.append(char_1)
-        
-        else:
-            if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                result.append(quote(unquoted, query_string = True))
-            elif (unsafe is not None) and (unquoted in unsafe):
-                result.append(quote(unquoted))
-            else:
-                result.append(unquoted)
+    _unquote_literal_into(result, value[index :], unsafe, query_string)
     
     return ''.join(result)
+
+
+def _unquote_literal_into(into, value, unsafe, query_string):
+    """
+    Unquotes a section of the value that has no percentages in it.
+    
+    Parameters
+    ----------
+    into : `list<str>`
+        Container to extend.
+    
+    value : `str`
+        The section to unquote.
+    
+    unsafe : `None | frozenset<str>`
+        Additional not percentage encoding safe characters.
+    
+    query_string : `bool`
+        Whether the `value` is a query string value.
+    """
+    for char in value:
+        if (unsafe is not None) and (char in unsafe):
+            char = _percent_encode(char)
+        elif query_string and (char == '+'):
+            char = ' '
+        
+        into.append(char)
-- 
2.43.0


From 5dec733b61bcf808656fa7575a09edb570a59601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 019/242] fix: url query keys holding '=' being serialized
 unquoted

---
 scarletio/web_common/url/url_query.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index 307b091..f8fe8e0 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -12,7 +12,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '/?:@=', query_string = True)
-decode = unquote
+decode = lambda value: None if value is None else unquote(value.replace('+', ' '))
 
 
 def parse_query(query_string, encoded):
@@ -293,7 +293,8 @@ def serialize_query(query, encoded):
     # Sort the keys to always get the same output.
     for query_key in sorted(query.keys()):
         if encoded:
-            query_key_processed = encode(query_key)
+            # `=` is allowed in values, but in keys it would start the value.
+            query_key_processed = encode(query_key).replace('=', '%3D')
         else:
             query_key_processed = query_key
         
-- 
2.43.0


From 50efba08d16b67497c97f758b53dcaa890d5b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 020/242] fix: punycode encoded top level domains not being
 accepted in urls

---
 scarletio/web_common/url/constants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/constants.py b/scarletio/web_common/url/constants.py
index 9f857fe..c6e9d32 100755
--- a/scarletio/web_common/url/constants.py
+++ b/scarletio/web_common/url/constants.py
@@ -62,7 +62,8 @@ HOST_RP = re_compile(
     '((?:xn--|[a-z\u00a1-\uffff\U00010000-\U0010ffff0-9]-?)*[a-z\u00a1-\uffff\U00010000-\U0010ffff0-9])'
     # TLD identifier
     '\\.'
-    '((?:xn--[a-z\u00a1-\uffff\U00010000-\U0010ffff0-9]|[a-z\u00a1-\uffff\U00010000-\U0010ffff]){2,})'
+    '(xn--[a-z\u00a1-\uffff\U00010000-\U0010ffff0-9-]*[a-z\u00a1-\uffff\U00010000-\U0010ffff0-9]|'
+    '[a-z\u00a1-\uffff\U00010000-\U0010ffff]{2,})'
     '(\\.+)?'
     ')',
     re_ignore_case,
-- 
2.43.0


From f257874110fc242fe7766acae68a6851a22256e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 021/242] fix: URLHostInfo.__eq__ returning True for different
 flags

---
 scarletio/web_common/url/url_host_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_host_info.py b/scarletio/web_common/url/url_host_info.py
index ccf277c..e8c86d7 100755
--- a/scarletio/web_common/url/url_host_info.py
+++ b/scarletio/web_common/url/url_host_info.py
@@ -85,7 +85,7 @@ class URLHostInfo(RichAttributeErrorBaseType):
         
         # flags
         if self._flags != other._flags:
-            return True
+            return False
         
         # main_domain
         if self._main_domain != other._main_domain:
-- 
2.43.0


From d9a84261289ac6dc2d450a25c3e9996b701428d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 022/242] fix: is_weakreferable did not see inherited
 __weakref__ and accepted subclasses of variable sized types

---
 scarletio/utils/weak_core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scarletio/utils/weak_core.py b/scarletio/utils/weak_core.py
index c1587ec..41e825f 100755
--- a/scarletio/utils/weak_core.py
+++ b/scarletio/utils/weak_core.py
@@ -24,14 +24,16 @@ def is_weakreferable(object_):
     -------
     is_weakreferable : `bool`
     """
-    slots = getattr(type(object_), '__slots__', None)
-    if (slots is not None) and ('__weakref__' in slots):
-        return True
+    # `__weakref__` can be inherited. Subclasses of variable sized types have `__dict__` but are not weakreferable.
+    if not (hasattr(object_, '__weakref__') or hasattr(object_, '__dict__')):
+        return False
     
-    if hasattr(object_, '__dict__'):
-        return True
+    try:
+        WeakReferer(object_)
+    except TypeError:
+        return False
     
-    return False
+    return True
 
 
 @has_docs
-- 
2.43.0


From 1fa4532e1f7dc9f187223fd3e1f3579fc543a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 023/242] fix: WeakKeyDictionary .get and .pop ignored the
 default if the key is not weakreferable

---
 scarletio/utils/weak_key_dictionary.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 2f6ed0e..4fe2e73 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -458,7 +458,12 @@ class WeakKeyDictionary(dict):
         value : `object`, `default`
             The key's matched value. If no value was matched returns the `default` value.
         """
-        return dict.get(self, WeakReferer(key), default)
+        try:
+            key_reference = WeakReferer(key)
+        except TypeError:
+            return default
+        
+        return dict.get(self, key_reference, default)
     
     
     @has_docs
@@ -510,11 +515,11 @@ class WeakKeyDictionary(dict):
         try:
             key_reference = WeakReferer(key)
         except TypeError:
-            raise KeyError(key) from None
-        
-        value = dict.pop(self, key_reference, ...)
-        if (value is not ...):
-            return value
+            pass
+        else:
+            value = dict.pop(self, key_reference, ...)
+            if (value is not ...):
+                return value
         
         if default is ...:
             raise KeyError(key)
-- 
2.43.0


From dcfcba88a9695a811a56dff925196843fb7fdfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 024/242] fix: weak containers lost or kept dead members if
 they died while iterating

---
 scarletio/utils/hybrid_value_dictionary.py | 152 ++++++++++--------
 scarletio/utils/weak_item_dictionary.py    | 171 ++++++++++++---------
 scarletio/utils/weak_key_dictionary.py     | 131 +++++++++-------
 scarletio/utils/weak_map.py                | 100 +++++++-----
 scarletio/utils/weak_set.py                | 127 +++++++++------
 scarletio/utils/weak_value_dictionary.py   | 136 +++++++++-------
 6 files changed, 488 insertions(+), 329 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 1283510..de5e5a1 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -3,7 +3,7 @@ __all__ = ('HybridValueDictionary', )
 from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
-from .weak_core import KeyedReferer, add_to_pending_removals, is_weakreferable
+from .weak_core import KeyedReferer, WeakHasher, add_to_pending_removals, is_weakreferable
 from .weak_value_dictionary import _WeakValueDictionaryCallback
 
 
@@ -64,22 +64,25 @@ class _HybridValueDictionaryValueIterator(DictionaryValueIteratorBase):
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
         parent = self._parent
-        for value_weakreferable, value_or_reference in dict.values(parent):
-            if value_weakreferable:
-                value = value_or_reference()
-                if value is None:
-                    add_to_pending_removals(parent, value_or_reference)
-                    continue
+        parent._iterating += 1
+        try:
+            for value_weakreferable, value_or_reference in dict.values(parent):
+                if value_weakreferable:
+                    value = value_or_reference()
+                    if value is None:
+                        add_to_pending_removals(parent, value_or_reference)
+                        continue
+                else:
+                    value = value_or_reference
+                
+                if value == contains_value:
+                    result = True
+                    break
             else:
-                value = value_or_reference
-            
-            if value == contains_value:
-                result = True
-                break
-        else:
-            result = False
-        
-        parent._commit_removals()
+                result = False
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
         
         return result
 
@@ -183,6 +186,9 @@ class HybridValueDictionary(dict):
         self._pending_removals = None
         
         for value_reference in pending_removals:
+            if isinstance(value_reference, WeakHasher):
+                value_reference = value_reference.reference
+            
             key = value_reference.key
             try:
                 value_pair = dict.__getitem__(self, key)
@@ -231,9 +237,13 @@ class HybridValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__eq__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -302,10 +312,14 @@ class HybridValueDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the hybrid value dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
+        
+        # There are dead ones waiting for removal, so count the alive ones.
+        length = 0
+        for value_weakreferable, value_or_reference in [*dict.values(self)]:
+            if (not value_weakreferable) or (value_or_reference() is not None):
+                length += 1
         
         return length
     
@@ -315,9 +329,13 @@ class HybridValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__ne__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -354,36 +372,39 @@ class HybridValueDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key, (value_weakreferable, value_or_reference) in dict.items(self):
-                if value_weakreferable:
-                    value = value_or_reference()
-                    if value is None:
-                        add_to_pending_removals(self, value_or_reference)
+            self._iterating += 1
+            try:
+                for key, (value_weakreferable, value_or_reference) in dict.items(self):
+                    if value_weakreferable:
+                        value = value_or_reference()
+                        if value is None:
+                            add_to_pending_removals(self, value_or_reference)
+                            continue
+                    else:
+                        value = value_or_reference
+                    
+                    result.append(repr(key))
+                    result.append(': ')
+                    result.append(repr(value))
+                    result.append(', ')
+                    
+                    collected += 1
+                    if collected != limit:
                         continue
-                else:
-                    value = value_or_reference
-                
-                result.append(repr(key))
-                result.append(': ')
-                result.append(repr(value))
-                result.append(', ')
-                
-                collected += 1
-                if collected != limit:
-                    continue
-                
-                leftover = len(self) - collected
-                if leftover:
-                    result.append('...}, ')
-                    result.append(str(leftover))
-                    result.append(' truncated)')
+                    
+                    leftover = len(self) - collected
+                    if leftover:
+                        result.append('...}, ')
+                        result.append(str(leftover))
+                        result.append(' truncated)')
+                    else:
+                        result[-1] = '})'
+                    break
                 else:
                     result[-1] = '})'
-                break
-            else:
-                result[-1] = '})'
-            
-            self._commit_removals()
+            finally:
+                self._iterating -= 1
+                self._commit_removals()
         else:
             result.append('})')
         
@@ -432,19 +453,22 @@ class HybridValueDictionary(dict):
         callback = _WeakValueDictionaryCallback(new)
         new._callback = callback
         
-        for key, (value_weakreferable, value_or_reference) in dict.items(self):
-            if value_weakreferable:
-                value = value_or_reference()
-                if (value is None):
-                    add_to_pending_removals(self, value_or_reference)
-                    continue
+        self._iterating += 1
+        try:
+            for key, (value_weakreferable, value_or_reference) in dict.items(self):
+                if value_weakreferable:
+                    value = value_or_reference()
+                    if (value is None):
+                        add_to_pending_removals(self, value_or_reference)
+                        continue
+                    
+                    value_or_reference = KeyedReferer(value, callback, key)
                 
-                value_or_reference = KeyedReferer(value, callback, key)
-            
-            dict.__setitem__(new, key, (value_weakreferable, value_or_reference))
-            continue
-        
-        self._commit_removals()
+                dict.__setitem__(new, key, (value_weakreferable, value_or_reference))
+                continue
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
         
         return new
     
@@ -532,7 +556,7 @@ class HybridValueDictionary(dict):
         """
         value_pair = dict.pop(self, key, ...)
         
-        if (value_pair is not default):
+        if (value_pair is not ...):
             value_weakreferable, value_or_reference = value_pair
             
             if (not value_weakreferable):
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index d0dacce..a872648 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -86,20 +86,23 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
         parent = self._parent
-        for value_reference in dict.values(parent):
-            value = value_reference()
-            if (value is None):
-                add_to_pending_removals(parent, value_reference.key)
-                continue
+        parent._iterating += 1
+        try:
+            for value_reference in dict.values(parent):
+                value = value_reference()
+                if (value is None):
+                    add_to_pending_removals(parent, value_reference.key)
+                    continue
+                
+                if value == contains_value:
+                    result = True
+                    break
             
-            if value == contains_value:
-                result = True
-                break
-        
-        else:
-            result = False
-        
-        parent._commit_removals()
+            else:
+                result = False
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
         
         return result
     
@@ -211,6 +214,12 @@ class WeakItemDictionary(dict):
         self._pending_removals = None
         
         for key_reference in pending_removals:
+            # A new value might have been assigned to the key since.
+            if key_reference() is not None:
+                value_reference = dict.get(self, key_reference, None)
+                if (value_reference is not None) and (value_reference() is not None):
+                    continue
+            
             try:
                 dict.__delitem__(self, key_reference)
             except KeyError:
@@ -259,9 +268,13 @@ class WeakItemDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__eq__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -333,10 +346,14 @@ class WeakItemDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak item dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
+        
+        # There are dead ones waiting for removal, so count the alive ones.
+        length = 0
+        for key_reference, value_reference in [*dict.items(self)]:
+            if (key_reference() is not None) and (value_reference() is not None):
+                length += 1
         
         return length
     
@@ -345,9 +362,13 @@ class WeakItemDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__ne__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -385,38 +406,41 @@ class WeakItemDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key_reference, value_reference in dict.items(self):
-                key = key_reference()
-                if (key is None):
-                    add_to_pending_removals(self, key_reference)
-                    continue
-                
-                value = value_reference()
-                if (value is None):
-                    add_to_pending_removals(self, key_reference)
-                    continue
-                
-                result.append(repr(key))
-                result.append(': ')
-                result.append(repr(value))
-                result.append(', ')
-                
-                collected += 1
-                if collected != limit:
-                    continue
-                
-                leftover = len(self) - collected
-                if leftover:
-                    result.append('...}, ')
-                    result.append(str(leftover))
-                    result.append(' truncated)')
+            self._iterating += 1
+            try:
+                for key_reference, value_reference in dict.items(self):
+                    key = key_reference()
+                    if (key is None):
+                        add_to_pending_removals(self, key_reference)
+                        continue
+                    
+                    value = value_reference()
+                    if (value is None):
+                        add_to_pending_removals(self, key_reference)
+                        continue
+                    
+                    result.append(repr(key))
+                    result.append(': ')
+                    result.append(repr(value))
+                    result.append(', ')
+                    
+                    collected += 1
+                    if collected != limit:
+                        continue
+                    
+                    leftover = len(self) - collected
+                    if leftover:
+                        result.append('...}, ')
+                        result.append(str(leftover))
+                        result.append(' truncated)')
+                    else:
+                        result[-1] = '})'
+                    break
                 else:
                     result[-1] = '})'
-                break
-            else:
-                result[-1] = '})'
-            
-            self._commit_removals()
+            finally:
+                self._iterating -= 1
+                self._commit_removals()
         else:
             result.append('})')
         
@@ -427,7 +451,13 @@ class WeakItemDictionary(dict):
     @has_docs
     def __setitem__(self, key, value):
         """Adds the given `key` - `value` pair to the weak item dictionary."""
-        key_reference = WeakReferer(key, self._key_callback)
+        # Dictionaries keep their original key if its value is reassigned, so keep referring to that too.
+        old_value_reference = dict.get(self, WeakReferer(key), None)
+        if old_value_reference is None:
+            key_reference = WeakReferer(key, self._key_callback)
+        else:
+            key_reference = old_value_reference.key
+        
         value_reference = KeyedReferer(value, self._value_callback, key_reference)
         dict.__setitem__(self, key_reference, value_reference)
     
@@ -463,24 +493,27 @@ class WeakItemDictionary(dict):
         new._value_callback = value_callback
         new._iterating = 0
         
-        for key_reference, value_reference in dict.items(self):
-            key = key_reference()
-            if key is None:
-                add_to_pending_removals(self, key_reference)
-                continue
-            
-            value = value_reference()
-            if value is None:
-                add_to_pending_removals(self, key_reference)
+        self._iterating += 1
+        try:
+            for key_reference, value_reference in dict.items(self):
+                key = key_reference()
+                if key is None:
+                    add_to_pending_removals(self, key_reference)
+                    continue
+                
+                value = value_reference()
+                if value is None:
+                    add_to_pending_removals(self, key_reference)
+                    continue
+                
+                key_reference = WeakReferer(key, key_callback)
+                value_reference = KeyedReferer(value, value_callback, key_reference)
+                
+                dict.__setitem__(new, key_reference, value_reference)
                 continue
-            
-            key_reference = WeakReferer(key, self._key_callback)
-            value_reference = KeyedReferer(value, self._value_callback, key_reference)
-            
-            dict.__setitem__(new, key_reference, value_reference)
-            continue
-        
-        self._commit_removals()
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
         
         return new
     
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 4fe2e73..5c1a58f 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -111,19 +111,22 @@ class _WeakKeyDictionaryValueIterator(DictionaryValueIteratorBase):
     def __contains__(self, contains_value):
         parent = self._parent
         
-        for key_reference, value in dict.items(parent):
-            if (key_reference() is None):
-                add_to_pending_removals(parent, key_reference)
-                continue
+        parent._iterating += 1
+        try:
+            for key_reference, value in dict.items(parent):
+                if (key_reference() is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
+                if value == contains_value:
+                    result = True
+                    break
             
-            if value == contains_value:
-                result = True
-                break
-        
-        else:
-            result = False
-        
-        parent._commit_removals()
+            else:
+                result = False
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
         
         return result
     
@@ -218,7 +221,7 @@ class WeakKeyDictionary(dict):
             try:
                 dict.__delitem__(self, key_reference)
             except KeyError:
-                return
+                pass
     
     # __class__ -> same
     
@@ -247,9 +250,13 @@ class WeakKeyDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__eq__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -306,10 +313,14 @@ class WeakKeyDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak key dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
+        
+        # There are dead ones waiting for removal, so count the alive ones.
+        length = 0
+        for key_reference in [*dict.keys(self)]:
+            if (key_reference() is not None):
+                length += 1
         
         return length
     
@@ -318,9 +329,13 @@ class WeakKeyDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__ne__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -358,33 +373,36 @@ class WeakKeyDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key_reference, value in dict.items(self):
-                key = key_reference()
-                if (key is None):
-                    add_to_pending_removals(self, key_reference)
-                    continue
-                
-                result.append(repr(key))
-                result.append(': ')
-                result.append(repr(value))
-                result.append(', ')
-                
-                collected += 1
-                if collected != limit:
-                    continue
-                
-                leftover = len(self) - collected
-                if leftover:
-                    result.append('...}, ')
-                    result.append(str(leftover))
-                    result.append(' truncated)')
+            self._iterating += 1
+            try:
+                for key_reference, value in dict.items(self):
+                    key = key_reference()
+                    if (key is None):
+                        add_to_pending_removals(self, key_reference)
+                        continue
+                    
+                    result.append(repr(key))
+                    result.append(': ')
+                    result.append(repr(value))
+                    result.append(', ')
+                    
+                    collected += 1
+                    if collected != limit:
+                        continue
+                    
+                    leftover = len(self) - collected
+                    if leftover:
+                        result.append('...}, ')
+                        result.append(str(leftover))
+                        result.append(' truncated)')
+                    else:
+                        result[-1] = '})'
+                    break
                 else:
                     result[-1] = '})'
-                break
-            else:
-                result[-1] = '})'
-            
-            self._commit_removals()
+            finally:
+                self._iterating -= 1
+                self._commit_removals()
             
         else:
             result.append('})')
@@ -428,16 +446,19 @@ class WeakKeyDictionary(dict):
         new._callback = callback
         new._iterating = 0
         
-        for key_reference, value in dict.items(self):
-            key = key_reference()
-            if key is None:
-                add_to_pending_removals(self, key_reference)
+        self._iterating += 1
+        try:
+            for key_reference, value in dict.items(self):
+                key = key_reference()
+                if key is None:
+                    add_to_pending_removals(self, key_reference)
+                    continue
+                
+                dict.__setitem__(new, WeakReferer(key, callback), value)
                 continue
-            
-            dict.__setitem__(new, WeakReferer(key, callback), value)
-            continue
-        
-        self._commit_removals()
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
         
         return new
     
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 67c6718..c707777 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -136,9 +136,13 @@ class WeakMap(dict):
     def __eq__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__eq__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -225,10 +229,14 @@ class WeakMap(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak map."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
+        
+        # There are dead ones waiting for removal, so count the alive ones.
+        length = 0
+        for reference in [*dict.__iter__(self)]:
+            if (reference() is not None):
+                length += 1
         
         return length
     
@@ -237,9 +245,13 @@ class WeakMap(dict):
     def __ne__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__ne__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -274,31 +286,34 @@ class WeakMap(dict):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
             
-            for reference in dict.__iter__(self):
-                key = reference()
-                if (key is None):
-                    add_to_pending_removals(self, reference)
-                    continue
-                
-                result.append(repr(key))
-                result.append(', ')
-                
-                collected += 1
-                if collected != limit:
-                    continue
-                
-                leftover = len(self) - collected
-                if leftover:
-                    result.append('...}, ')
-                    result.append(str(leftover))
-                    result.append(' truncated)')
+            self._iterating += 1
+            try:
+                for reference in dict.__iter__(self):
+                    key = reference()
+                    if (key is None):
+                        add_to_pending_removals(self, reference)
+                        continue
+                    
+                    result.append(repr(key))
+                    result.append(', ')
+                    
+                    collected += 1
+                    if collected != limit:
+                        continue
+                    
+                    leftover = len(self) - collected
+                    if leftover:
+                        result.append('...}, ')
+                        result.append(str(leftover))
+                        result.append(' truncated)')
+                    else:
+                        result[-1] = '})'
+                    break
                 else:
                     result[-1] = '})'
-                break
-            else:
-                result[-1] = '})'
-            
-            self._commit_removals()
+            finally:
+                self._iterating -= 1
+                self._commit_removals()
         else:
             result.append('})')
         
@@ -335,17 +350,20 @@ class WeakMap(dict):
         new._pending_removals = None
         new._callback = callback = _WeakMapCallback(new)
         
-        for reference in dict.__iter__(self):
-            key = reference()
-            if (key is None):
-                add_to_pending_removals(self, reference)
+        self._iterating += 1
+        try:
+            for reference in dict.__iter__(self):
+                key = reference()
+                if (key is None):
+                    add_to_pending_removals(self, reference)
+                    continue
+                
+                reference = WeakReferer(key, callback)
+                dict.__setitem__(new, reference, reference)
                 continue
-            
-            reference = WeakReferer(key, callback)
-            dict.__setitem__(new, reference, reference)
-            continue
-        
-        self._commit_removals()
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
         
         return new
     
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 1011e48..d4a4619 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -106,7 +106,7 @@ class WeakSet(set):
         if isinstance(other, type(self)):
             new = type(self)()
             
-            for element_reference in set.__iter__(other):
+            for element_reference in [*set.__iter__(other)]:
                 if set.__contains__(self, element_reference):
                     element = element_reference()
                     if (element is not None):
@@ -150,9 +150,13 @@ class WeakSet(set):
     
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            return set.__eq__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return set.__eq__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif is_iterable(other):
@@ -176,7 +180,11 @@ class WeakSet(set):
     def __ge__(self, other):
         """Returns whether every element in other is in the set."""
         if isinstance(other, type(self)):
-            return set.__ge__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return set.__ge__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -199,7 +207,11 @@ class WeakSet(set):
     def __gt__(self, other):
         """Returns whether the set is a proper superset of other."""
         if isinstance(other, type(self)):
-            return set.__gt__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return set.__gt__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -310,7 +322,7 @@ class WeakSet(set):
     def __isub__(self, other):
         """Update the set, removing elements found in others."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
+            for element_reference in [*set.__iter__(other)]:
                 set.discard(self, element_reference)
             
             return self
@@ -359,7 +371,7 @@ class WeakSet(set):
     def __ixor__(self, other):
         """Update the set, keeping only elements found in either set, but not in both."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
+            for element_reference in [*set.__iter__(other)]:
                 element = element_reference()
                 if element is None:
                     add_to_pending_removals(self, element_reference)
@@ -404,7 +416,11 @@ class WeakSet(set):
     def __le__(self, other):
         """Returns whether every element in the set is in other."""
         if isinstance(other, type(self)):
-            return set.__le__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return set.__le__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -423,10 +439,14 @@ class WeakSet(set):
     @has_docs
     def __len__(self):
         """Returns the length of the set."""
-        length = set.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return set.__len__(self)
+        
+        # There are dead ones waiting for removal, so count the alive ones.
+        length = 0
+        for element_reference in [*set.__iter__(self)]:
+            if (element_reference() is not None):
+                length += 1
         
         return length
     
@@ -435,7 +455,11 @@ class WeakSet(set):
     def __lt__(self, other):
         """Test whether the set is a proper superset of other"""
         if isinstance(other, type(self)):
-            return set.__lt__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return set.__lt__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -453,9 +477,13 @@ class WeakSet(set):
     
     def  __ne__(self, other):
         if isinstance(other, type(self)):
-            return set.__ne__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return set.__ne__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif is_iterable(other):
@@ -521,31 +549,34 @@ class WeakSet(set):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
             
-            for element_reference in set.__iter__(self):
-                element = element_reference()
-                if (element is None):
-                    add_to_pending_removals(self, element_reference)
-                    continue
-                
-                result.append(repr(element))
-                result.append(', ')
-                
-                collected += 1
-                if collected != limit:
-                    continue
-                
-                leftover = len(self) - collected
-                if leftover:
-                    result.append('...}, ')
-                    result.append(str(leftover))
-                    result.append(' truncated)')
+            self._iterating += 1
+            try:
+                for element_reference in set.__iter__(self):
+                    element = element_reference()
+                    if (element is None):
+                        add_to_pending_removals(self, element_reference)
+                        continue
+                    
+                    result.append(repr(element))
+                    result.append(', ')
+                    
+                    collected += 1
+                    if collected != limit:
+                        continue
+                    
+                    leftover = len(self) - collected
+                    if leftover:
+                        result.append('...}, ')
+                        result.append(str(leftover))
+                        result.append(' truncated)')
+                    else:
+                        result[-1] = '})'
+                    break
                 else:
                     result[-1] = '})'
-                break
-            else:
-                result[-1] = '})'
-            
-            self._commit_removals()
+            finally:
+                self._iterating -= 1
+                self._commit_removals()
         else:
             result.append('})')
         
@@ -687,7 +718,7 @@ class WeakSet(set):
         new = type(self)()
         new_callback = new._callback
         
-        for element_reference in set.__iter__(self):
+        for element_reference in [*set.__iter__(self)]:
             element = element_reference()
             if (element is not None):
                 element_reference =  WeakReferer(element, new_callback)
@@ -756,7 +787,7 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
+            for element_reference in [*set.__iter__(iterable)]:
                 set.discard(self, element_reference)
         
         elif is_iterable(iterable):
@@ -811,7 +842,7 @@ class WeakSet(set):
         if isinstance(iterable, type(self)):
             new = type(self)()
             
-            for element_reference in set.__iter__(iterable):
+            for element_reference in [*set.__iter__(iterable)]:
                 if set.__contains__(self, element_reference):
                     element = element_reference()
                     if (element is not None):
@@ -936,7 +967,11 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__le__(self, iterable)
+            if (self._pending_removals is None) and (iterable._pending_removals is None):
+                return set.__le__(self, iterable)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
@@ -973,7 +1008,11 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__ge__(self, iterable)
+            if (self._pending_removals is None) and (iterable._pending_removals is None):
+                return set.__ge__(self, iterable)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
@@ -1102,7 +1141,7 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
+            for element_reference in [*set.__iter__(iterable)]:
                 element = element_reference()
                 if element is None:
                     add_to_pending_removals(self, element_reference)
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 10c71e8..bd423a2 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -3,7 +3,7 @@ __all__ = ('WeakValueDictionary', )
 from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
-from .weak_core import KeyedReferer, WeakReferer, add_to_pending_removals
+from .weak_core import KeyedReferer, WeakHasher, WeakReferer, add_to_pending_removals
 
 
 @has_docs
@@ -110,20 +110,23 @@ class _WeakValueDictionaryValueIterator(DictionaryValueIteratorBase):
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
         parent = self._parent
-        for value_reference in dict.values(parent):
-            value = value_reference()
-            if (value is None):
-                add_to_pending_removals(parent, value_reference)
-                continue
+        parent._iterating += 1
+        try:
+            for value_reference in dict.values(parent):
+                value = value_reference()
+                if (value is None):
+                    add_to_pending_removals(parent, value_reference)
+                    continue
+                
+                if value == contains_value:
+                    result = True
+                    break
             
-            if value == contains_value:
-                result = True
-                break
-        
-        else:
-            result = False
-        
-        parent._commit_removals()
+            else:
+                result = False
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
         
         return result
 
@@ -222,6 +225,9 @@ class WeakValueDictionary(dict):
         self._pending_removals = None
         
         for value_reference in pending_removals:
+            if isinstance(value_reference, WeakHasher):
+                value_reference = value_reference.reference
+            
             key = value_reference.key
             try:
                 actual_value_reference = dict.__getitem__(self, key)
@@ -264,9 +270,13 @@ class WeakValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__eq__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -332,10 +342,14 @@ class WeakValueDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak value dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
+        
+        # There are dead ones waiting for removal, so count the alive ones.
+        length = 0
+        for value_reference in [*dict.values(self)]:
+            if (value_reference() is not None):
+                length += 1
         
         return length
     
@@ -344,9 +358,13 @@ class WeakValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            if (self._pending_removals is None) and (other._pending_removals is None):
+                return dict.__ne__(self, other)
+            
+            # There are dead ones waiting for removal, compare only the alive ones.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -384,33 +402,36 @@ class WeakValueDictionary(dict):
         if len(self):
             limit = self.MAX_REPR_ELEMENT_LIMIT
             collected = 0
-            for key, value_reference in dict.items(self):
-                value = value_reference()
-                if (value is None):
-                    add_to_pending_removals(self, value_reference)
-                    continue
-                
-                result.append(repr(key))
-                result.append(': ')
-                result.append(repr(value))
-                result.append(', ')
-                
-                collected += 1
-                if collected != limit:
-                    continue
-                
-                leftover = len(self) - collected
-                if leftover:
-                    result.append('...}, ')
-                    result.append(str(leftover))
-                    result.append(' truncated)')
+            self._iterating += 1
+            try:
+                for key, value_reference in dict.items(self):
+                    value = value_reference()
+                    if (value is None):
+                        add_to_pending_removals(self, value_reference)
+                        continue
+                    
+                    result.append(repr(key))
+                    result.append(': ')
+                    result.append(repr(value))
+                    result.append(', ')
+                    
+                    collected += 1
+                    if collected != limit:
+                        continue
+                    
+                    leftover = len(self) - collected
+                    if leftover:
+                        result.append('...}, ')
+                        result.append(str(leftover))
+                        result.append(' truncated)')
+                    else:
+                        result[-1] = '})'
+                    break
                 else:
                     result[-1] = '})'
-                break
-            else:
-                result[-1] = '})'
-            
-            self._commit_removals()
+            finally:
+                self._iterating -= 1
+                self._commit_removals()
         else:
             result.append('})')
         
@@ -453,16 +474,19 @@ class WeakValueDictionary(dict):
         new._callback = callback
         new._iterating = 0
         
-        for key, value_reference in dict.items(self):
-            value = value_reference()
-            if value is None:
-                add_to_pending_removals(self, value_reference)
+        self._iterating += 1
+        try:
+            for key, value_reference in dict.items(self):
+                value = value_reference()
+                if value is None:
+                    add_to_pending_removals(self, value_reference)
+                    continue
+                
+                dict.__setitem__(new, key, KeyedReferer(value, callback, key))
                 continue
-            
-            dict.__setitem__(new, key, KeyedReferer(value, callback, key))
-            continue
-        
-        self._commit_removals()
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
         
         return new
     
-- 
2.43.0


From 6fe90c588982cc7cf4ec037ab6db6bfc7e6ee04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 025/242] fix: SortedList could not be pickled and copied

---
 scarletio/utils/sorted_list.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scarletio/utils/sorted_list.py b/scarletio/utils/sorted_list.py
index 957c39a..61b6a3f 100755
--- a/scarletio/utils/sorted_list.py
+++ b/scarletio/utils/sorted_list.py
@@ -70,11 +70,15 @@ class SortedList(list):
         
         return ''.join(result)
     
-    def __getstate__(self):
-        return self._reversed
+    @has_docs
+    def __reduce__(self):
+        """Reduces the sorted list to a picklable object."""
+        return (type(self), ([*self], self._reversed))
     
-    def __setstate__(self, state):
-        self._reversed = state
+    @has_docs
+    def __reduce_ex__(self, version):
+        """Reduces the sorted list to a picklable object."""
+        return type(self).__reduce__(self)
     
     @property
     @has_docs
-- 
2.43.0


From ea27a4aa3d8e66fda9056f897fd582aff317de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 026/242] fix: __reduce__ of dictionaries returned the members
 as separate parameters

---
 scarletio/utils/hybrid_value_dictionary.py | 2 +-
 scarletio/utils/multi_value_dictionary.py  | 2 +-
 scarletio/utils/weak_item_dictionary.py    | 2 +-
 scarletio/utils/weak_key_dictionary.py     | 2 +-
 scarletio/utils/weak_map.py                | 2 +-
 scarletio/utils/weak_set.py                | 2 +-
 scarletio/utils/weak_value_dictionary.py   | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index de5e5a1..a60a019 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -356,7 +356,7 @@ class HybridValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index e488c1d..f0230d5 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -199,7 +199,7 @@ class MultiValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), [*self.items()])
+        return (type(self), ([*self.items()],))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index a872648..27b02c1 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -389,7 +389,7 @@ class WeakItemDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 5c1a58f..62af2f5 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -356,7 +356,7 @@ class WeakKeyDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index c707777..af9de19 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -269,7 +269,7 @@ class WeakMap(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the map to a picklable object."""
-        return (type(self), list(self))
+        return (type(self), (list(self),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index d4a4619..38f3b69 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -532,7 +532,7 @@ class WeakSet(set):
     @has_docs
     def __reduce__(self):
         """Reduces the set to a picklable object."""
-        return (type(self), list(self))
+        return (type(self), (list(self),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index bd423a2..72692cf 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -385,7 +385,7 @@ class WeakValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
-- 
2.43.0


From 96cd400485d8043f1422ebda04be2fffe5d0104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 027/242] fix: != of IgnoreCaseString did not ignore casing

---
 scarletio/utils/ignore_case_string.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scarletio/utils/ignore_case_string.py b/scarletio/utils/ignore_case_string.py
index 476deb2..406d18a 100755
--- a/scarletio/utils/ignore_case_string.py
+++ b/scarletio/utils/ignore_case_string.py
@@ -84,3 +84,13 @@ class IgnoreCaseString(str):
             return NotImplemented
         
         return (self._case_fold == other_value)
+    
+    
+    @has_docs
+    def __ne__(self, other):
+        """Returns whether the two strings are different."""
+        equals = self.__eq__(other)
+        if equals is NotImplemented:
+            return NotImplemented
+        
+        return not equals
-- 
2.43.0


From 9cfb86775640f66b84a5bc8530675e8e554e8d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 028/242] fix: IgnoreCaseMultiValueDictionary.__contains__ did
 not ignore casing

---
 scarletio/utils/ignore_case_multi_value_dictionary.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scarletio/utils/ignore_case_multi_value_dictionary.py b/scarletio/utils/ignore_case_multi_value_dictionary.py
index 388e15f..1c36d53 100755
--- a/scarletio/utils/ignore_case_multi_value_dictionary.py
+++ b/scarletio/utils/ignore_case_multi_value_dictionary.py
@@ -75,6 +75,13 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
         MultiValueDictionary.__delitem__(self, key)
     
     
+    @has_docs
+    def __contains__(self, key):
+        """Returns whether the dictionary contains the given key."""
+        key = IgnoreCaseString(key)
+        return dict.__contains__(self, key)
+    
+    
     @copy_docs(MultiValueDictionary.extend)
     def extend(self, mapping):
         getitem = dict.__getitem__
-- 
2.43.0


From 49ba192ca1b1349209182b645ba2f05e4b6faa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 029/242] fix: comparing IgnoreCaseString to a str subclass or
 to an unrelated object raised TypeError

---
 scarletio/utils/ignore_case_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/ignore_case_string.py b/scarletio/utils/ignore_case_string.py
index 406d18a..29102b0 100755
--- a/scarletio/utils/ignore_case_string.py
+++ b/scarletio/utils/ignore_case_string.py
@@ -78,7 +78,7 @@ class IgnoreCaseString(str):
             other_value = other._case_fold
         elif other_type is str:
             other_value = other.casefold()
-        elif issubclass(other, str):
+        elif issubclass(other_type, str):
             other_value = str.casefold(other)
         else:
             return NotImplemented
-- 
2.43.0


From 806b0a62e182b09e6e6c17c8d02dd120bc78b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 030/242] fix: items view of IgnoreCaseMultiValueDictionary did
 not ignore casing in contains checks

---
 scarletio/utils/multi_value_dictionary.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index f0230d5..a0d74a3 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -36,9 +36,8 @@ class _MultiValueDictionaryItemIterator(DictionaryItemIteratorBase):
         
         key, value = item
         
-        try:
-            values = dict.__getitem__(self._parent, key)
-        except KeyError:
+        values = self._parent.get_all(key)
+        if values is None:
             return False
         
         return value in values
-- 
2.43.0


From 53176efc0a3976ea5ddb20c82e915a9b594abf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 031/242] fix: read_until lost bytes when its boundary was
 split between chunks

---
 scarletio/core/protocols_and_transports/protocol.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index be0b7d1..812f8e7 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -980,13 +980,14 @@ class ReadProtocolBase(AbstractProtocolBase):
                 offset, intersection_sizes = _finish_intersection_sizes(chunk, boundary, intersection_sizes)
                 # Found boundary in between?
                 if offset != -1:
+                    intersection_size = len(boundary) - offset
                     # Do not offset if offset if at the end of the chunk. Delete chunk instead.
                     if offset == len(chunk):
                         del chunks[0]
                         offset = 0
                     self._offset = offset
                     
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary) - offset)
+                    released, held_back = _get_released_from_held_back(held_back, intersection_size)
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1010,7 +1011,10 @@ class ReadProtocolBase(AbstractProtocolBase):
                         _continue_intersection_sizes(chunk, boundary, intersection_sizes),
                         _get_end_intersection_sizes(chunk, 0, boundary),
                     )
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary))
+                    released, held_back = _get_released_from_held_back(
+                        held_back,
+                        0 if intersection_sizes is None else intersection_sizes[0],
+                    )
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1037,7 +1041,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             self._offset = 0
             if offset:
                 chunk = memoryview(chunk)[offset:]
-            intersection_sizes = _get_end_intersection_sizes(chunk, offset, boundary)
+            intersection_sizes = _get_end_intersection_sizes(chunk, 0, boundary)
             if (intersection_sizes is not None):
                 offset = len(chunk) - intersection_sizes[0]
                 held_back = [memoryview(chunk)[offset:]]
-- 
2.43.0


From 2d7ce96530d1e33d0c10c879dccb18c00fec5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 032/242] fix: ReadProtocolBase kept a stale offset when
 read_exactly had to wait after a partly used chunk

---
 scarletio/core/protocols_and_transports/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 812f8e7..51f5ce4 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -859,6 +859,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             
             n -= (chunk_size - offset)
             del chunks[0]
+            self._offset = 0
             yield memoryview(chunk)[offset:]
         
         while True:
-- 
2.43.0


From f9bb6ffa3e4557b2a0305c6c30fef0e1b6c9417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 033/242] fix: pausing writing and reading shared one flag, and
 only the last drain waiter was woken up

---
 .../core/protocols_and_transports/protocol.py | 67 +++++++++++--------
 scarletio/http_server/idea.py                 |  7 +-
 scarletio/web_common/http_protocol.py         | 10 ++-
 scarletio/web_socket/web_socket_client.py     |  7 +-
 .../web_socket/web_socket_common_protocol.py  |  7 +-
 .../web_socket/web_socket_server_protocol.py  |  7 +-
 6 files changed, 66 insertions(+), 39 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 51f5ce4..8442b70 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1214,10 +1214,13 @@ class ReadWriteProtocolBase(ReadProtocolBase):
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
     
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
+    
+    _writing_paused : `bool`
+        Whether writing is paused by the protocol's transport.
     """
-    __slots__ = ('_drain_waiter', )
+    __slots__ = ('_drain_waiters', '_writing_paused')
     
     def __new__(cls, loop):
         """
@@ -1230,26 +1233,42 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         """
         self = ReadProtocolBase.__new__(cls, loop)
         
-        self._drain_waiter = None
+        self._drain_waiters = None
+        self._writing_paused = False
         
         return self
     
     
     @copy_docs(AbstractProtocolBase.pause_writing)
     def pause_writing(self):
-        self._paused = True
+        self._writing_paused = True
     
     
     @copy_docs(AbstractProtocolBase.resume_writing)
     def resume_writing(self):
-        self._paused = False
+        self._writing_paused = False
+        self._wake_up_drain_waiters(None)
+    
+    
+    def _wake_up_drain_waiters(self, exception):
+        """
+        Wakes up everyone waiting for the written data to be drained.
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        Parameters
+        ----------
+        exception : `None | BaseException`
+            Exception to wake up with if any.
+        """
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        drain_waiter.set_result_if_pending(None)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            if exception is None:
+                drain_waiter.set_result_if_pending(None)
+            else:
+                drain_waiter.set_exception_if_pending(exception)
     
     
     async def _drain_helper(self):
@@ -1258,11 +1277,16 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         
         This method is a coroutine.
         """
-        if not self._paused:
+        if not self._writing_paused:
             return
         
         drain_waiter = Future(self._loop)
-        self._drain_waiter = drain_waiter
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
+            drain_waiters = []
+            self._drain_waiters = drain_waiters
+        
+        drain_waiters.append(drain_waiter)
         await drain_waiter
     
     
@@ -1273,22 +1297,9 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         else:
             self.set_exception(exception)
         
-        # wake up the writer if currently paused.
-        if not self._paused:
-            return
-        
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
-            return
-        
-        self._drain_waiter = None
-        if drain_waiter.is_done():
-            return
-        
-        if exception is None:
-            drain_waiter.set_result(None)
-        else:
-            drain_waiter.set_exception(exception)
+        # Nothing will resume writing anymore. Wake up the writers if currently paused.
+        self._writing_paused = False
+        self._wake_up_drain_waiters(exception)
     
     
     @copy_docs(AbstractProtocolBase.write)
diff --git a/scarletio/http_server/idea.py b/scarletio/http_server/idea.py
index 21f92a6..13ac638 100755
--- a/scarletio/http_server/idea.py
+++ b/scarletio/http_server/idea.py
@@ -151,8 +151,11 @@ class HTTPRequestHandler(HttpReadWriteProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
+    
+    _writing_paused : `bool`
+        Whether writing is paused by the protocol's transport.
     handler_task : `None`, ``Task`` of ``.lifetime_handler``
         Handles the connected http request meanwhile it is alive.
     server : ``HTTPServer``
diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 334031d..84d90ca 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -682,8 +682,11 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
+    
+    _writing_paused : `bool`
+        Whether writing is paused by the protocol's transport.
     """
     __slots__ = ()
     
@@ -814,6 +817,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
     def isekai_into(self, other_class):
         new = HttpReadProtocol.isekai_into(self, other_class)
         
-        new._drain_waiter = self._drain_waiter
+        new._drain_waiters = self._drain_waiters
+        new._writing_paused = self._writing_paused
         
         return new
diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index c4439a0..a4678ad 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -51,8 +51,11 @@ class WebSocketClient(WebSocketCommonProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
+    
+    _writing_paused : `bool`
+        Whether writing is paused by the protocol's transport.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 5408a84..127a3cd 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -63,8 +63,11 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
+    
+    _writing_paused : `bool`
+        Whether writing is paused by the protocol's transport.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index d911ed0..ec1ed5d 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -50,8 +50,11 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures used to block the writing tasks, till their written data is drained.
+    
+    _writing_paused : `bool`
+        Whether writing is paused by the protocol's transport.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
-- 
2.43.0


From 4ae2ac4dbe68a8345c8f2a60523f4dc8fef31718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 034/242] fix: write_http_request wrote the major version as
 minor

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 84d90ca..d8f74b2 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -714,7 +714,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
-        result = [f'{method} {path} HTTP/{version.major}.{version.major}\r\n']
+        result = [f'{method} {path} HTTP/{version.major}.{version.minor}\r\n']
         extend = result.extend
         for k, v in headers.items():
             extend((k, ': ', v, '\r\n'))
-- 
2.43.0


From 99363206956845a59e22592082c6e84cccb9d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 035/242] fix: line breaks in the method, path or headers of an
 http message were written to the wire as new lines

---
 scarletio/web_common/http_protocol.py | 61 ++++++++++++++++-----------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index d8f74b2..4d29d40 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -32,6 +32,38 @@ PACK_LENGTH_2 = Struct('!BBH').pack
 PACK_LENGTH_3 = Struct('!BBQ').pack
 
 
+def _build_head(start_line, headers):
+    """
+    Builds the head of an http message.
+    
+    Parameters
+    ----------
+    start_line : `str`
+        The first line of the message.
+    headers : ``IgnoreCaseMultiValueDictionary``
+        The headers of the message.
+    
+    Returns
+    -------
+    head : `bytes`
+    
+    Raises
+    ------
+    ValueError
+        If there is a line break inside of any line of the head.
+    """
+    lines = [start_line]
+    for key, value in headers.items():
+        lines.append(f'{key}: {value}')
+    
+    for line in lines:
+        if ('\r' in line) or ('\n' in line):
+            raise ValueError(f'Line breaks are not allowed inside of the head of an http message; got {line!r}.')
+    
+    lines.append('\r\n')
+    return '\r\n'.join(lines).encode()
+
+
 class HttpReadProtocol(ReadProtocolBase):
     """
     Asynchronous read protocol implementation. Stuffed full of http read methods.
@@ -714,13 +746,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
-        result = [f'{method} {path} HTTP/{version.major}.{version.minor}\r\n']
-        extend = result.extend
-        for k, v in headers.items():
-            extend((k, ': ', v, '\r\n'))
-        
-        result.append('\r\n')
-        transport.write(''.join(result).encode())
+        transport.write(_build_head(f'{method} {path} HTTP/{version.major}.{version.minor}', headers))
     
     
     def write_http_response(self, status, headers, version = HttpVersion11, body = None):
@@ -747,24 +773,9 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
-        result = [
-            'HTTP/',
-            str(version.major),
-            '.',
-            str(version.minor),
-            ' ',
-            str(status.value),
-            ' ',
-            str(status.phrase),
-            '\r\n',
-        ]
-        
-        for header_key, header_value in headers.items():
-            result.extend((header_key, ': ', header_value, '\r\n'))
-        
-        result.append('\r\n')
-        
-        transport.write(''.join(result).encode())
+        transport.write(
+            _build_head(f'HTTP/{version.major}.{version.minor} {status.value} {status.phrase}', headers)
+        )
         if (body is not None) and body:
             transport.write(body)
     
-- 
2.43.0


From ab417a3d0311faa0651b9a9253528e36ba14c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 036/242] fix: upgrade and keep-alive only looked at the whole
 of the first Connection header, and an offered upgrade hid the body of a
 response

---
 scarletio/web_common/http_message.py | 64 +++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/scarletio/web_common/http_message.py b/scarletio/web_common/http_message.py
index e6a0cc2..c234d6f 100755
--- a/scarletio/web_common/http_message.py
+++ b/scarletio/web_common/http_message.py
@@ -140,6 +140,38 @@ class RawMessage(RichAttributeErrorBaseType):
         return self._is_equal_same_type(other)
     
     
+    def _get_connection_options(self):
+        """
+        Returns the options listed by the `Connection` header(s).
+        
+        Returns
+        -------
+        connection_options : `set<str>`
+        """
+        connection_options = set()
+        
+        values = self.headers.get_all(CONNECTION)
+        if (values is not None):
+            for value in values:
+                for option in value.split(','):
+                    option = option.strip()
+                    if option:
+                        connection_options.add(option.casefold())
+        
+        return connection_options
+    
+    
+    def _can_be_upgraded(self):
+        """
+        Returns whether the message can tell that the connection is upgraded.
+        
+        Returns
+        -------
+        can_be_upgraded : `bool`
+        """
+        return True
+    
+    
     @property
     def upgraded(self):
         """
@@ -157,18 +189,11 @@ class RawMessage(RichAttributeErrorBaseType):
         # Also require the `UPGRADE` header to be non-empty.
         if not headers.get(UPGRADE, ''):
             value = False
-        
         else:
-            try:
-                connection = headers[CONNECTION]
-            except KeyError:
-                value = False
-            else:
-                value = (connection.casefold() == 'upgrade')
-                if value:
-                    cache_flags |= CACHE_FLAG_UPGRADE_VALUE
-                else:
-                    value = False
+            value = self._can_be_upgraded() and ('upgrade' in self._get_connection_options())
+            if value:
+                cache_flags |= CACHE_FLAG_UPGRADE_VALUE
+        
         
         cache_flags |= CACHE_FLAG_UPGRADE_SET
         self._cache_flags = cache_flags
@@ -275,12 +300,13 @@ class RawMessage(RichAttributeErrorBaseType):
         if cache_flags & CACHE_FLAG_KEEP_ALIVE_SET:
             return self._cache_keep_alive
         
-        try:
-            connection = self.headers[CONNECTION]
-        except KeyError:
-            keep_alive_enabled = self.version >= HttpVersion11
+        connection_options = self._get_connection_options()
+        if 'close' in connection_options:
+            keep_alive_enabled = False
+        elif 'keep-alive' in connection_options:
+            keep_alive_enabled = True
         else:
-            keep_alive_enabled = ('close' not in connection.casefold())
+            keep_alive_enabled = self.version >= HttpVersion11
         
         if keep_alive_enabled:
             keep_alive = KeepAliveInfo.from_header_value(self.headers.get(KEEP_ALIVE))
@@ -368,6 +394,12 @@ class RawResponseMessage(RawMessage):
         RawMessage._put_repr_parts_into(self, repr_parts)
     
     
+    @copy_docs(RawMessage._can_be_upgraded)
+    def _can_be_upgraded(self):
+        # In any other response the upgrade header is just an offer.
+        return self.status == 101
+    
+    
     @copy_docs(RawMessage._is_equal_same_type)
     def _is_equal_same_type(self, other):
         if not RawMessage._is_equal_same_type(self, other):
-- 
2.43.0


From 2be2fea743628b04fb62ac731cebcd9e926a10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 037/242] fix: only the first Transfer-Encoding header was
 looked at to tell whether an http message is chunked

---
 scarletio/web_common/http_message.py | 34 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/scarletio/web_common/http_message.py b/scarletio/web_common/http_message.py
index c234d6f..35ad511 100755
--- a/scarletio/web_common/http_message.py
+++ b/scarletio/web_common/http_message.py
@@ -140,25 +140,30 @@ class RawMessage(RichAttributeErrorBaseType):
         return self._is_equal_same_type(other)
     
     
-    def _get_connection_options(self):
+    def _get_header_options(self, header_name):
         """
-        Returns the options listed by the `Connection` header(s).
+        Returns the options listed by the header(s) with the given name.
+        
+        Parameters
+        ----------
+        header_name : `str`
+            The name of the header(s).
         
         Returns
         -------
-        connection_options : `set<str>`
+        options : `set<str>`
         """
-        connection_options = set()
+        options = set()
         
-        values = self.headers.get_all(CONNECTION)
+        values = self.headers.get_all(header_name)
         if (values is not None):
             for value in values:
                 for option in value.split(','):
                     option = option.strip()
                     if option:
-                        connection_options.add(option.casefold())
+                        options.add(option.casefold())
         
-        return connection_options
+        return options
     
     
     def _can_be_upgraded(self):
@@ -190,7 +195,7 @@ class RawMessage(RichAttributeErrorBaseType):
         if not headers.get(UPGRADE, ''):
             value = False
         else:
-            value = self._can_be_upgraded() and ('upgrade' in self._get_connection_options())
+            value = self._can_be_upgraded() and ('upgrade' in self._get_header_options(CONNECTION))
             if value:
                 cache_flags |= CACHE_FLAG_UPGRADE_VALUE
         
@@ -227,14 +232,9 @@ class RawMessage(RichAttributeErrorBaseType):
         if cache_flags & CACHE_FLAG_CHUNKED_SET:
             return True if cache_flags & CACHE_FLAG_CHUNKED_VALUE else False
         
-        try:
-            transfer_encoding = self.headers[TRANSFER_ENCODING]
-        except KeyError:
-            value = False
-        else:
-            value = ('chunked' in transfer_encoding.casefold())
-            if value:
-                cache_flags |= CACHE_FLAG_CHUNKED_VALUE
+        value = ('chunked' in self._get_header_options(TRANSFER_ENCODING))
+        if value:
+            cache_flags |= CACHE_FLAG_CHUNKED_VALUE
         
         cache_flags |= CACHE_FLAG_CHUNKED_SET
         self._cache_flags = cache_flags
@@ -300,7 +300,7 @@ class RawMessage(RichAttributeErrorBaseType):
         if cache_flags & CACHE_FLAG_KEEP_ALIVE_SET:
             return self._cache_keep_alive
         
-        connection_options = self._get_connection_options()
+        connection_options = self._get_header_options(CONNECTION)
         if 'close' in connection_options:
             keep_alive_enabled = False
         elif 'keep-alive' in connection_options:
-- 
2.43.0


From c02b94a06185f3b626ddb6b3888b37a0f2fe990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 038/242] fix: get_payload_reader_task looked up the status of
 requests

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 4d29d40..8ce07e5 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -445,7 +445,7 @@ class HttpReadProtocol(ReadProtocolBase):
             length = int(length)
         
         if (not message.upgraded):
-            if should_status_code_have_empty_payload(message.status):
+            if isinstance(message, RawResponseMessage) and should_status_code_have_empty_payload(message.status):
                 return None
             
             if message.chunked:
-- 
2.43.0


From 10af405269ade75a079bf5d44919b01e4ceb6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 039/242] fix: content length and chunk sizes were parsed
 leniently (signs, prefixes, underscores, not ascii digits)

---
 scarletio/web_common/http_protocol.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 8ce07e5..9cbf0f1 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -4,6 +4,7 @@ from base64 import b64decode as base64_decode
 from binascii import a2b_qp as qp_decode
 from functools import partial as partial_func
 from random import getrandbits
+from re import compile as re_compile
 from struct import Struct
 
 from ..core import ReadProtocolBase, ReadWriteProtocolBase
@@ -31,6 +32,8 @@ PACK_LENGTH_1 = Struct('!BB').pack
 PACK_LENGTH_2 = Struct('!BBH').pack
 PACK_LENGTH_3 = Struct('!BBQ').pack
 
+CHUNK_SIZE_RP = re_compile(b'[0-9a-fA-F]+[ \\t]*')
+
 
 def _build_head(start_line, headers):
     """
@@ -439,7 +442,7 @@ class HttpReadProtocol(ReadProtocolBase):
         """
         length = message.headers.get(CONTENT_LENGTH, None)
         if (length is not None):
-            if not length.isdigit():
+            if not (length.isascii() and length.isdigit()):
                 raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
             
             length = int(length)
@@ -513,12 +516,13 @@ class HttpReadProtocol(ReadProtocolBase):
             if index != -1:
                 line = line[:index]
             
-            try:
-                length = int(line, 16)
-            except ValueError:
+            # `int` would accept signs, prefixes and underscores as well.
+            if CHUNK_SIZE_RP.fullmatch(line) is None:
                 raise PayloadError(
                     f'Not hexadecimal chunk size: {line!r}.'
-                ) from None
+                )
+            
+            length = int(line, 16)
             
             if length == 0:
                 end = await self._read_exactly_as_one(2)
-- 
2.43.0


From 1e956e0356effa9cce9a38c8ac701710e987aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 040/242] fix: chunked bodies with trailers could not be read

---
 scarletio/web_common/http_protocol.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 9cbf0f1..28252b8 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -525,11 +525,17 @@ class HttpReadProtocol(ReadProtocolBase):
             length = int(line, 16)
             
             if length == 0:
-                end = await self._read_exactly_as_one(2)
-                if end != b'\r\n':
-                    raise PayloadError(
-                        f'Received chunk does not end with b\'\\r\\n\', instead with: {end}.'
-                    )
+                # Trailers may follow the last chunk. These are ignored.
+                while True:
+                    line = await self._read_until_as_one(b'\r\n')
+                    if not line:
+                        break
+                    
+                    if (b':' not in line) and (line[: 1] not in (b' ', b'\t')):
+                        raise PayloadError(
+                            f'Received last chunk is not followed by a trailer nor by b\'\\r\\n\', but by: {line!r}.'
+                        )
+                
                 break
             
             async for chunk in self._read_exactly_by_chunk(length):
-- 
2.43.0


From ced7ae52a1dc03ab8853628a7d0406d08c5f5c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 041/242] fix: bodies lasting until eof were not decompressed

---
 scarletio/web_common/http_protocol.py | 64 ++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 28252b8..5f063a0 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -479,14 +479,11 @@ class HttpReadProtocol(ReadProtocolBase):
             if should_status_code_have_empty_payload(message.status):
                 return None
             
-            if message.chunked:
-                decompressor = get_decompressor_for(message.encoding)
-                if decompressor is None:
-                    return self._read_chunked
-                
-                return partial_func(self._read_chunked_encoded, decompressor)
+            decompressor = get_decompressor_for(message.encoding)
+            if decompressor is None:
+                return self._read_until_eof
             
-            return self._read_until_eof
+            return partial_func(self._read_until_eof_encoded, decompressor)
         
         return None
     
@@ -619,6 +616,59 @@ class HttpReadProtocol(ReadProtocolBase):
             payload_stream.add_received_chunk(chunk)
     
     
+    async def _read_until_eof_encoded(self, decompressor, payload_stream):
+        """
+        Payload reader task, that reads until eof, decompressing the received data with the given decompress object.
+        
+        This method is a coroutine.
+        
+        Parameters
+        ----------
+        decompressor : `ZLIB_DECOMPRESSOR`, `BROTLI_DECOMPRESSOR`
+            Decompressor used to decompress the data after receiving it.
+        
+        payload_stream : ``PayloadStream``
+            Payload buffer to read into.
+        
+        Raises
+        ------
+        PayloadError
+            Cannot decompress a chunk.
+        """
+        chunks = self._chunks
+        while True:
+            while chunks:
+                chunk = chunks.popleft()
+                offset = self._offset
+                if offset:
+                    self._offset = 0
+                    chunk = memoryview(chunk)[offset :]
+                
+                try:
+                    chunk = decompressor.decompress(chunk)
+                except COMPRESSION_ERRORS:
+                    raise PayloadError('Cannot decompress chunk.') from None
+                
+                payload_stream.add_received_chunk(chunk)
+            
+            if self._at_eof:
+                break
+            
+            try:
+                await self._wait_for_data()
+            except EOFError:
+                break
+        
+        # Flush decompressor at the end in case it is required.
+        try:
+            chunk = decompressor.flush()
+        except COMPRESSION_ERRORS:
+            raise PayloadError('Cannot decompress chunk.') from None
+        
+        if chunk:
+            payload_stream.add_received_chunk(chunk)
+    
+    
     async def _read_chunked_encoded(self, decompressor, payload_stream):
         """
         Payload reader task, that reads a chunked http message, till it ends. After receiving a "chunk", decompresses
-- 
2.43.0


From f55d77b39888b45d274cb26cf32a61fdc941ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 042/242] fix: deflate encoded bodies were only accepted as raw
 deflate streams

---
 scarletio/web_common/compressors.py | 70 ++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/compressors.py b/scarletio/web_common/compressors.py
index c2f26b1..30717d1 100755
--- a/scarletio/web_common/compressors.py
+++ b/scarletio/web_common/compressors.py
@@ -46,6 +46,74 @@ ZLIB_COMPRESSOR = zlib.compressobj
 
 ZLIB_MAX_WBITS = zlib.MAX_WBITS
 
+class DeflateDecompressor:
+    """
+    Decompressor for the `deflate` content-encoding. The specification asks for zlib format, but raw deflate streams
+    are common too. Which one is received is decided by the first two bytes.
+    
+    Attributes
+    ----------
+    _decompressor : `None | zlib.Decompress`
+        The used decompressor. `None` until it is not decided.
+    _head : `bytes`
+        Received data till it is decided which decompressor is to be used.
+    """
+    __slots__ = ('_decompressor', '_head')
+    
+    def __init__(self):
+        """
+        Creates a new deflate decompressor.
+        """
+        self._decompressor = None
+        self._head = b''
+    
+    
+    def decompress(self, value):
+        """
+        Decompresses the given chunk.
+        
+        Parameters
+        ----------
+        value : `bytes-like`
+            The chunk to decompress.
+        
+        Returns
+        -------
+        decompressed : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            value = self._head + bytes(value)
+            if len(value) < 2:
+                self._head = value
+                return b''
+            
+            if (value[0] & 0xf) == 8 and ((value[0] << 8) | value[1]) % 31 == 0:
+                wbits = ZLIB_MAX_WBITS
+            else:
+                wbits = -ZLIB_MAX_WBITS
+            
+            self._head = b''
+            self._decompressor = decompressor = ZLIB_DECOMPRESSOR(wbits = wbits)
+        
+        return decompressor.decompress(value)
+    
+    
+    def flush(self):
+        """
+        Flushes the decompressor, returning the data left.
+        
+        Returns
+        -------
+        decompressed : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            return b''
+        
+        return decompressor.flush()
+
+
 def get_decompressor_for(content_encoding):
     """
     Gets decompress object for the given content-encoding if applicable.
@@ -72,7 +140,7 @@ def get_decompressor_for(content_encoding):
         decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
     
     elif content_encoding == 'deflate':
-        decompressor = ZLIB_DECOMPRESSOR(wbits = -ZLIB_MAX_WBITS)
+        decompressor = DeflateDecompressor()
     
     elif content_encoding == 'br':
         if BROTLI_DECOMPRESSOR is None:
-- 
2.43.0


From 09dad692d04462ebdd5b50ab3a21d905f7bcfef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 043/242] fix: ContentType could not be hashed

---
 scarletio/web_common/content_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/content_type.py b/scarletio/web_common/content_type.py
index f3f172a..7c01ded 100755
--- a/scarletio/web_common/content_type.py
+++ b/scarletio/web_common/content_type.py
@@ -706,7 +706,7 @@ class ContentType(RichAttributeErrorBaseType):
         return True
     
     
-    def __hash__(self, other):
+    def __hash__(self):
         """Returns hash(self)."""
         hash_value = 0
         
-- 
2.43.0


From a8c8ef1a621dbf8d5ec58e5e0bd41663a0968b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 044/242] fix: commas and tabs were accepted as part of http
 tokens

---
 scarletio/web_common/header_building_and_parsing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index 0abe215..a241409 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -13,9 +13,9 @@ _PROTOCOL_RP = re.compile(r'[-!#$%&\'*+.^_`|~0-9a-zA-Z]+(?:/[-!#$%&\'*+.^_`|~0-9
 CHARS = frozenset((chr(i) for i in range(0, 128)))
 CONTROLS = frozenset((*(chr(i) for i in range(0, 32)), chr(127)))
 SEPARATORS = frozenset(
-    ('(', ')', '<', '>', '@', ', ', ';', ':', '\\', '"', '/', '[', ']', '?', '=', '{', '}', ' ', chr(9)),
+    ('(', ')', '<', '>', '@', ',', ';', ':', '\\', '"', '/', '[', ']', '?', '=', '{', '}', ' ', chr(9)),
 )
-TOKENS = CHARS ^ CONTROLS ^ SEPARATORS
+TOKENS = CHARS - CONTROLS - SEPARATORS
 
 def build_extensions(available_extensions):
     """
-- 
2.43.0


From 3d0f2ce526e9c69713d2295412cf4e4f6e634e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 045/242] fix: content disposition parameters could contain
 line breaks, and extended ones unescaped delimiters

---
 .../web_common/header_building_and_parsing.py | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index a241409..2b7c0f1 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -2,8 +2,6 @@ __all__ = ()
 
 import re
 
-from .quoting import quote
-
 
 _TOKEN_RP = re.compile(r'[-!#$%&\'*+.^_`|~0-9a-zA-Z]+')
 _LIST_START_RP = re.compile('[\t ,]*')
@@ -398,6 +396,9 @@ def parse_upgrades(header_value):
 
 
 USASCII_ESCAPABLE_RP = re.compile('[^\\041\\043-\\133\\135-\\176]')
+# Everything except what is allowed in an extended header parameter value (`attr-char` of rfc5987).
+EXT_VALUE_ESCAPABLE_RP = re.compile('[^!#$&+\\-.^_`|~0-9a-zA-Z]+')
+CONTROL_CHARACTER_RP = re.compile('[\x00-\x08\x0a-\x1f\x7f]+')
 USASCII_CHARACTERS = {'\t', *(chr(index) for index in range(0x20, 0x7F))}
 
 
@@ -417,6 +418,22 @@ def _escape_matched(match):
     return '\\' + match.group(0)
 
 
+def _percent_encode_matched(match):
+    """
+    Percent encodes the matched value.
+    
+    Parameters
+    ----------
+    match : `re.Match`
+        The matched value.
+    
+    Returns
+    -------
+    encoded : `str`
+    """
+    return ''.join([f'%{byte:02X}' for byte in match.group(0).encode('utf-8')])
+
+
 def _try_usascii_escape(value):
     """
     If the content is `7-bit` (or `usascii`) it escapes it, so there is no need to quote.
@@ -477,10 +494,12 @@ def build_content_disposition_header(disposition_type, parameters, quote_fields)
                 value = f'"{value!s}"'
             else:
                 key = key + '*'
-                value = quote(value)
+                value = EXT_VALUE_ESCAPABLE_RP.sub(_percent_encode_matched, value)
                 value = f'utf-8\'\'{value!s}'
         else:
             value = value.replace('\\', '\\\\').replace('"', '\\"')
+            # Control characters cannot be represented; line breaks would even start a new header.
+            value = CONTROL_CHARACTER_RP.sub(_percent_encode_matched, value)
             value = f'"{value!s}"'
         
         parameter_parts.append('; ')
-- 
2.43.0


From 8f93d977747f8be223ce8c8924993325e2d9eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 046/242] fix: BasicAuthorization could not be converted to
 header with utf-16 like encodings and could not be read back with line breaks

---
 scarletio/web_common/basic_authorization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/basic_authorization.py b/scarletio/web_common/basic_authorization.py
index a8ab27a..8bf90b6 100755
--- a/scarletio/web_common/basic_authorization.py
+++ b/scarletio/web_common/basic_authorization.py
@@ -2,13 +2,13 @@ __all__ = ('BasicAuthorization', )
 
 from binascii import Error as EncodeOrDecodeError
 from base64 import b64decode as base64_decode, b64encode as base64_encode
-from re import compile as re_compile
+from re import DOTALL as re_dotall, compile as re_compile
 
 from ..utils import RichAttributeErrorBaseType
 
 
 AUTHORIZATION_HEADER_RP = re_compile('\\s*(.*?)\\s+(.*?)\\s*')
-USER_ID_PASSWORD_JOIN_RP = re_compile('(.*?)(?:\\:(.*))?')
+USER_ID_PASSWORD_JOIN_RP = re_compile('(.*?)(?:\\:(.*))?', re_dotall)
 BASIC_AUTH_DEFAULT_ENCODING = 'latin1'
 
 
@@ -207,4 +207,5 @@ class BasicAuthorization(RichAttributeErrorBaseType):
         -------
         authorization_header : `str`
         """
-        return f'Basic {base64_encode((f"{self.user_id}:{self.password}").encode(self.encoding)).decode(self.encoding)}'
+        token = base64_encode(f'{self.user_id}:{self.password}'.encode(self.encoding)).decode('ascii')
+        return f'Basic {token}'
-- 
2.43.0


From b327aea9812d34d2e266fe6a3140a0f6d39101fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 047/242] fix: line breaks in the headers of a multipart
 payload started new header lines

---
 scarletio/web_common/multipart.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 8a87004..cbfd556 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -1275,7 +1275,12 @@ class MultipartWriter(PayloadBase):
         result = []
         extend = result.extend
         for k, v in payload_headers.items():
-            extend((k, ': ', v, '\r\n'))
+            line = f'{k}: {v}'
+            if ('\r' in line) or ('\n' in line):
+                raise ValueError(f'Line breaks are not allowed inside of the headers of a payload; got {line!r}.')
+            
+            extend((line, '\r\n'))
+        
         
         result.append('\r\n')
         
-- 
2.43.0


From 916d3ea08a487c6c75b42e8c10afe7a04c490e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 048/242] fix: multipart bodies could not be read: the boundary
 was not encoded and connection end was expected as EOFError

---
 scarletio/web_common/http_protocol.py | 142 +++++++++++++++-----------
 1 file changed, 80 insertions(+), 62 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 5f063a0..13e8873 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -181,6 +181,69 @@ class HttpReadProtocol(ReadProtocolBase):
         return parse_http_request(data)
     
     
+    async def _read_exactly_or_eof(self, n):
+        """
+        Reads exactly `n` bytes. If the connection is ended earlier returns `None`.
+        
+        This method is a coroutine.
+        
+        Parameters
+        ----------
+        n : `int`
+            The amount of bytes to read.
+        
+        Returns
+        -------
+        data : `None | bytes`
+        """
+        try:
+            return await self.read_exactly(n)
+        except ConnectionError as exception:
+            if isinstance(exception.__cause__, EOFError):
+                return None
+            
+            raise
+    
+    
+    async def _read_multipart_boundary_end(self):
+        """
+        Reads the end of a multipart boundary. Connection end is accepted as the end of the payload.
+        
+        This method is a coroutine.
+        
+        Returns
+        -------
+        is_more : `bool`
+            Whether the payload contains more multipart field.
+        
+        Raises
+        ------
+        PayloadError
+            Invalid data received.
+        """
+        maybe_end_0 = await self._read_exactly_or_eof(2)
+        if maybe_end_0 is None:
+            return False
+        
+        if maybe_end_0 == b'\r\n':
+            return True
+        
+        if maybe_end_0 == b'--':
+            maybe_end_1 = await self._read_exactly_or_eof(2)
+            if (maybe_end_1 is None) or (maybe_end_1 == b'\r\n'):
+                return False
+            
+            raise PayloadError(
+                f'Multipart boundary not ended with b\'--\' + b\'\\r\\n\', got '
+                f'b\'--\' + {maybe_end_1!r}.'
+            )
+        
+        raise PayloadError(
+            f'Multipart boundary not ended either with b\'--\' or b\'\\r\\n\', got '
+            f'{maybe_end_0!r}.'
+        )
+    
+    
     async def _read_single_multipart(self, boundary, is_first):
         """
         Reads a single multipart.
@@ -216,33 +279,8 @@ class HttpReadProtocol(ReadProtocolBase):
         if is_first:
             await self.read_until(b'--' + boundary)
             
-            try:
-                maybe_end_0 = await self.read_exactly(2)
-            except EOFError:
-                # End of payload? Ok i guess.
+            if not await self._read_multipart_boundary_end():
                 return False, None, None
-            else:
-                if maybe_end_0 == b'\r\n':
-                    pass
-                elif maybe_end_0 == b'--':
-                    # End of payload?
-                    try:
-                        maybe_end_1 = await self.read_exactly(2)
-                    except EOFError:
-                        return False, None, None
-                    else:
-                        if maybe_end_1 == b'\r\n':
-                            return False, None, None
-                        else:
-                            raise PayloadError(
-                                f'Multipart boundary not ended with b\'--\' + b\'\r\n\', got '
-                                f'b\'--\'+{maybe_end_1!r}.'
-                            )
-                else:
-                    raise PayloadError(
-                        f'Multipart boundary not ended either with b\'--\' or b\'\r\n\', got '
-                        f'{maybe_end_0!r}.'
-                    )
         
         data = await self.read_until(b'\r\n\r\n')
         headers = parse_http_headers(data, 0)
@@ -251,46 +289,21 @@ class HttpReadProtocol(ReadProtocolBase):
         if length is None:
             part = await self.read_until(b'\r\n--' + boundary)
         else:
-            length = int(length)
-            part = await self._read_exactly_as_one(length)
-            try:
-                maybe_boundary = await self.read_exactly(len(boundary) + 4)
-            except EOFError:
-                return False, None, part
+            if not (length.isascii() and length.isdigit()):
+                raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
+            
+            part = await self.read_exactly(int(length))
+            maybe_boundary = await self._read_exactly_or_eof(len(boundary) + 4)
+            if maybe_boundary is None:
+                return False, headers, part
             
             if maybe_boundary != b'\r\n--' + boundary:
                 raise PayloadError(
-                    f'Multipart payload not ended with boundary, expected: b\'\r\n\' + b\'--\' + '
+                    f'Multipart payload not ended with boundary, expected: b\'\\r\\n\' + b\'--\' + '
                     f'{boundary!r}, got {maybe_boundary!r}.'
                 )
-            
-            
-        try:
-            maybe_end_0 = await self.read_exactly(2)
-        except EOFError:
-            return False, headers, part
         
-        if maybe_end_0 == b'\r\n':
-            return True, headers, part
-        
-        if maybe_end_0 == b'--':
-            try:
-                maybe_end_1 = await self.read_exactly(2)
-            except EOFError:
-                return False, headers, part
-            
-            if maybe_end_1 == b'\r\n':
-                return False, headers, part
-            
-            raise PayloadError(
-                f'Multipart boundary not ended with b\'--\'+b\'\r\n\', got '
-                f'b\'--\'+{maybe_end_1!r}.'
-            )
-        
-        raise PayloadError(
-            f'Multipart boundary not ended either with  b\'--\' or b\'\r\n\', got '
-            f'{maybe_end_0!r}.'
-        )
+        return (await self._read_multipart_boundary_end()), headers, part
     
     
     async def read_multipart(self, headers):
@@ -337,6 +350,8 @@ class HttpReadProtocol(ReadProtocolBase):
         if (boundary is None):
             raise PayloadError(f'Missing boundary: {boundary}.')
         
+        boundary = boundary.encode('utf-8', 'surrogateescape')
+        
         is_first = True
         while True:
             is_more, headers, data = await self._read_single_multipart(boundary, is_first)
@@ -348,10 +363,13 @@ class HttpReadProtocol(ReadProtocolBase):
                 else:
                     transfer_encoding = transfer_encoding.casefold()
                     if transfer_encoding == 'base64':
-                        data = base64_decode(data)
+                        try:
+                            data = base64_decode(data)
+                        except ValueError as exception:
+                            raise PayloadError('Cannot decode data.') from exception
                     elif transfer_encoding == 'quoted-printable':
                         data = qp_decode(data)
-                    elif transfer_encoding in ('binary', '8bit', '7bit'):
+                    elif transfer_encoding in ('', 'binary', '8bit', '7bit'):
                         pass
                     else:
                         raise PayloadError(f'Unknown transfer encoding: {transfer_encoding!r}.')
-- 
2.43.0


From 12a2dd7a4815339d56643971a8520a3be2e4a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 049/242] fix: payloads given a content type through headers
 had two Content-Type headers

---
 scarletio/web_common/multipart.py | 43 ++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index cbfd556..8972bd0 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -27,6 +27,28 @@ VALID_TCHAR_RP = re_compile(br'\A[!#$%&\'*+\-.^_`|~\w]+\Z')
 INVALID_QDTEXT_CHAR_RP = re_compile(br'[\x00-\x08\x0A-\x1F\x7F]')
 
 
+def _get_content_type(keyword_parameters):
+    """
+    Gets the content type given to a payload. The one given within `headers` is preferred.
+    
+    Parameters
+    ----------
+    keyword_parameters : `dict` of (`str`, `object`) items
+        Keyword parameters passed to the payload.
+    
+    Returns
+    -------
+    content_type : `None | str`
+    """
+    headers = keyword_parameters.get('headers', None)
+    if (headers is not None):
+        content_type = headers.get(CONTENT_TYPE, None)
+        if (content_type is not None):
+            return content_type
+    
+    return keyword_parameters.get('content_type', None)
+
+
 def create_payload(data, keyword_parameters):
     """
     Creates a new ``PayloadBase`` with the given parameters.
@@ -117,8 +139,7 @@ class PayloadBase:
         self.size = None
         
         headers = IgnoreCaseMultiValueDictionary()
-        
-        content_type = keyword_parameters.get('content_type', None)
+        content_type = _get_content_type(keyword_parameters)
         if content_type is None:
             if file_name is None:
                 content_type = DEFAULT_CONTENT_TYPE
@@ -129,12 +150,14 @@ class PayloadBase:
                 else:
                     content_type = mime
         
-        headers[CONTENT_TYPE] = content_type
-        
         headers_parameter = keyword_parameters.get('headers', None)
-        if (headers_parameter is not None) or  headers_parameter:
+        if (headers_parameter is not None):
             headers.extend(headers_parameter)
         
+        # There can be only one.
+        headers.pop_all(CONTENT_TYPE, None)
+        headers[CONTENT_TYPE] = content_type
+        
         self.headers = headers
         self.content_type = content_type
     
@@ -288,7 +311,7 @@ class StringPayload(BytesPayload):
             Additional keyword parameters.
         """
         encoding = keyword_parameters.get('encoding', None)
-        content_type = keyword_parameters.get('content_type', None)
+        content_type = _get_content_type(keyword_parameters)
         if encoding is None:
             if content_type is None:
                 encoding = 'utf-8'
@@ -450,7 +473,7 @@ class TextIOPayload(IOBasePayload):
             Additional keyword parameters.
         """
         encoding = keyword_parameters.get('encoding', None)
-        content_type = keyword_parameters.get('content_type', None)
+        content_type = _get_content_type(keyword_parameters)
         if encoding is None:
             if content_type is None:
                 encoding = 'utf-8'
@@ -1194,8 +1217,10 @@ class MultipartWriter(PayloadBase):
             headers = IgnoreCaseMultiValueDictionary()
         
         if isinstance(body_part, PayloadBase):
-            if (headers is not None):
-                body_part.headers.extend(headers)
+            for key in headers.keys():
+                body_part.headers.pop_all(key, None)
+            
+            body_part.headers.extend(headers)
             
             payload = body_part
         else:
-- 
2.43.0


From d0834545d132ad55df11bb62c0eea92076da21b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 050/242] fix: the size of text files was told by their size on
 the disk, although these are sent re-encoded

---
 scarletio/web_common/multipart.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 8972bd0..5f5acdb 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -492,13 +492,8 @@ class TextIOPayload(IOBasePayload):
         
         IOBasePayload.__init__(self, data, keyword_parameters)
         
-        try:
-            size = stat(data.fileno()).st_size - data.tell()
-        except OSError:
-            # `data.fileno()` is not supported. Example: `io.BufferedReader(io.BytesIO(b'data'))`
-            size = None
-        
-        self.size = size
+        # The size is not known, since the file is decoded, its line breaks are translated, and it is encoded again.
+        self.size = None
     
     
     async def write(self, writer):
-- 
2.43.0


From b15bc5300bf7920aacbad5a36fdef95d589a5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 051/242] fix: deflate encoded multipart payloads were raw
 deflate streams

---
 scarletio/web_common/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 5f5acdb..db36e94 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -1516,7 +1516,7 @@ class MultipartPayloadWriter:
             compressor = ZLIB_COMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
         
         elif content_encoding == 'deflate':
-            compressor = ZLIB_COMPRESSOR(wbits = -ZLIB_MAX_WBITS)
+            compressor = ZLIB_COMPRESSOR(wbits = ZLIB_MAX_WBITS)
         
         elif content_encoding == 'br':
             if BROTLI_COMPRESSOR is None:
-- 
2.43.0


From 10c0ebf80d792d39f06378961f2feea61cf54e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 052/242] fix: line breaks of quoted-printable encoded payloads
 were converted

---
 scarletio/web_common/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index db36e94..02c2f4c 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -1619,7 +1619,7 @@ class MultipartPayloadWriter:
             chunk = base_64_encode(chunk)
         
         elif transfer_encoding == TRANSFER_ENCODING_QUOTED_PRINTABLE:
-            chunk = qp_encode(chunk)
+            chunk = qp_encode(chunk, istext = False)
             
         else:
             pass
-- 
2.43.0


From 2b3f15fa00ad6f553fa3a8e31e2a1893a44afde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 053/242] fix: files without a text name (opened by descriptor,
 temporary) could not be sent

---
 scarletio/web_common/form_data.py | 3 +++
 scarletio/web_common/multipart.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/form_data.py b/scarletio/web_common/form_data.py
index 4d73e57..a6516bd 100755
--- a/scarletio/web_common/form_data.py
+++ b/scarletio/web_common/form_data.py
@@ -280,6 +280,9 @@ class FormData(RichAttributeErrorBaseType):
         
         if (file_name is None) and isinstance(value, IOBase):
             file_name = getattr(value, 'name', name)
+            if not isinstance(file_name, str):
+                # Files opened by descriptor
+                file_name = name
         
         if (file_name is not None):
             if not isinstance(file_name, str):
diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 02c2f4c..ea1222d 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -402,7 +402,9 @@ class IOBasePayload(PayloadBase):
             Additional keyword parameters.
         """
         if 'file_name' not in keyword_parameters:
-            keyword_parameters['file_name'] = getattr(data, 'name', None)
+            # The name of files opened by descriptor is not `str`.
+            name = getattr(data, 'name', None)
+            keyword_parameters['file_name'] = name if isinstance(name, str) else None
         
         PayloadBase.__init__(self, data, keyword_parameters)
         
-- 
2.43.0


From 58557937f48335d4b6754de9f48e5396c12f6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 054/242] fix: the size of memory views with more than 1 byte
 sized items was miscalculated

---
 scarletio/web_common/multipart.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index ea1222d..ae78e6f 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -260,6 +260,14 @@ class BytesPayload(PayloadBase):
         """
         keyword_parameters.setdefault('content_type', DEFAULT_CONTENT_TYPE)
         
+        if isinstance(data, memoryview):
+            if not data.c_contiguous:
+                data = data.tobytes()
+            
+            elif len(data) != data.nbytes:
+                # Its length is not its size, if its items are bigger than 1 byte.
+                data = data.cast('B')
+        
         PayloadBase.__init__(self, data, keyword_parameters)
         self.size = len(data)
     
-- 
2.43.0


From 99d007e2ed2a6a2ca9aef17bef8a889ccdd461da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 055/242] fix: chunks of quoted-printable encoded payloads were
 joined into too long lines

---
 scarletio/web_common/multipart.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index ae78e6f..331f193 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -1439,6 +1439,9 @@ TRANSFER_ENCODING_NONE = 0
 TRANSFER_ENCODING_BASE64 = 1
 TRANSFER_ENCODING_QUOTED_PRINTABLE = 2
 
+# One byte is encoded to at most 3, and a line can be at most 76 characters long with the `=` at its end.
+QUOTED_PRINTABLE_LINE_SIZE = 25
+
 class MultipartPayloadWriter:
     """
     Multipart payload writer of ``MultipartWriter``.
@@ -1556,7 +1559,7 @@ class MultipartPayloadWriter:
             
         elif transfer_encoding == 'quoted-printable':
             transfer_encoding = TRANSFER_ENCODING_QUOTED_PRINTABLE
-            encoding_buffer = None
+            encoding_buffer = bytearray()
         
         else:
             transfer_encoding = TRANSFER_ENCODING_NONE
@@ -1591,6 +1594,11 @@ class MultipartPayloadWriter:
             encoding_buffer = self.encoding_buffer
             if encoding_buffer:
                 await self.writer.write(base_64_encode(encoding_buffer))
+        
+        elif self.transfer_encoding == TRANSFER_ENCODING_QUOTED_PRINTABLE:
+            encoding_buffer = self.encoding_buffer
+            if encoding_buffer:
+                await self.writer.write(qp_encode(encoding_buffer, istext = False))
     
     
     async def write(self, chunk):
@@ -1629,7 +1637,21 @@ class MultipartPayloadWriter:
             chunk = base_64_encode(chunk)
         
         elif transfer_encoding == TRANSFER_ENCODING_QUOTED_PRINTABLE:
-            chunk = qp_encode(chunk, istext = False)
+            # Cut it to lines, so chunks will not be joined into too long ones. The last line is written at eof.
+            encoding_buffer = self.encoding_buffer
+            encoding_buffer.extend(chunk)
+            barrier = (len(encoding_buffer) - 1) // QUOTED_PRINTABLE_LINE_SIZE * QUOTED_PRINTABLE_LINE_SIZE
+            if barrier <= 0:
+                return
+            
+            lines = []
+            for index in range(0, barrier, QUOTED_PRINTABLE_LINE_SIZE):
+                lines.append(qp_encode(encoding_buffer[index : index + QUOTED_PRINTABLE_LINE_SIZE], istext = False))
+            
+            lines.append(b'')
+            del encoding_buffer[:barrier]
+            chunk = b'=\r\n'.join(lines)
+        
             
         else:
             pass
-- 
2.43.0


From 9e5bc9713861839370e8713bf4aacb0e045fb7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 056/242] fix: text payloads were not encoded by the charset of
 their content type

---
 scarletio/web_common/multipart.py | 74 ++++++++++++++++---------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 331f193..c735ef5 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -2,6 +2,7 @@ __all__ = ('create_payload', )
 
 from base64 import b64encode as base_64_encode
 from binascii import b2a_qp as qp_encode
+from codecs import getincrementalencoder as get_incremental_encoder, lookup as get_codec
 from io import BufferedRandom, BufferedReader, BytesIO, IOBase, StringIO, TextIOBase
 from mimetypes import guess_type as guess_content_type
 from os import SEEK_END, fstat as stat
@@ -49,6 +50,42 @@ def _get_content_type(keyword_parameters):
     return keyword_parameters.get('content_type', None)
 
 
+def _set_text_encoding(keyword_parameters):
+    """
+    Decides how text is encoded by a payload and sets it into the given `keyword_parameters`. The charset of the
+    content type is the preferred one, since the text will be decoded by that.
+    
+    Parameters
+    ----------
+    keyword_parameters : `dict` of (`str`, `object`) items
+        Keyword parameters passed to the payload.
+    
+    Returns
+    -------
+    encoding : `str`
+    """
+    encoding = keyword_parameters.get('encoding', None)
+    if encoding is None:
+        encoding = 'utf-8'
+    
+    content_type = _get_content_type(keyword_parameters)
+    if content_type is None:
+        keyword_parameters['content_type'] = f'text/plain; charset={encoding}'
+    else:
+        content_type, content_type_parsing_error = parse_content_type(content_type)
+        charset = content_type.get_parameter('charset', None)
+        if (charset is not None):
+            try:
+                get_codec(charset)
+            except LookupError:
+                pass
+            else:
+                encoding = charset
+    
+    keyword_parameters['encoding'] = encoding
+    return encoding
+
+
 def create_payload(data, keyword_parameters):
     """
     Creates a new ``PayloadBase`` with the given parameters.
@@ -318,24 +355,7 @@ class StringPayload(BytesPayload):
         keyword_parameters : `dict<str, object>`
             Additional keyword parameters.
         """
-        encoding = keyword_parameters.get('encoding', None)
-        content_type = _get_content_type(keyword_parameters)
-        if encoding is None:
-            if content_type is None:
-                encoding = 'utf-8'
-                content_type = 'text/plain; charset=utf-8'
-                
-                keyword_parameters['content_type'] = content_type
-            else:
-                content_type, content_type_parsing_error = parse_content_type(content_type)
-                encoding = content_type.get_parameter('charset', 'utf-8')
-            
-            keyword_parameters['encoding'] = encoding
-        
-        else:
-            if content_type is None:
-                content_type = f'text/plain; charset={encoding}'
-                keyword_parameters['content_type'] = content_type
+        encoding = _set_text_encoding(keyword_parameters)
         
         data = data.encode(encoding)
         
@@ -482,23 +502,7 @@ class TextIOPayload(IOBasePayload):
         keyword_parameters : `dict<str, object>`
             Additional keyword parameters.
         """
-        encoding = keyword_parameters.get('encoding', None)
-        content_type = _get_content_type(keyword_parameters)
-        if encoding is None:
-            if content_type is None:
-                encoding = 'utf-8'
-                content_type = 'text/plain; charset=utf-8'
-                
-                keyword_parameters['content_type'] = content_type
-            else:
-                content_type, content_type_parsing_error = parse_content_type(content_type)
-                encoding = content_type.get_parameter('charset', 'utf-8')
-            
-            keyword_parameters['encoding'] = encoding
-        else:
-            if content_type is None:
-                content_type = f'text/plain; charset={encoding}'
-                keyword_parameters['content_type'] = content_type
+        _set_text_encoding(keyword_parameters)
         
         IOBasePayload.__init__(self, data, keyword_parameters)
         
-- 
2.43.0


From 34d7de86f8a9e46258090d3e8ff565ee79d4eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 057/242] fix: a byte order mark was written with every chunk
 of text files

---
 scarletio/web_common/multipart.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index c735ef5..146eb0b 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -522,12 +522,15 @@ class TextIOPayload(IOBasePayload):
             Http writer to write the payload's data to.
         """
         data = self.data
+        # Some encodings have a byte order mark, which should be written only once.
+        encoder = get_incremental_encoder(self.encoding)()
         try:
             while True:
                 chunk = data.read(BIG_CHUNK_LIMIT)
                 if chunk:
-                    await writer.write(chunk.encode(self.encoding))
+                    await writer.write(encoder.encode(chunk))
                 else:
+                    await writer.write(encoder.encode('', True))
                     break
         finally:
             data.close()
-- 
2.43.0


From 924c3aa43cb7a0d6d4ef0352ba34e904d208b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 058/242] fix: the representation of asynchronous iterables was
 sent as form field

---
 scarletio/web_common/form_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/web_common/form_data.py b/scarletio/web_common/form_data.py
index a6516bd..a450164 100755
--- a/scarletio/web_common/form_data.py
+++ b/scarletio/web_common/form_data.py
@@ -271,6 +271,10 @@ class FormData(RichAttributeErrorBaseType):
         if isinstance(value, IOBase):
             self.multipart = True
         
+        elif hasattr(type(value), '__aiter__'):
+            # Asynchronous ios and iterables can not be url-encoded.
+            self.multipart = True
+        
         elif isinstance(value, (bytes, bytearray, memoryview)):
             if (file_name is None) and (transfer_encoding is None):
                 file_name = name
-- 
2.43.0


From 99685f740ae992eae7c7720acfd8fd43af39cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 059/242] fix: socket transports of outgoing connections did
 not know their peer name

---
 scarletio/core/protocols_and_transports/transport_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index b372a4d..91edc96 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -190,7 +190,7 @@ class SocketTransportLayerBase(TransportLayerBase):
         
         extra = set_extra_info(extra, EXTRA_INFO_NAME_SOCKET_NAME, socket_name)
         
-        if has_extra_info(extra, EXTRA_INFO_NAME_PEER_NAME):
+        if not has_extra_info(extra, EXTRA_INFO_NAME_PEER_NAME):
             try:
                 peer_name = socket.getpeername()
             except SocketError:
-- 
2.43.0


From cdfbd03e255cb88c4c70501b6ad3dd6801bfa62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 060/242] fix: a socket transport closed or paused in
 connection_made started reading and left its descriptor in the selector

---
 .../protocols_and_transports/transport_layer.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 91edc96..c466d0c 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -578,7 +578,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         _set_nodelay(socket)
         
         # only start reading when connection_made() has been called
-        loop.call_soon(loop.add_reader, self._file_descriptor, self._read_ready)
+        loop.call_soon(self._add_reader)
         if (waiter is not None):
             # only wake up the waiter when connection_made() has been called
             loop.call_soon(type(waiter).set_result_if_pending, waiter, None)
@@ -678,6 +678,17 @@ class SocketTransportLayer(SocketTransportLayerBase):
         return True
     
     
+    def _add_reader(self):
+        """
+        Call soon callback added by ``.__new__`` to add reader to the event loop.
+        """
+        # `.connection_made` might have closed or paused us.
+        if self._closing or self._paused:
+            return
+        
+        self._loop.add_reader(self._file_descriptor, self._read_ready)
+    
+    
     @copy_docs(SocketTransportLayerBase._fatal_error)
     def _fatal_error(self, exception, message = 'Fatal error on transport layer'):
         SocketTransportLayerBase._fatal_error(self, exception, message)
-- 
2.43.0


From e293f416461db383aeb846e10f359a6779f68903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 061/242] fix: socket transports sent from the mutable buffer
 of the caller, and write_eof raised on a broken or closed one

---
 .../transport_layer.py                        | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index c466d0c..515bb94 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -625,21 +625,32 @@ class SocketTransportLayer(SocketTransportLayerBase):
             # Not all was written; register write handler.
             self._loop.add_writer(self._file_descriptor, self._write_ready)
         
-        # Add it to the buffer.
-        buffer.append(data)
+        # Add it to the buffer. Ensure that what we buffer is immutable.
+        buffer.append(bytes(data))
         self._maybe_pause_protocol()
     
     # `.writelines` same as `SocketTransportLayerBase`'s.
     
     @copy_docs(SocketTransportLayerBase.write_eof)
     def write_eof(self):
-        if self._at_eof:
+        if self._at_eof or self._closing:
             return
         
         self._at_eof = True
         
         if not self._buffer:
+            self._shutdown_write()
+    
+    
+    def _shutdown_write(self):
+        """
+        Shuts the writing side of the socket down.
+        """
+        try:
             self._socket.shutdown(SOCKET_SHUTDOWN_WR)
+        except OSError as exception:
+            # The connection is already broken.
+            self._force_close(exception)
     
 
     @copy_docs(SocketTransportLayerBase.can_write_eof)
@@ -769,7 +780,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
-                    self._socket.shutdown(SOCKET_SHUTDOWN_WR)
+                    self._shutdown_write()
     
     else:
         def _write_ready(self):
@@ -820,7 +831,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
-                    self._socket.shutdown(SOCKET_SHUTDOWN_WR)
+                    self._shutdown_write()
 
 
 class DatagramSocketTransportLayer(SocketTransportLayerBase):
-- 
2.43.0


From 727e95d2ecd9350fcf8f59e66df088d6e0788d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 062/242] fix: writing to a socket transport after its close
 flushed the buffer raised

---
 scarletio/core/protocols_and_transports/transport_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 515bb94..046134c 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -347,6 +347,8 @@ class SocketTransportLayerBase(TransportLayerBase):
             If the connection was closed, then `exception` is given as `None`. This can happen at the case, when eof is
             received as well.
         """
+        self._connection_lost = True
+        
         try:
             protocol = self._protocol
             if (protocol is not None):
-- 
2.43.0


From b0b11450f6ab6c27af3da0e2b636c1c80296e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 063/242] fix: the write buffer limits of pipe transports were
 taken in swapped order

---
 .../core/protocols_and_transports/unix_pipe_transport_layer.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
index 59e5e48..c011109 100755
--- a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
@@ -685,6 +685,6 @@ class UnixWritePipeTransportLayer(TransportLayerBase):
     
     
     @copy_docs(TransportLayerBase.set_write_buffer_limits)
-    def set_write_buffer_limits(self, low = None, high = None):
+    def set_write_buffer_limits(self, high = None, low = None):
         self._set_write_buffer_limits(low = low, high = high)
         self._maybe_pause_protocol()
-- 
2.43.0


From 9544aba3c558cff1c7e75736309020e95447a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 064/242] fix: closing a ssl transport during the handshake
 raised or left the connection open, and aborted ones were not closing

---
 .../ssl_transport_layer.py                    | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 87cba2a..151f482 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -193,6 +193,12 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
     @copy_docs(AbstractBidirectionalTransportLayerBase.connection_made)
     def connection_made(self, transport):
         self._transport = transport
+        
+        if self._closing:
+            # We were closed before we could have been connected.
+            transport.abort()
+            return
+        
         self._ssl_pipe = SSLPipe(self._ssl_context, self._server_side, self._server_host_name)
         
         self._in_handshake = True
@@ -209,6 +215,11 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
             self._loop.call_soon(type(app_protocol).connection_lost, app_protocol, exception)
         
         self._transport = None
+        self._closing = True
+        
+        if exception is None:
+            exception = ConnectionResetError('Connection closed before the SSL handshake was completed.')
+        
         self._wake_up_connection_made_waiter(exception)
     
     
@@ -417,13 +428,25 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
     
     @copy_docs(TransportLayerBase.close)
     def close(self):
-        if not self._closing:
-            self._closing = True
+        if self._closing:
+            return
+        
+        self._closing = True
+        
+        ssl_pipe = self._ssl_pipe
+        if (ssl_pipe is not None) and ssl_pipe.is_wrapped():
             self._write_application_data(b'')
+            return
+        
+        # There is no session to shut down yet.
+        transport = self._transport
+        if (transport is not None):
+            transport.abort()
     
     
     @copy_docs(TransportLayerBase.abort)
     def abort(self, exception = None):
+        self._closing = True
         transport = self._transport
         if (transport is not None):
             try:
-- 
2.43.0


From f809eb2c25d0bf16b3a46c5d6d3cbd6a1776ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 065/242] fix: data written to a closing ssl transport could be
 sent unencrypted

---
 scarletio/core/protocols_and_transports/ssl_transport_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 151f482..b2d08b6 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -462,7 +462,8 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
                 f'`data` can be `bytes-like`, got {type(data).__name__}; {reprlib.repr(data)}.'
             )
         
-        if data:
+        # After closing we do not have a session, we would send the data unencrypted.
+        if data and (not self._closing):
             self._write_application_data(data)
     
     
-- 
2.43.0


From 05ee94b22d785d781612afe3dcc8f70c2c7ae22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 066/242] fix: data received while a ssl transport was closing
 aborted it, losing what was not yet sent

---
 .../core/protocols_and_transports/ssl_pipe.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_pipe.py b/scarletio/core/protocols_and_transports/ssl_pipe.py
index b885875..4fd370f 100755
--- a/scarletio/core/protocols_and_transports/ssl_pipe.py
+++ b/scarletio/core/protocols_and_transports/ssl_pipe.py
@@ -1,6 +1,9 @@
 __all__ = ()
 
-from ssl import CertificateError, MemoryBIO, SSLError, SSL_ERROR_SYSCALL, SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE
+from ssl import (
+    CertificateError, MemoryBIO, SSLError, SSLWantReadError, SSLZeroReturnError, SSL_ERROR_SYSCALL,
+    SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE
+)
 
 
 SSL_PIPE_STATE_UNWRAPPED = 0
@@ -274,6 +277,9 @@ class SSLPipe:
                         break
             
             elif state == SSL_PIPE_STATE_SHUTDOWN:
+                # The other side might be still sending. Since we are closing drop it.
+                self._drop_application_data()
+                
                 # Call shutdown() until it doesn't raise anymore.
                 self._ssl_object.unwrap()
                 self._ssl_object = None
@@ -306,6 +312,17 @@ class SSLPipe:
         return ssl_data, application_data
     
     
+    def _drop_application_data(self):
+        """
+        Drops the application data which is received while we are shutting down.
+        """
+        try:
+            while self._ssl_object.read(MAX_SIZE):
+                pass
+        except (SSLWantReadError, SSLZeroReturnError):
+            pass
+    
+    
     def feed_application_data(self, data, offset):
         """
         Feed plaintext data into the pipe.
-- 
2.43.0


From fef1723b2070e650de95eb8cd4d3d33a87bd15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 067/242] fix: ssl transports closed by the other side did not
 answer with a close notify

---
 scarletio/core/protocols_and_transports/ssl_transport_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index b2d08b6..65b3079 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -401,7 +401,8 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
         """
         transport = self._transport
         if (transport is not None):
-            transport.close()
+            # Our close notify is not yet written.
+            self._loop.call_soon(transport.close)
     
     
     def __del__(self):
-- 
2.43.0


From 7a5a86094291d1b0bbaa3be0ebc4c51237aa3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 068/242] fix: the write buffer limits of ssl transports were
 taken in swapped order

---
 scarletio/core/protocols_and_transports/ssl_transport_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 65b3079..5432098 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -518,7 +518,7 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
     
     
     @copy_docs(TransportLayerBase.set_write_buffer_limits)
-    def set_write_buffer_limits(self, low = None, high = None):
+    def set_write_buffer_limits(self, high = None, low = None):
         transport = self._transport
         if (transport is not None):
             transport.set_write_buffer_limits(high, low)
-- 
2.43.0


From b1b25916bfcb049d37fc16ed02840d22731da4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 069/242] fix: a cancelled wait_closed of a server kept the
 others waiting forever

---
 scarletio/core/event_loop/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/server.py b/scarletio/core/event_loop/server.py
index db1f330..563322e 100755
--- a/scarletio/core/event_loop/server.py
+++ b/scarletio/core/event_loop/server.py
@@ -104,7 +104,7 @@ class Server:
         
         self.close_waiters = None
         for close_waiter in close_waiters:
-            close_waiter.set_result(None)
+            close_waiter.set_result_if_pending(None)
     
     
     def close(self):
-- 
2.43.0


From d665f27a7920533e45b8fa2410bdf04c49b809ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 070/242] fix: web socket servers received bytearray messages
 instead of bytes

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 13e8873..ef33d4c 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -439,7 +439,7 @@ class HttpReadProtocol(ReadProtocolBase):
         else:
             mask = await self.read_exactly(4)
             data = await self.read_exactly(length)
-            data = apply_web_socket_mask(mask, data)
+            data = bytes(apply_web_socket_mask(mask, data))
         
         return WebSocketFrame._from_fields(head_0, data)
     
-- 
2.43.0


From 8345d8a6ab55354cca51c2873fbf1f4a19821616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 071/242] fix: receiving a pong failed the web socket
 connection

---
 scarletio/web_socket/web_socket_common_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 127a3cd..5ca22a5 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -821,7 +821,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             ping_id = b''
             while ping_id != frame.data:
                 ping_id, pong_waiter = self.pings.popitem(0)
-                pong_waiter.set_resultd_if_pending(None)
+                pong_waiter.set_result_if_pending(None)
         
         return True
     
-- 
2.43.0


From 232056a283678cdaa75eb24b5f24efe477512c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 072/242] fix: web sockets could not be pinged with mutable
 data

---
 scarletio/web_socket/web_socket_common_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 5ca22a5..e9640bf 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -468,7 +468,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         if data is None:
             data = urandom(4)
         elif isinstance(data, (bytes, bytearray, memoryview)):
-            pass
+            data = bytes(data)
         elif isinstance(data, str):
             data = data.encode('utf-8')
         else:
-- 
2.43.0


From d3baf880df39a1c1558111a40ff092e5ede677c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 073/242] fix: web sockets never waited for their connection to
 be lost, and those of clients left it open

---
 .../web_socket/web_socket_common_protocol.py      | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index e9640bf..148eee1 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -626,11 +626,6 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             # connection was closed
             transfer_data_exception = ConnectionClosed(self.close_code or 1000, None, self.close_reason)
             to_reraise = None
-            
-            # If we are a client and we receive this, we closed our own
-            # connection, there is no reason to wait for TCP abort
-            if self.is_client:
-                self.connection_lost_waiter.set_result_if_pending(None)
         
         if self.transfer_data_exception is None:
             self.transfer_data_exception = transfer_data_exception
@@ -972,6 +967,10 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             for ping in self.pings.values():
                 ping.cancel()
             
+            # If we are a client and the closing handshake is done, there is no reason to wait for TCP close.
+            if self.is_client and self.close_code:
+                return
+            
             # A client should wait for a TCP close from the server.
             if self.is_client and (self.transfer_data_task is not None):
                 if (await self.wait_for_connection_lost()):
@@ -1020,7 +1019,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             Returns `True` if the connection is lost.
         """
         connection_lost_waiter = self.connection_lost_waiter
-        if not connection_lost_waiter.is_done():
+        if connection_lost_waiter.is_done():
             return True
         
         waiter = shield(connection_lost_waiter, self._loop)
@@ -1130,7 +1129,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             Returns `False` if the transport will close itself. If it returns `True`, then closing the transport is up
             to the protocol.
             
-            Returns `True` if the web socket is not secure.
+            Always returns `False`. Web sockets have their own closing handshake, so there is nothing to send after eof.
         """
         HttpReadWriteProtocol.eof_received(self)
-        return (not self.is_ssl)
+        return False
-- 
2.43.0


From 396405732b29ad91ef3ae32c33ff4c9a50797a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 074/242] fix: pinging got cancelled instead of raising when
 the web socket got closed

---
 scarletio/web_socket/web_socket_common_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 148eee1..cf2c502 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -963,9 +963,9 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 except TimeoutError:
                     pass
             
-            # Cancel all pending pings because they'll never receive a pong.
+            # Fail all pending pings because they'll never receive a pong.
             for ping in self.pings.values():
-                ping.cancel()
+                ping.set_exception_if_pending(ConnectionClosed(self.close_code or 1006, None, self.close_reason))
             
             # If we are a client and the closing handshake is done, there is no reason to wait for TCP close.
             if self.is_client and self.close_code:
-- 
2.43.0


From ff38d54a550ad325ca6ae7dfd6b9a348a58969d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 075/242] fix: a web socket ping without payload was never
 answered

---
 scarletio/web_socket/web_socket_common_protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index cf2c502..019504e 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -813,10 +813,11 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         # operation_code == OP_PONG:
         if frame.data in self.pings:
             #checking all pings up to the one matching this pong.
-            ping_id = b''
-            while ping_id != frame.data:
+            while True:
                 ping_id, pong_waiter = self.pings.popitem(0)
                 pong_waiter.set_result_if_pending(None)
+                if ping_id == frame.data:
+                    break
         
         return True
     
-- 
2.43.0


From fb3cc03dec1beffdc8ed82150e6e4c6c5bedb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 076/242] fix: a ping received by a closing web socket blocked
 its closing

---
 scarletio/web_socket/web_socket_common_protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 019504e..e945193 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -807,7 +807,9 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             return False
         
         if operation_code == WEB_SOCKET_OPERATION_PING:
-            await self.pong(frame.data)
+            # After our close frame nothing else can be sent.
+            if self.state == WEB_SOCKET_STATE_OPEN:
+                await self.pong(frame.data)
             return True
         
         # operation_code == OP_PONG:
-- 
2.43.0


From 78e2c637fa0012762c322fb49d82e3a115695ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 077/242] fix: aborting a web socket handshake raised on the
 server side instead of responding

---
 scarletio/web_socket/web_socket_server_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index ec1ed5d..bc207db 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -291,8 +291,8 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 
             else:
                 raise AbortHandshake(
-                    SERVICE_UNAVAILABLE,
                     'Server is shutting down.',
+                    SERVICE_UNAVAILABLE,
                     request = request,
                 )
             
@@ -523,7 +523,9 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 if headers is None:
                     headers = IgnoreCaseMultiValueDictionary()
                 body = err.message
-                if not body.endswith('\n'):
+                if isinstance(body, str):
+                    body = body.encode()
+                if not body.endswith(b'\n'):
                     body = body + b'\n'
             
             elif isinstance(err, InvalidOrigin):
-- 
2.43.0


From 4afa2635ed742be224c47b4253f9355487af2b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 078/242] fix: cancelling the closing of a web socket cancelled
 everyone else waiting for it, and left its pings waiting

---
 scarletio/web_socket/web_socket_common_protocol.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index e945193..f7144cd 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -389,16 +389,22 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             await write_close_frame_task
         except TimeoutError:
             self.fail_connection()
+        except CancelledError:
+            self.fail_connection()
+            raise
         
-        # if close() is cancelled during the wait, self.transfer_data_task is cancelled before the close_timeout
-        # elapses
+        # if close() is cancelled during the wait, the connection is failed before the close_timeout elapses. The task is
+        # shielded, because its cancellation would be propagated to everything else waiting for it.
         transfer_data_task = self.transfer_data_task
         if (transfer_data_task is not None):
             transfer_data_task.apply_timeout(self.close_timeout)
             try:
-                await transfer_data_task
+                await shield(transfer_data_task, self._loop)
             except TimeoutError:
                 pass
+            except CancelledError:
+                self.fail_connection()
+                raise
         
         # Quit for the close connection task to close the TCP connection.
         close_connection_task = self.close_connection_task
-- 
2.43.0


From 46e38edd2358eae77a597797d8ba7678371db3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 079/242] fix: dropping a response with pending body left a
 generator behind which could not be closed

---
 .../core/protocols_and_transports/protocol.py | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 8442b70..a235428 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -5,6 +5,7 @@ from functools import partial as partial_func
 
 from ...utils import copy_docs, to_coroutine
 
+from ..exceptions import CancelledError
 from ..traps import Future, Task, skip_ready_cycle
 
 from .abstract import AbstractProtocolBase
@@ -228,6 +229,26 @@ def _merge_intersection_sizes(intersection_sizes_0, intersection_sizes_1):
     return [*intersection_sizes_0, *intersection_sizes_1]
 
 
+def _close_payload_reader(payload_reader):
+    """
+    Closes the given payload reader.
+    
+    `GeneratorExit` is not propagated to the asynchronous generator a coroutine is iterating over, which therefore could
+    not be finalized later. So a cancellation is thrown instead.
+    
+    Parameters
+    ----------
+    payload_reader : `CoroutineType | GeneratorType`
+        The payload reader to close.
+    """
+    try:
+        payload_reader.throw(CancelledError())
+    except (CancelledError, GeneratorExit, StopIteration):
+        pass
+    else:
+        payload_reader.close()
+
+
 class ReadProtocolBase(AbstractProtocolBase):
     """
     Asynchronous read protocol implementation.
@@ -433,8 +454,9 @@ class ReadProtocolBase(AbstractProtocolBase):
         self._payload_stream = None
         payload_stream.set_done_exception(exception)
         
-        self._payload_reader.close()
+        payload_reader = self._payload_reader
         self._payload_reader = None
+        _close_payload_reader(payload_reader)
     
     
     @copy_docs(AbstractProtocolBase.eof_received)
@@ -473,7 +495,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             payload_stream.set_done_exception(exception)
         
         else:
-            payload_reader.close()
+            _close_payload_reader(payload_reader)
             new_exception = RuntimeError('Payload stream ignored eof.')
             try:
                 payload_stream.set_done_exception(new_exception)
@@ -574,7 +596,7 @@ class ReadProtocolBase(AbstractProtocolBase):
         self._payload_stream = None
         payload_stream.set_done_cancelled()
         
-        payload_reader.close()
+        _close_payload_reader(payload_reader)
     
     
     def set_payload_reader(self, payload_reader_function):
-- 
2.43.0


From 25bc5d9cb797b8bb54431a658c210f7fad78fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 080/242] fix: control frames received between fragments were
 limited by what was left of the maximal message size

---
 scarletio/web_common/http_protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index ef33d4c..7805403 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -430,7 +430,12 @@ class HttpReadProtocol(ReadProtocolBase):
             data = await self.read_exactly(8)
             length, = UNPACK_LENGTH_3(data)
         
-        if (max_size is not None) and length > max_size:
+        if head_0 & 0b00001000:
+            # Control frames are not part of the message they are received between the frames of.
+            if length > 125:
+                raise WebSocketProtocolError('Control frame too long.')
+        
+        elif (max_size is not None) and length > max_size:
             raise PayloadError(f'Payload length exceeds size limit ({length} > {max_size} bytes).')
         
         # Read the data.
-- 
2.43.0


From c7c489dc2c4c0cc6f4178bf820ea4b29ab723fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 081/242] fix: web sockets were left open when their handler
 raised

---
 scarletio/web_socket/web_socket_server_protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index bc207db..a8da4dd 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -238,6 +238,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                     ],
                     loop = self._loop,
                 )
+                self.fail_connection(1011)
                 return
             
             await self.close()
-- 
2.43.0


From 4608c834f637df9d0b8b3d81ba299f93552f9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 082/242] fix: receiving from a web socket which failed right
 after its handshake waited forever

---
 scarletio/web_socket/web_socket_common_protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index f7144cd..05b10af 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -972,6 +972,12 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 except TimeoutError:
                     pass
             
+            # If the data transfer task is ended before it could start, no one else notifies the receivers.
+            if self.transfer_data_exception is None:
+                transfer_data_exception = ConnectionClosed(self.close_code or 1006, None, self.close_reason)
+                self.transfer_data_exception = transfer_data_exception
+                self.messages.set_exception(transfer_data_exception)
+            
             # Fail all pending pings because they'll never receive a pong.
             for ping in self.pings.values():
                 ping.set_exception_if_pending(ConnectionClosed(self.close_code or 1006, None, self.close_reason))
-- 
2.43.0


From b6ac0b6a4f4f0fcb518bd919844bd9eb55d91560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 083/242] fix: frames waiting to be written were written after
 the close frame of a web socket, or raised

---
 .../web_socket/web_socket_common_protocol.py  | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 05b10af..4bc7ba2 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -132,7 +132,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         Whether the web socket protocol is client or server side.
     """
     __slots__ = (
-        '_drain_lock', 'close_code', 'close_connection_task', 'close_timeout', 'close_reason',
+        '_drain_lock', '_writing_finished', 'close_code', 'close_connection_task', 'close_timeout', 'close_reason',
         'connection_lost_waiter', 'extensions', 'host', 'is_ssl', 'max_queue', 'max_size', 'messages', 'pings', 'port',
         'state', 'subprotocol', 'transfer_data_exception', 'transfer_data_task'
     )
@@ -197,6 +197,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         self.max_queue = max_queue
         
         self._drain_lock = Lock(self._loop)
+        self._writing_finished = False
         
         self.state = WEB_SOCKET_STATE_CONNECTING
         
@@ -902,6 +903,18 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
 
         # we write only 1 frame at a time, so we 'queue' it
         async with self._drain_lock:
+            # The connection could be failed meanwhile we were waiting in the queue.
+            if self._writing_finished:
+                if operation_code == WEB_SOCKET_OPERATION_CLOSE:
+                    return
+                
+                raise ConnectionClosed(
+                    self.close_code or 1006, None, self.close_reason
+                ) from self.transfer_data_exception
+            
+            if operation_code == WEB_SOCKET_OPERATION_CLOSE:
+                self._writing_finished = True
+            
             try:
                 frame = WebSocketFrame(True, operation_code, data)
                 
@@ -950,6 +963,12 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         if self.state == WEB_SOCKET_STATE_OPEN:
             self.state = WEB_SOCKET_STATE_CLOSING
             await self.write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
+            return
+        
+        # Our close frame might be still queued.
+        if self.state == WEB_SOCKET_STATE_CLOSING:
+            async with self._drain_lock:
+                pass
     
     
     async def close_connection(self):
@@ -1081,8 +1100,11 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             # Do not cancel with `CancelledError` because then we to silence it elsewhere.
             transfer_data_task.cancel_with(TimeoutError)
         
+        writing_finished = self._writing_finished
+        self._writing_finished = True
+        
         # send a close frame when the state == WEB_SOCKET_STATE_OPEN and the connection is not broken
-        if code != 1006 and self.state == WEB_SOCKET_STATE_OPEN:
+        if code != 1006 and (not writing_finished) and self.state == WEB_SOCKET_STATE_OPEN:
             
             frame_data = self._serialize_close(code, reason)
             # Write the close frame without draining the write buffer.
-- 
2.43.0


From 96c0e9f64fa7ab48afda547fa723ba7284d15e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 084/242] fix: web socket handshakes with an other or without
 any Upgrade header were accepted or failed with IndexError

---
 scarletio/web_socket/web_socket_client.py          | 2 +-
 scarletio/web_socket/web_socket_server_protocol.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index a4678ad..e5c1be3 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -292,7 +292,7 @@ class WebSocketClient(WebSocketCommonProtocol):
                 for received_upgrade in received_upgrades:
                     upgrade.extend(parse_upgrades(received_upgrade))
             
-            if len(upgrade) != 1 and upgrade[0].lower() != 'websocket': # ignore case
+            if len(upgrade) != 1 or upgrade[0].lower() != 'websocket': # ignore case
                 raise InvalidHandshake(
                     f'Expected \'WebSocket\' for \'Upgrade\', but got {upgrade!r}.',
                     response = response,
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index a8da4dd..33fbe83 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -314,7 +314,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 for upgrade_header in upgrade_headers:
                     upgrade.extend(parse_upgrades(upgrade_header))
             
-            if len(upgrade) != 1 and upgrade[0].lower() != 'websocket': # ignore case
+            if len(upgrade) != 1 or upgrade[0].lower() != 'websocket': # ignore case
                 raise InvalidUpgrade(
                     f'Expected \'WebSocket\' for \'Upgrade\', but got {upgrade!r}.'
                 )
-- 
2.43.0


From bdfcd6390b51ada9daea69d5455a31f4f4f7072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 085/242] fix: web socket servers never checked the origin of
 the requests

---
 scarletio/web_socket/web_socket_server_protocol.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 33fbe83..c015f0c 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -190,8 +190,6 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         
         self.request = None
         self.response_headers = None
-        self.origin = None
-        
         return self
     
     
@@ -383,7 +381,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 
                 origin = origin_headers[0]
                 
-                if origin in origin:
+                if origin == self.origin:
                     break
                     
                 raise InvalidOrigin(origin)
-- 
2.43.0


From 22d8cbaeff9d3ff33b2c1deb489d6918aa6f3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 086/242] fix: web socket servers failed every handshake in
 which they accepted an extension

---
 .../web_common/header_building_and_parsing.py | 23 +++++++++++++++----
 .../web_socket/web_socket_server_protocol.py  |  4 ++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index 2b7c0f1..9f048aa 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -31,6 +31,24 @@ def build_extensions(available_extensions):
         - `encode` : `callable`. Encoder method, what processes the web socket frames to send. Should accept `1`
             parameter, the ``WebSocketFrame``.
     
+    Returns
+    -------
+    header_value : `str`
+    """
+    return build_extension_values(
+        (available_extension.name, available_extension.request_params) for available_extension in available_extensions
+    )
+
+
+def build_extension_values(extension_values):
+    """
+    Builds web socket extensions header from the given name - parameters pairs.
+    
+    Parameters
+    ----------
+    extension_values : `iterable` of `tuple` (`str`, `list` of `tuple` (`str`, `None | str`))
+        Extension name - parameters pairs.
+    
     Returns
     -------
     header_value : `str`
@@ -38,10 +56,7 @@ def build_extensions(available_extensions):
     main_parts = []
     sub_parts = []
     
-    for available_extension in available_extensions:
-        name = available_extension.name
-        parameters = available_extension.request_params
-        
+    for name, parameters in extension_values:
         sub_parts.append(name)
         for key, value in parameters:
             if value is None:
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index c015f0c..64615f7 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -9,7 +9,7 @@ from ..core import AsyncQueue, CancelledError, Future, Lock, Task, write_excepti
 from ..utils import IgnoreCaseMultiValueDictionary, is_coroutine
 from ..web_common import AbortHandshake, InvalidHandshake, InvalidOrigin, InvalidUpgrade, PayloadError
 from ..web_common.header_building_and_parsing import (
-    build_extensions, parse_connections, parse_extensions, parse_subprotocols, parse_upgrades
+    build_extension_values, parse_connections, parse_extensions, parse_subprotocols, parse_upgrades
 )
 from ..web_common.headers import (
     CONNECTION, CONTENT_LENGTH, CONTENT_TYPE, DATE, ORIGIN, SEC_WEB_SOCKET_ACCEPT, SEC_WEB_SOCKET_EXTENSIONS,
@@ -425,7 +425,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 
                 # Serialize extension header.
                 if extension_headers:
-                    extension_header = build_extensions(extension_headers)
+                    extension_header = build_extension_values(extension_headers)
                     break
                 
                 extension_header = None
-- 
2.43.0


From 24f4a5bde4cbcc131781aa6f354ea9c930b873c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 087/242] fix: web socket servers refused every client offering
 an extension unknown to them instead of declining the extension

---
 scarletio/web_socket/web_socket_server_protocol.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 64615f7..0d16ecb 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -413,12 +413,6 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                             accepted_extensions.append(extension)
                             extension_headers.append((name, parameters))
                             break
-                    else:
-                        # no matching extension
-                        raise InvalidHandshake(
-                            f'Unsupported extension: name = {name!r}, parameters = {parameters!r}.',
-                            request = request,
-                        )
                     
                     # If we didn't break from the loop, no extension in our list matched what the client sent. The
                     # extension is declined.
-- 
2.43.0


From dbb49e60bfde19bcec136e81731db633faf25d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 088/242] fix: connecting web sockets to urls with user or
 password raised AttributeError

---
 scarletio/web_socket/web_socket_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index e5c1be3..e9d25a4 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -237,7 +237,7 @@ class WebSocketClient(WebSocketCommonProtocol):
         user = url.user
         password = url.password
         if (user is not None) or (password is not None):
-            request_headers[AUTHORIZATION] = BasicAuthorization(user, password).encode()
+            request_headers[AUTHORIZATION] = BasicAuthorization(user or '', password or '').to_header()
         
         if origin is not None:
             request_headers[ORIGIN] = origin
-- 
2.43.0


From 98cdd0022a527f324ed1db28286af4d4117a7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 089/242] fix: web socket servers did not answer handshakes
 aborted by their request processor with an int code

---
 scarletio/web_socket/web_socket_server_protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 0d16ecb..5ba5ba9 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -4,6 +4,7 @@ import hashlib
 from base64 import b64decode, b64encode
 from binascii import Error as BinasciiError
 from email.utils import formatdate
+from http import HTTPStatus
 
 from ..core import AsyncQueue, CancelledError, Future, Lock, Task, write_exception_async
 from ..utils import IgnoreCaseMultiValueDictionary, is_coroutine
@@ -511,7 +512,11 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         
         except BaseException as err:
             if isinstance(err, AbortHandshake):
-                status = err.code
+                try:
+                    status = HTTPStatus(err.code)
+                except ValueError:
+                    status = INTERNAL_SERVER_ERROR
+                
                 headers = err.headers
                 if headers is None:
                     headers = IgnoreCaseMultiValueDictionary()
-- 
2.43.0


From 70e2a30e3287881f8e9ad51456c18a35254be03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 090/242] fix: web socket servers answered malformed headers of
 handshakes as if they would be their own fault

---
 .../web_socket/web_socket_server_protocol.py  | 56 +++++++++++++------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 5ba5ba9..42e9137 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -2,7 +2,6 @@ __all__ = ('WebSocketCommonProtocol',)
 
 import hashlib
 from base64 import b64decode, b64encode
-from binascii import Error as BinasciiError
 from email.utils import formatdate
 from http import HTTPStatus
 
@@ -23,6 +22,39 @@ from .web_socket_common_protocol import (
 )
 
 
+def _parse_header_values(parser, header_values, request):
+    """
+    Parses the values of a header of a handshake request.
+    
+    Parameters
+    ----------
+    parser : `callable`
+        Parser to parse each value with.
+    header_values : `None | list<str>`
+        The values of the header.
+    request : ``RawRequestMessage``
+        The received request.
+    
+    Returns
+    -------
+    parsed_values : `list`
+    
+    Raises
+    ------
+    InvalidHandshake
+        A header value is malformed.
+    """
+    parsed_values = []
+    if (header_values is not None):
+        for header_value in header_values:
+            try:
+                parsed_values.extend(parser(header_value))
+            except ValueError as exception:
+                raise InvalidHandshake(f'Malformed header: {exception!s}', request = request) from exception
+    
+    return parsed_values
+
+
 class WebSocketServerProtocol(WebSocketCommonProtocol):
     """
     Asynchronous server side web socket protocol implementation.
@@ -296,22 +328,14 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                     request = request,
                 )
             
-            connections = []
-            connection_headers = request_headers.get_all(CONNECTION)
-            if (connection_headers is not None):
-                for connection_header in connection_headers:
-                    connections.extend(parse_connections(connection_header))
+            connections = _parse_header_values(parse_connections, request_headers.get_all(CONNECTION), request)
         
             if not any(value.lower() == 'upgrade' for value in connections):
                 raise InvalidUpgrade(
                     f'Invalid connection, no upgrade found, got {connections!r}.'
                 )
             
-            upgrade = []
-            upgrade_headers = request_headers.get_all(UPGRADE)
-            if (upgrade_headers is not None):
-                for upgrade_header in upgrade_headers:
-                    upgrade.extend(parse_upgrades(upgrade_header))
+            upgrade = _parse_header_values(parse_upgrades, request_headers.get_all(UPGRADE), request)
             
             if len(upgrade) != 1 or upgrade[0].lower() != 'websocket': # ignore case
                 raise InvalidUpgrade(
@@ -335,7 +359,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         
             try:
                 raw_key = b64decode(key.encode(), validate = True)
-            except BinasciiError:
+            except ValueError:
                 raise InvalidHandshake(
                     f'Invalid {SEC_WEB_SOCKET_KEY!r}: {key!r}.',
                     request = request)
@@ -403,9 +427,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                     break
                 
                 extension_headers = []
-                parsed_extension_values = []
-                for extension_header_ in extension_headers_:
-                    parsed_extension_values.extend(parse_extensions(extension_header_))
+                parsed_extension_values = _parse_header_values(parse_extensions, extension_headers_, request)
                 
                 for name, parameters in parsed_extension_values:
                     for extension in available_extensions:
@@ -440,9 +462,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                     selected_subprotocol = None
                     break
                 
-                parsed_header_subprotocols = []
-                for protocol_header in protocol_headers:
-                    parsed_header_subprotocols.extend(parse_subprotocols(protocol_header))
+                parsed_header_subprotocols = _parse_header_values(parse_subprotocols, protocol_headers, request)
                 
                 subprotocol_selector = self.subprotocol_selector
                 if (subprotocol_selector is not None):
-- 
2.43.0


From 804b574e08e37ef671061b2344d235c3f6d53dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 091/242] fix: web socket servers accepted handshakes which are
 not http 1.1 GET requests

---
 scarletio/web_socket/web_socket_server_protocol.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 42e9137..7c707a5 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -7,12 +7,12 @@ from http import HTTPStatus
 
 from ..core import AsyncQueue, CancelledError, Future, Lock, Task, write_exception_async
 from ..utils import IgnoreCaseMultiValueDictionary, is_coroutine
-from ..web_common import AbortHandshake, InvalidHandshake, InvalidOrigin, InvalidUpgrade, PayloadError
+from ..web_common import AbortHandshake, HttpVersion11, InvalidHandshake, InvalidOrigin, InvalidUpgrade, PayloadError
 from ..web_common.header_building_and_parsing import (
     build_extension_values, parse_connections, parse_extensions, parse_subprotocols, parse_upgrades
 )
 from ..web_common.headers import (
-    CONNECTION, CONTENT_LENGTH, CONTENT_TYPE, DATE, ORIGIN, SEC_WEB_SOCKET_ACCEPT, SEC_WEB_SOCKET_EXTENSIONS,
+    CONNECTION, CONTENT_LENGTH, CONTENT_TYPE, DATE, METHOD_GET, ORIGIN, SEC_WEB_SOCKET_ACCEPT, SEC_WEB_SOCKET_EXTENSIONS,
     SEC_WEB_SOCKET_KEY, SEC_WEB_SOCKET_PROTOCOL, SEC_WEB_SOCKET_VERSION, SERVER, UPGRADE
 )
 
@@ -304,6 +304,12 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
             self.request = request = await self.read_http_request()
             
             request_headers = request.headers
+            if request.method != METHOD_GET or request.version < HttpVersion11:
+                raise InvalidHandshake(
+                    f'Expected an http 1.1 GET request, got {request.method!s} with version {request.version!r}.',
+                    request = request,
+                )
+            
             if self.server.is_serving():
                 path = request.path
                 
-- 
2.43.0


From a517b6fe36a80b61358af8b5c09200c51bd27ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 092/242] fix: connecting web sockets raised IndexError if the
 server selected an empty subprotocol

---
 scarletio/web_socket/web_socket_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index e9d25a4..9093f91 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -358,9 +358,9 @@ class WebSocketClient(WebSocketCommonProtocol):
                 for received_subprotocol in received_subprotocols:
                     parsed_subprotocol_values.extend(parse_subprotocols(received_subprotocol))
                 
-                if len(parsed_subprotocol_values) > 1:
+                if len(parsed_subprotocol_values) != 1:
                     raise InvalidHandshake(
-                        f'Multiple subprotocols: {parsed_subprotocol_values!r}.',
+                        f'Expected 1 subprotocol, got {parsed_subprotocol_values!r}.',
                         response = response,
                     )
                 
-- 
2.43.0


From ffddfaba22cd1da2a8ae6eec470804a9d73e0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 093/242] fix: web sockets of servers always told they were
 secure

---
 scarletio/web_socket/web_socket_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_server.py b/scarletio/web_socket/web_socket_server.py
index 39eb7cd..9cd2bd6 100755
--- a/scarletio/web_socket/web_socket_server.py
+++ b/scarletio/web_socket/web_socket_server.py
@@ -207,7 +207,7 @@ class WebSocketServer:
         if web_socket_keyword_parameters is None:
             web_socket_keyword_parameters = {}
         
-        is_ssl = (ssl is not None)
+        is_ssl = (ssl_context is not None)
         
         if available_extensions is None:
             available_extensions = []
-- 
2.43.0


From 586d66472d1470ec5c02fecfb3a1bc263b0add1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 094/242] fix: idle connections of the http client were never
 closed after their keep alive timeout

---
 scarletio/http_client/protocol_basket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/http_client/protocol_basket.py b/scarletio/http_client/protocol_basket.py
index 2bf922c..8443939 100755
--- a/scarletio/http_client/protocol_basket.py
+++ b/scarletio/http_client/protocol_basket.py
@@ -108,6 +108,7 @@ class ProtocolBasket(RichAttributeErrorBaseType):
             del available[index]
             
             transport = protocol.get_transport()
+            protocol.close()
             if self.connection_key.secure and (transport is not None):
                 transport.abort()
         
-- 
2.43.0


From 4ba080f69e87c063d6748a89b52aad78d15e1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 095/242] fix: http client took interim responses as the final
 ones

---
 scarletio/http_client/client_response.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 685e510..0add07a 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -184,7 +184,13 @@ class ClientResponse(RichAttributeErrorBaseType):
         """
         try:
             protocol = self.connection.protocol
-            self.raw_message = message = await protocol.read_http_response()
+            while True:
+                message = await protocol.read_http_response()
+                # Interim responses are followed by the final one.
+                if (message.status < 100) or (message.status > 199) or (message.status == 101):
+                    break
+            
+            self.raw_message = message
             
             if self.method == METHOD_CONNECT:            
                 # Do not read anything if we are doing a connect request.
-- 
2.43.0


From e26fa305710bdebfffe1678b0b56517936418dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 096/242] fix: http client reused connections already ended by
 the server

---
 scarletio/web_common/http_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 7805403..f1ef28a 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -119,7 +119,8 @@ class HttpReadProtocol(ReadProtocolBase):
         if (self._exception is not None):
             return True
         
-        if (not self._at_eof) and (self._offset or self._chunks):
+        # Either the other end will not send anything anymore or sent something without asking for it.
+        if self._at_eof or self._offset or self._chunks:
             return True
         
         return False
-- 
2.43.0


From 3d7666a4115ea6a68a4b03af176f83ecc30fb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 097/242] fix: http client ended unfinished request bodies as
 if they were whole

---
 scarletio/http_client/client_request.py  | 3 ++-
 scarletio/http_client/client_response.py | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scarletio/http_client/client_request.py b/scarletio/http_client/client_request.py
index b8ca3bd..10e2c08 100755
--- a/scarletio/http_client/client_request.py
+++ b/scarletio/http_client/client_request.py
@@ -474,9 +474,10 @@ class ClientRequest(RichAttributeErrorBaseType):
             raise
         
         except CancelledError:
-            await writer.write_eof()
+            # The body is not whole, so its end is not written.
             raise
         
+        
         except BaseException as exception:
             connection.protocol.set_exception(exception)
             raise
diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 0add07a..95a5c03 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -267,7 +267,13 @@ class ClientResponse(RichAttributeErrorBaseType):
             keep_alive = raw_message.keep_alive
         
         self.connection = None
-        connection.release(keep_alive)
+        
+        # If the request is not sent yet as a whole, its connection cannot be used for an other one.
+        write_body_task = self.write_body_task
+        if (write_body_task is not None) and (not write_body_task.is_done()):
+            connection.close()
+        else:
+            connection.release(keep_alive)
     
     
     def _notify_content(self):
@@ -487,7 +493,6 @@ class ClientResponse(RichAttributeErrorBaseType):
             return
         
         self.closed = True
-        
         self._release_connection()
         self._clean_up_writer()
     
-- 
2.43.0


From d173458d1469d478480f00a0993cf59723666505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 098/242] fix: connections of responses received in pieces were
 never reused

---
 .../core/protocols_and_transports/protocol.py | 62 +++++++++----------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index a235428..80313d3 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -515,39 +515,39 @@ class ReadProtocolBase(AbstractProtocolBase):
             chunks = self._chunks
             chunks.append(data)
         else:
-            while True:
+            # The payload stream's callbacks may release us, so we should not be reading anymore when they run.
+            payload_stream = self._payload_stream
+            self._payload_reader = None
+            self._payload_stream = None
+            
+            try:
+                payload_reader.send(data)
+            
+            except StopIteration:
+                payload_stream.set_done_success()
+            
+            except EOFError as exception:
+                new_exception = ConnectionError('Connection closed unexpectedly with EOF.')
+                new_exception.__cause__ = exception
                 try:
-                    payload_reader.send(data)
+                    payload_stream.set_done_exception(new_exception)
+                finally:
+                    new_exception = None
             
-                except StopIteration:
-                    self._payload_stream.set_done_success()
-                
-                except EOFError as exception:
-                    new_exception = ConnectionError('Connection closed unexpectedly with EOF.')
-                    new_exception.__cause__ = exception
-                    try:
-                        self._payload_stream.set_done_exception(new_exception)
-                    finally:
-                        new_exception = None
-                
-                except GeneratorExit as exception:
-                    new_exception = ConnectionError('Payload reader destroyed.')
-                    new_exception.__cause__ = exception
-                    try:
-                        self._payload_stream.set_done_exception(new_exception)
-                    finally:
-                        new_exception = None
-                
-                except BaseException as exception:
-                    self._payload_stream.set_done_exception(exception)
-                
-                else:
-                    break
-                
-                # Clean these up when an exception occurs.
-                self._payload_reader = None
-                self._payload_stream = None
-                break
+            except GeneratorExit as exception:
+                new_exception = ConnectionError('Payload reader destroyed.')
+                new_exception.__cause__ = exception
+                try:
+                    payload_stream.set_done_exception(new_exception)
+                finally:
+                    new_exception = None
+            
+            except BaseException as exception:
+                payload_stream.set_done_exception(exception)
+            
+            else:
+                self._payload_reader = payload_reader
+                self._payload_stream = payload_stream
         
         # Pause if buffer is too big
         self._pause_reading()
-- 
2.43.0


From eb411c0a9bc328028bba46895b2e27ac7e6eb1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 099/242] fix: http client raised AttributeError when there
 were too many redirects

---
 scarletio/http_client/http_client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index eb39a7e..9315912 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -251,7 +251,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     history.append(response)
                     if not redirects:
                         response.close()
-                        raise ConnectionError('Too many redirects', history[0].request_info, tuple(history))
+                        raise ConnectionError('Too many redirects', request.request_info, tuple(history))
                     
                     if (
                         (response.status == 303 and response.method != METHOD_HEAD)
@@ -279,7 +279,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
-                            history[0].request_info,
+                            request.request_info,
                             tuple(history),
                         )
                     
@@ -513,7 +513,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     history.append(response)
                     if not redirects:
                         response.close()
-                        raise ConnectionError('Too many redirects', history[0].request_info, tuple(history))
+                        raise ConnectionError('Too many redirects', request.request_info, tuple(history))
                     
                     # For 301 and 302, mimic IE behaviour, now changed in RFC.
                     if (
@@ -541,7 +541,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
-                            history[0].request_info,
+                            request.request_info,
                             tuple(history),
                         )
                     
-- 
2.43.0


From f10172532a3d427f4df45060972990db7222b1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 100/242] fix: http client could not follow relative redirects
 and encoded the already encoded ones again

---
 scarletio/http_client/http_client.py | 39 ++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index 9315912..cf15e4d 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -1,5 +1,6 @@
 __all__ = ('HTTPClient', )
 
+from urllib.parse import quote, urljoin, urlsplit
 from warnings import warn
 
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
@@ -19,6 +20,32 @@ from .request_context_manager import RequestContextManager
 from .web_socket_context_manager import WebSocketContextManager
 
 
+def _resolve_redirect_url(url, location):
+    """
+    Resolves where a response redirects to.
+    
+    Parameters
+    ----------
+    url : ``URL``
+        The requested url.
+    location : `str`
+        Received location. Can be relative to the requested url.
+    
+    Returns
+    -------
+    redirect_url : ``URL``
+    
+    Raises
+    ------
+    ValueError
+        - If the location is not an url.
+    """
+    # The location should be already encoded, so encode only what could not be within an url.
+    location = quote(location.strip(), safe = '!#$%&\'()*+,/:;=?@[]~', errors = 'surrogateescape')
+    location = urlsplit(urljoin(url.value_encoded, location)).geturl()
+    return URL(location, True)
+
+
 @export
 class HTTPClient(RichAttributeErrorBaseType):
     """
@@ -272,10 +299,10 @@ class HTTPClient(RichAttributeErrorBaseType):
                     
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
+                    redirect_url = _resolve_redirect_url(url, redirect_url)
                     
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
+                    if scheme not in ('http', 'https'):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
@@ -283,8 +310,6 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
                     
                     if url.origin() != redirect_url.origin():
                         try:
@@ -534,10 +559,10 @@ class HTTPClient(RichAttributeErrorBaseType):
                     
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
+                    redirect_url = _resolve_redirect_url(url, redirect_url)
                     
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
+                    if scheme not in ('http', 'https'):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
@@ -545,8 +570,6 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
                     
                     url = redirect_url
                     query = None
-- 
2.43.0


From f488a4976c5cf7046ce620141d698aed2132b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 101/242] fix: http client could not connect to ip v6 addresses

---
 scarletio/http_client/connector_tcp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index a2371d3..7c18979 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -239,6 +239,10 @@ class ConnectorTCP(ConnectorBase):
         
         # If host is an ip return
         if url.is_host_ip():
+            # ip v6 addresses are bracketed within urls.
+            if host.startswith('[') and host.endswith(']'):
+                host = host[1 : -1]
+            
             yield HostInfo.from_ip(host, port, self.family)
             return
         
-- 
2.43.0


From 7447e5c1977bfc046817e8d265d71fa827fd5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 102/242] fix: redirects of http client leaked host,
 credentials and cookies to other origins

---
 scarletio/http_client/http_client.py | 68 ++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index cf15e4d..3a6fa39 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -4,9 +4,9 @@ from urllib.parse import quote, urljoin, urlsplit
 from warnings import warn
 
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
-from ..web_common import CookieJar, URL
+from ..web_common import BasicAuthorization, CookieJar, URL
 from ..web_common.headers import (
-    AUTHORIZATION, CONTENT_LENGTH, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS, METHOD_PATCH,
+    AUTHORIZATION, CONTENT_LENGTH, COOKIE, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS, METHOD_PATCH,
     METHOD_POST, METHOD_PUT, URI
 )
 from ..web_common.helpers import Timeout, set_tcp_nodelay
@@ -46,6 +46,31 @@ def _resolve_redirect_url(url, location):
     return URL(location, True)
 
 
+def _has_same_origin(url, other_url):
+    """
+    Returns whether the two urls has the same origin. Credentials for one origin should not be sent to an other one.
+    
+    Parameters
+    ----------
+    url : ``URL``
+        Url to compare.
+    other_url : ``URL``
+        Url to compare with.
+    
+    Returns
+    -------
+    has_same_origin : `bool`
+    """
+    if (url.raw_host is None) or (other_url.raw_host is None):
+        return False
+    
+    return (
+        (url.scheme == other_url.scheme) and
+        (url.raw_host.casefold() == other_url.raw_host.casefold()) and
+        (url.port == other_url.port)
+    )
+
+
 @export
 class HTTPClient(RichAttributeErrorBaseType):
     """
@@ -239,6 +264,7 @@ class HTTPClient(RichAttributeErrorBaseType):
         
         headers = IgnoreCaseMultiValueDictionary(headers)
         
+        authorization = None
         history = []
         url = URL(url)
         
@@ -246,15 +272,20 @@ class HTTPClient(RichAttributeErrorBaseType):
             while True:
                 cookies = self.cookie_jar.filter_cookies(url)
                 
+                # Keep the authorization of the url for redirects with same origin.
+                if (authorization is None) and url.user:
+                    authorization = BasicAuthorization(url.user, url.password or '')
+                
+                # The request modifies its headers, so give it an own copy.
                 request = ClientRequest(
                     self.loop,
                     method,
                     url,
-                    headers,
+                    headers.copy(),
                     data,
                     query,
                     cookies,
-                    None,
+                    authorization,
                     None,
                     self.proxy,
                     None,
@@ -311,11 +342,14 @@ class HTTPClient(RichAttributeErrorBaseType):
                         )
                     
                     
-                    if url.origin() != redirect_url.origin():
-                        try:
-                            del headers[AUTHORIZATION]
-                        except KeyError:
-                            pass
+                    if not _has_same_origin(url, redirect_url):
+                        authorization = None
+                        
+                        for header_name in (AUTHORIZATION, COOKIE):
+                            try:
+                                del headers[header_name]
+                            except KeyError:
+                                pass
                     
                     url = redirect_url
                     query = None
@@ -506,11 +540,16 @@ class HTTPClient(RichAttributeErrorBaseType):
             while True:
                 cookies = self.cookie_jar.filter_cookies(url)
                 
+                # Keep the authorization of the url for redirects with same origin.
+                if (authorization is None) and url.user:
+                    authorization = BasicAuthorization(url.user, url.password or '')
+                
+                # The request modifies its headers, so give it an own copy.
                 request = ClientRequest(
                     self.loop,
                     method,
                     url,
-                    headers,
+                    headers.copy(),
                     data,
                     query,
                     cookies,
@@ -571,6 +610,15 @@ class HTTPClient(RichAttributeErrorBaseType):
                         )
                     
                     
+                    if not _has_same_origin(url, redirect_url):
+                        authorization = None
+                        
+                        for header_name in (AUTHORIZATION, COOKIE):
+                            try:
+                                del headers[header_name]
+                            except KeyError:
+                                pass
+                    
                     url = redirect_url
                     query = None
                     continue
-- 
2.43.0


From 33295b09081e6507f67e5e108e1bd19bb940f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 103/242] fix: encoded slashes within url paths were decoded

---
 scarletio/web_common/url/url_path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_path.py b/scarletio/web_common/url/url_path.py
index 36ac192..ce0a610 100755
--- a/scarletio/web_common/url/url_path.py
+++ b/scarletio/web_common/url/url_path.py
@@ -138,7 +138,8 @@ class URLPath(URLPartBaseParsed):
             else:
                 for part in value:
                     if encoded:
-                        part = encode(part)
+                        # Parts are separated by slashes, so those which are within a part have to stay encoded.
+                        part = encode(part).replace('/', '%2F')
                 
                     built.append('/')
                     built.append(part)
-- 
2.43.0


From 38018f7f708a291944193ca0421d2bdb37affa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 104/242] fix: http client sent two authorization headers if an
 url had credentials too

---
 scarletio/http_client/client_request.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_request.py b/scarletio/http_client/client_request.py
index 10e2c08..4677b4f 100755
--- a/scarletio/http_client/client_request.py
+++ b/scarletio/http_client/client_request.py
@@ -172,7 +172,13 @@ class ClientRequest(RichAttributeErrorBaseType):
         # Store authorization in headers is applicable.
         # Use `proxy_authorization` header if we are doing a connect request. 
         if (authorization is not None):
-            headers[PROXY_AUTHORIZATION if method == METHOD_CONNECT else AUTHORIZATION] = authorization.to_header()
+            authorization_header_name = PROXY_AUTHORIZATION if method == METHOD_CONNECT else AUTHORIZATION
+            try:
+                del headers[authorization_header_name]
+            except KeyError:
+                pass
+            
+            headers[authorization_header_name] = authorization.to_header()
         
         # Add default headers. Except if we are making a connect request.
         if (method != METHOD_CONNECT):
-- 
2.43.0


From 7d574e37fa0585a0d80332028e62789bef658595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 105/242] fix: cookie dates were misread and invalid ones
 raised

---
 scarletio/web_common/cookiejar.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 1f7c1fd..6016a3a 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -15,9 +15,9 @@ from .url import URL
 DATE_TOKENS_RP = re.compile(
     '[\x09\x20-\x2F\x3B-\x40\x5B-\x60\x7B-\x7E]*(?P<token>[\x00-\x08\x0A-\x1F\\d:a-zA-Z\x7F-\xFF]+)'
 )
-DATE_HMS_TIME_RP = re.compile('(\\d{1,2}):(\\d{1,2}):(\\d{1,2})')
-DATE_DAY_OF_MONTH_RP = re.compile('\\d{1,2}')
-DATE_YEAR_RP = re.compile('\\d{2,4}')
+DATE_HMS_TIME_RP = re.compile('(\\d{1,2}):(\\d{1,2}):(\\d{1,2})(?!\\d)')
+DATE_DAY_OF_MONTH_RP = re.compile('\\d{1,2}(?!\\d)')
+DATE_YEAR_RP = re.compile('\\d{2,4}(?!\\d)')
 MAX_TIME = 2051215261.0 # (2035-01-01)
 
 MONTHS = {
@@ -77,7 +77,7 @@ def parse_cookie_date(date_str):
         
         if not found_month:
             try:
-                month = MONTHS[token.lower()]
+                month = MONTHS[token[:3].lower()]
             except KeyError:
                 pass
             else:
@@ -99,7 +99,11 @@ def parse_cookie_date(date_str):
             or (day > 31) or (hour > 23) or (minute > 59) or (second > 59):
         return None
     
-    return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    try:
+        return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    except ValueError:
+        # The month has no such day.
+        return None
 
 
 def do_domains_match(domain, host_name):
-- 
2.43.0


From 1f13d95b074ec8da146a0372534a6a0835e6d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 106/242] fix: cookies did not expire when they should have

---
 scarletio/web_common/cookiejar.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 6016a3a..ba5b712 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -249,6 +249,8 @@ class CookieJar:
     
     def __len__(self):
         """Returns the length of the cookie-jar."""
+        self._do_expiration()
+        
         length = 0
         for cookie in self.cookies.values():
             length += len(cookie)
@@ -272,7 +274,7 @@ class CookieJar:
         cookies = self.cookies
         
         for key, when in expirations.items():
-            if when < now:
+            if when <= now:
                 cookies[key[0]].pop(key[1], None)
                 to_del.append(key)
                 self.host_only_cookies.discard(key)
@@ -282,7 +284,7 @@ class CookieJar:
         for key in to_del:
             del expirations[key]
         
-        self.next_expiration = ceil(next_expiration)
+        self.next_expiration = next_expiration
     
     def _expire_cookie(self, when, domain, name):
         """
@@ -290,8 +292,8 @@ class CookieJar:
         
         Parameters
         ----------
-        when : `int`
-            Posix timestamp of the cookie's expiration.
+        when : `float`
+            The cookie's expiration in monotonic time.
         domain : `str`
             The cookie's domain.
         name : `str`
@@ -356,22 +358,29 @@ class CookieJar:
                 
                 cookie['path'] = path
             
+            # The cookie we are overwriting may have an expiration.
+            self.expirations.pop((domain, name), None)
+            
             max_age = cookie['max-age']
             if max_age:
                 try:
                     delta_seconds = int(max_age)
-                    self._expire_cookie(LOOP_TIME() + delta_seconds, domain, name)
                 except ValueError:
-                    cookie['max-age'] = ''
+                    cookie['max-age'] = max_age = ''
+                else:
+                    self._expire_cookie(LOOP_TIME() + min(max(delta_seconds, 0), MAX_TIME), domain, name)
             
-            else:
+            if not max_age:
                 expires = cookie['expires']
                 if (expires is not None):
                     expire_time = parse_cookie_date(expires)
                     if expire_time is None:
                         cookie['expires'] = ''
                     else:
-                        self._expire_cookie(expire_time.timestamp(), domain, name)
+                        # Expirations are compared to loop time.
+                        delta_seconds = (expire_time - DateTime.now(TimeZone.utc)).total_seconds()
+                        self._expire_cookie(LOOP_TIME() + delta_seconds, domain, name)
+            
             
             self.cookies[domain][name] = cookie
         
-- 
2.43.0


From 74196e9d1f2f0483deb46047d743da70326f5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 107/242] fix: cookies were not matched to host names in an
 other case and were accepted from ip v6 addresses

---
 scarletio/web_common/cookiejar.py | 32 ++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index ba5b712..5ca2c21 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -172,6 +172,29 @@ def do_paths_match(request_path, cookie_path):
     return False
 
 
+def _get_host_name(url):
+    """
+    Gets the host name of the url in the format as it is used by cookies.
+    
+    Parameters
+    ----------
+    url : ``URL``
+        The url to get its host name of.
+    
+    Returns
+    -------
+    host_name : `None | str`
+    """
+    host_name = url.raw_host
+    if (host_name is not None):
+        host_name = host_name.lower()
+        # ip v6 addresses are bracketed within urls.
+        if host_name.startswith('[') and host_name.endswith(']'):
+            host_name = host_name[1 : -1]
+    
+    return host_name
+
+
 class CookieJar:
     """
     Implements cookie storage adhering to RFC 6265.
@@ -313,7 +336,7 @@ class CookieJar:
         response_url : ``URL`` = `URL()`, Optional
             Respective response's url.
         """
-        host_name = response_url.raw_host
+        host_name = _get_host_name(response_url)
         
         if (not self.unsafe) and is_ip_address(host_name):
             # Don't accept cookies from IPs
@@ -325,7 +348,10 @@ class CookieJar:
                 temporary[name] = cookie
                 cookie = temporary[name]
             
-            domain = cookie['domain']
+            # Do not modify the cookie of the response.
+            cookie = cookie.copy()
+            domain = cookie['domain'].lower()
+            cookie['domain'] = domain
             
             # ignore domains with trailing dots
             if domain.endswith('.'):
@@ -403,7 +429,7 @@ class CookieJar:
         self._do_expiration()
         
         filtered = SimpleCookie()
-        host_name = request_url.raw_host
+        host_name = _get_host_name(request_url)
         if host_name is None:
             host_name = ''
         
-- 
2.43.0


From 35339034dd7b96c7aa47c7b7f5b7d4e465f16e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 108/242] fix: cookies kept the host-only flag of the
 overwritten ones and paths were matched decoded

---
 scarletio/web_common/cookiejar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 5ca2c21..53df0bb 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -358,9 +358,10 @@ class CookieJar:
                 domain = ''
                 del cookie['domain']
             
+            host_only = False
             if not domain and host_name is not None:
                 # Set the cookie's domain to the response host_name and set its host-only-flag
-                self.host_only_cookies.add((host_name, name))
+                host_only = True
                 domain = cookie['domain'] = host_name
             
             if domain.startswith('.'):
@@ -375,7 +376,7 @@ class CookieJar:
             path = cookie['path']
             if not path or not path.startswith('/'):
                 # Set the cookie's path to the response path
-                path = response_url.path
+                path = response_url.raw_path
                 if path.startswith('/'):
                     # Cut everything from the last slash to the end
                     path = f'/{path[1:path.rfind("/")]}'
@@ -384,8 +385,12 @@ class CookieJar:
                 
                 cookie['path'] = path
             
-            # The cookie we are overwriting may have an expiration.
+            # The cookie we are overwriting may have an expiration and different host-only-flag.
             self.expirations.pop((domain, name), None)
+            if host_only:
+                self.host_only_cookies.add((domain, name))
+            else:
+                self.host_only_cookies.discard((domain, name))
             
             max_age = cookie['max-age']
             if max_age:
@@ -454,7 +459,7 @@ class CookieJar:
             elif not do_domains_match(domain, host_name):
                 continue
             
-            if not do_paths_match(request_url.path, cookie['path']):
+            if not do_paths_match(request_url.raw_path, cookie['path']):
                 continue
             
             if is_not_secure and cookie['secure']:
-- 
2.43.0


From 86e6b6a4ed3eb48045028f8ef9f1edb7d656bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 109/242] fix: cookies overwrote the ones with same name but
 different path

---
 scarletio/web_common/cookiejar.py | 59 +++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 53df0bb..8b59a74 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -172,6 +172,22 @@ def do_paths_match(request_path, cookie_path):
     return False
 
 
+def _get_cookie_path_length(cookie):
+    """
+    Gets the length of the cookie's path. Used as a sort key.
+    
+    Parameters
+    ----------
+    cookie : `http.cookies.Morsel`
+        The cookie to get its path's length of.
+    
+    Returns
+    -------
+    length : `int`
+    """
+    return len(cookie['path'])
+
+
 def _get_host_name(url):
     """
     Gets the host name of the url in the format as it is used by cookies.
@@ -201,12 +217,12 @@ class CookieJar:
     
     Attributes
     ----------
-    cookies : `collections.defaultdict` of (`str`, `http.cookies.SimpleCookie`) items
-        Dictionary containing the stored cookies.
-    expirations : `dict` of (`tuple` (`str`, `str`), `float`) item
-        Cookie expirations. The keys are a domain, name pairs, meanwhile the values are their expirations.
-    host_only_cookies : `set` of `tuple` (`str`, `str`)
-        Reference of hosts only cookies in tuples as `host-name`, `host` pairs.
+    cookies : `collections.defaultdict` of (`tuple` (`str`, `str`), `http.cookies.SimpleCookie`) items
+        Dictionary containing the stored cookies. The keys are domain, path pairs.
+    expirations : `dict` of (`tuple` (`str`, `str`, `str`), `float`) item
+        Cookie expirations. The keys are domain, path, name tuples, meanwhile the values are their expirations.
+    host_only_cookies : `set` of `tuple` (`str`, `str`, `str`)
+        Reference of hosts only cookies in tuples as domain, path, name.
     next_expiration : `float`
         The next expiration's monotonic time.
     unsafe : `bool`
@@ -298,7 +314,8 @@ class CookieJar:
         
         for key, when in expirations.items():
             if when <= now:
-                cookies[key[0]].pop(key[1], None)
+                domain, path, name = key
+                cookies[domain, path].pop(name, None)
                 to_del.append(key)
                 self.host_only_cookies.discard(key)
             else:
@@ -309,9 +326,9 @@ class CookieJar:
         
         self.next_expiration = next_expiration
     
-    def _expire_cookie(self, when, domain, name):
+    def _expire_cookie(self, when, domain, path, name):
         """
-        Sets the expiration of the cookie jar and of the given `domain`, `name` relation.
+        Sets the expiration of the cookie jar and of the given `domain`, `path`, `name` relation.
         
         Parameters
         ----------
@@ -319,11 +336,13 @@ class CookieJar:
             The cookie's expiration in monotonic time.
         domain : `str`
             The cookie's domain.
+        path : `str`
+            The cookie's path.
         name : `str`
             The cookie's name.
         """
         self.next_expiration = min(self.next_expiration, when)
-        self.expirations[(domain, name)] = when
+        self.expirations[(domain, path, name)] = when
     
     def update_cookies(self, cookies, response_url = URL()):
         """
@@ -386,11 +405,11 @@ class CookieJar:
                 cookie['path'] = path
             
             # The cookie we are overwriting may have an expiration and different host-only-flag.
-            self.expirations.pop((domain, name), None)
+            self.expirations.pop((domain, path, name), None)
             if host_only:
-                self.host_only_cookies.add((domain, name))
+                self.host_only_cookies.add((domain, path, name))
             else:
-                self.host_only_cookies.discard((domain, name))
+                self.host_only_cookies.discard((domain, path, name))
             
             max_age = cookie['max-age']
             if max_age:
@@ -399,7 +418,7 @@ class CookieJar:
                 except ValueError:
                     cookie['max-age'] = max_age = ''
                 else:
-                    self._expire_cookie(LOOP_TIME() + min(max(delta_seconds, 0), MAX_TIME), domain, name)
+                    self._expire_cookie(LOOP_TIME() + min(max(delta_seconds, 0), MAX_TIME), domain, path, name)
             
             if not max_age:
                 expires = cookie['expires']
@@ -410,10 +429,10 @@ class CookieJar:
                     else:
                         # Expirations are compared to loop time.
                         delta_seconds = (expire_time - DateTime.now(TimeZone.utc)).total_seconds()
-                        self._expire_cookie(LOOP_TIME() + delta_seconds, domain, name)
+                        self._expire_cookie(LOOP_TIME() + delta_seconds, domain, path, name)
             
             
-            self.cookies[domain][name] = cookie
+            self.cookies[domain, path][name] = cookie
         
         self._do_expiration()
     
@@ -440,9 +459,11 @@ class CookieJar:
         
         is_not_secure = (request_url.scheme not in ('https', 'wss'))
         
-        for cookie in self:
+        # The ones with more specific path should overwrite the others.
+        for cookie in sorted(self, key = _get_cookie_path_length):
             name = cookie.key
             domain = cookie['domain']
+            path = cookie['path']
             
             # Send shared cookies
             if not domain:
@@ -452,14 +473,14 @@ class CookieJar:
             if not self.unsafe and is_ip_address(host_name):
                 continue
             
-            if (domain, name) in self.host_only_cookies:
+            if (domain, path, name) in self.host_only_cookies:
                 if domain != host_name:
                     continue
             
             elif not do_domains_match(domain, host_name):
                 continue
             
-            if not do_paths_match(request_url.raw_path, cookie['path']):
+            if not do_paths_match(request_url.raw_path, path):
                 continue
             
             if is_not_secure and cookie['secure']:
-- 
2.43.0


From 51b1363daafff0b06b8bd7fd6dccc65249ef365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 110/242] fix: pickled cookie jars lost the host-only flags and
 expirations of cookies

---
 scarletio/web_common/cookiejar.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 8b59a74..298686d 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -246,13 +246,20 @@ class CookieJar:
         self.expirations = {}
     
     def __getstate__(self):
-        return (list(self.cookies.values()), self.host_only_cookies, self.unsafe)
+        self._do_expiration()
+        
+        # Monotonic time is different in an other process, so save how much time the cookies have left at which time.
+        now = LOOP_TIME()
+        expirations = {key: when - now for key, when in self.expirations.items()}
+        return (
+            list(self.cookies.values()), self.host_only_cookies, self.unsafe, expirations, DateTime.now(TimeZone.utc)
+        )
     
     def __setstate__(self, state):
-        cookies, host_only_cookies, unsafe = state
+        cookies, host_only_cookies, unsafe, expirations, saved_at = state
         
         self.cookies = defaultdict(SimpleCookie)
-        self.host_only_cookies = host_only_cookies
+        self.host_only_cookies = set()
         self.unsafe = False
         self.next_expiration = 0.0
         self.expirations = {}
@@ -260,6 +267,10 @@ class CookieJar:
         for cookie in cookies:
             self.update_cookies(cookie)
         
+        now = LOOP_TIME() - (DateTime.now(TimeZone.utc) - saved_at).total_seconds()
+        self.expirations = {key: now + left for key, left in expirations.items()}
+        self.next_expiration = 0.0
+        self.host_only_cookies = host_only_cookies.copy()
         self.unsafe = unsafe
         self._do_expiration()
     
-- 
2.43.0


From 376d692dcb08be30057b94d384b9c8e4cc2342a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 111/242] fix: cookies with domain ending with dot could make
 filtering of cookies raise

---
 scarletio/web_common/cookiejar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 298686d..c0206f0 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -386,7 +386,7 @@ class CookieJar:
             # ignore domains with trailing dots
             if domain.endswith('.'):
                 domain = ''
-                del cookie['domain']
+                cookie['domain'] = ''
             
             host_only = False
             if not domain and host_name is not None:
-- 
2.43.0


From 5ed8015c1e5762ea443b3409a9e69eac713756d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 112/242] fix: cookies of responses kept the attributes of
 earlier ones with the same name

---
 scarletio/http_client/client_response.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 95a5c03..2254dfa 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -216,10 +216,13 @@ class ClientResponse(RichAttributeErrorBaseType):
             headers = message.headers
             if (headers is not None):
                 for header in headers.get_all(SET_COOKIE, ()):
+                    # Attributes of an earlier cookie with the same name must not be kept.
+                    cookies = SimpleCookie()
                     try:
-                        self.cookies.load(header)
+                        cookies.load(header)
                     except CookieError: # so sad
                         pass
+                    self.cookies.update(cookies)
         except:
             self.close()
             raise
-- 
2.43.0


From b849dfafa82e6c201a574371fbd951b045a52d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 113/242] fix: dns messages with compression loop were parsed
 forever

---
 scarletio/dns_query/building_and_parsing.py | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index a9bfb29..d713b4b 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -111,7 +111,9 @@ def _parse_labels(data, index):
     """
     labels = None
     data_length = len(data)
-    furthest_index = index
+    # Where the labels end at their original place. Nothing after the first jump can be counted in.
+    end_index = -1
+    start_index = index
     
     while True:
         # Bound check index
@@ -125,7 +127,6 @@ def _parse_labels(data, index):
         
         label_length = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
         if label_length == 0:
             response_parsing_error = None
             break
@@ -170,17 +171,21 @@ def _parse_labels(data, index):
         
         addition = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
-        index = ((label_length & 0x3f) << 8) | addition
+        if end_index == -1:
+            end_index = index
         
-        # Only backwards jumps are allowed.
-        if index > furthest_index:
+        jump_to = ((label_length & 0x3f) << 8) | addition
+        
+        # Only backwards jumps are allowed. Jumping into what we just read would never end.
+        if jump_to >= start_index:
             response_parsing_error =  ResponseParsingError(
                 RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
                 data,
-                (furthest_index, index),
+                (index, jump_to),
             )
             break
+        
+        start_index = index = jump_to
     
     if (response_parsing_error is not None):
         return (None, response_parsing_error)
@@ -188,7 +193,10 @@ def _parse_labels(data, index):
     if (labels is not None):
         labels = tuple(labels)
     
-    return (labels, furthest_index), None
+    if end_index == -1:
+        end_index = index
+    
+    return (labels, end_index), None
 
 
 def _parse_questions(data, index, count):
-- 
2.43.0


From 0fa86aba4d4ca6c329d43342bb74d0c87dc37de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 114/242] fix: building dns name from labels which are not
 valid internationalized ones raised

---
 scarletio/dns_query/helpers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 82fd3f5..8018399 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -189,7 +189,14 @@ def build_name_from_labels(labels):
         if index:
             characters.append('.')
         
-        for character in labels[index].decode('idna'):
+        label = labels[index]
+        try:
+            label_value = label.decode('idna')
+        except UnicodeError:
+            # Not a valid internationalized label, labels can contain anything. Show it as is.
+            label_value = label.decode('latin-1')
+        
+        for character in label_value:
             if character in ('.', '\\', ';', '@', '$', '(', ')', '"'):
                 characters.append('\\')
                 characters.append(character)
-- 
2.43.0


From 949761e356a31ebfdcc91d0ad2f72155413d4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 115/242] fix: compressed names pointed by dns records could
 not be parsed

---
 scarletio/dns_query/building_and_parsing.py | 37 ++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index d713b4b..1430e07 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -2,7 +2,8 @@ __all__ = ()
 
 from .constants import (
     DATA_VERIFICATION_DESIRED_SHIFT, DATA_VERIFIED_SHIFT, OPERATION_CODE_QUERY_STANDARD, OPERATION_CODE_SHIFT,
-    RECURSION_AVAILABLE_SHIFT, RECURSION_DESIRED_SHIFT, RESPONSE_CODE_MASK, RESPONSE_CODE_SHIFT,
+    RECURSION_AVAILABLE_SHIFT, RECURSION_DESIRED_SHIFT, RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER, RESPONSE_CODE_MASK,
+    RESPONSE_CODE_SHIFT,
     RESPONSE_PARSING_ERROR_CODE_HEADER_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
     RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_READ_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_LENGTH_INVALID_RANGE,
     RESPONSE_PARSING_ERROR_CODE_LABEL_LENGTH_READ_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_READ_END_OUT_OF_BOUND,
@@ -86,6 +87,31 @@ def build_query_data(query, resolve_configuration):
     return b''.join(parts)
 
 
+def _build_labels(labels):
+    """
+    Builds labels. Does not use compression.
+    
+    Parameters
+    ----------
+    labels : `None | tuple<bytes>`
+        Labels to build.
+    
+    Returns
+    -------
+    data : `bytes`
+    """
+    parts = []
+    
+    if (labels is not None):
+        for label in labels:
+            parts.append(len(label).to_bytes(1, 'big'))
+            parts.append(label)
+    
+    parts.append(b'\x00')
+    
+    return b''.join(parts)
+
+
 def _parse_labels(data, index):
     """
     Parses labels from the given data.
@@ -328,6 +354,13 @@ def _parse_resource_records(data, index, count):
                 break
             
             record_data = data[index : end]
+            
+            # Names within the data can be compressed as well, these cannot be resolved later without the whole data.
+            if resource_record_type == RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER:
+                pointed_labels_and_index, pointed_labels_parsing_error = _parse_labels(data, index)
+                if (pointed_labels_parsing_error is None) and (pointed_labels_and_index[1] == end):
+                    record_data = _build_labels(pointed_labels_and_index[0])
+            
             index = end
         
         if resource_records is None:
@@ -490,6 +523,8 @@ def parse_domain_name_pointer_data(data):
         return None
     
     labels_and_furthest_index, response_parsing_error = _parse_labels(data, 0)
+    if (response_parsing_error is not None):
+        return None
     
     labels, furthest_index = labels_and_furthest_index
     if labels is None:
-- 
2.43.0


From 213e3d5f4f860649b30bbc741b66d8fe5a6d8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 116/242] fix: ip v6 addresses with upper case digits or ip v4
 ending were not recognised

---
 scarletio/dns_query/helpers.py | 36 +++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 8018399..6c1b697 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -248,6 +248,30 @@ def parse_ip_v4_string(ip_string):
     return matched, ip_value
 
 
+def _normalize_ip_v6_address_string(address_string):
+    """
+    Normalizes an ip v6 address. They are not case sensitive and their last 4 bytes can be also given as an ip v4 address.
+    
+    Parameters
+    ----------
+    address_string : `str`
+        Ip v6 address to normalize (without scope).
+    
+    Returns
+    -------
+    address_string : `str`
+    """
+    address_string = address_string.lower()
+    
+    start, colon, end = address_string.rpartition(':')
+    if colon and ('.' in end):
+        matched, ip_value = parse_ip_v4_string(end)
+        if matched:
+            address_string = f'{start}:{ip_value >> 16:x}:{ip_value & 0xffff:x}'
+    
+    return address_string
+
+
 def parse_ip_v6_string(ip_string):
     """
     Parses an ip v6 address.
@@ -271,11 +295,13 @@ def parse_ip_v6_string(ip_string):
         else:
             end_position = percentage_index
         
-        if ip_string == IP_V6_COLON_ONLY:
+        address_string = _normalize_ip_v6_address_string(ip_string[: end_position])
+        
+        if address_string == IP_V6_COLON_ONLY:
             matched = True
             break
         
-        match = IP_V6_RP.fullmatch(ip_string, 0, end_position)
+        match = IP_V6_RP.fullmatch(address_string)
         if (match is not None):
             for value, shift in zip(match.groups(), range(112, -16, -16)):
                 ip_value |= int(value, 16) << shift
@@ -283,7 +309,7 @@ def parse_ip_v6_string(ip_string):
             matched = True
             break
         
-        match = IP_V6_RP_WITH_COLON_AT_START.fullmatch(ip_string, 0, end_position)
+        match = IP_V6_RP_WITH_COLON_AT_START.fullmatch(address_string)
         if (match is not None):
             for value, shift in zip(match.groups(), range(112 - 16, -16, -16)):
                 if value is None:
@@ -293,7 +319,7 @@ def parse_ip_v6_string(ip_string):
                 matched = True
             break
         
-        match = IP_V6_WITH_COLON_AT_END.fullmatch(ip_string, 0, end_position)
+        match = IP_V6_WITH_COLON_AT_END.fullmatch(address_string)
         if (match is not None):
             for value, shift in zip(match.groups(), range(112, 16 - 16, -16)):
                 if value is None:
@@ -303,7 +329,7 @@ def parse_ip_v6_string(ip_string):
                 matched = True
             break
         
-        match = IP_V6_WITH_COLON_IN_MIDDLE.fullmatch(ip_string, 0, end_position)
+        match = IP_V6_WITH_COLON_IN_MIDDLE.fullmatch(address_string)
         if (match is not None):
             element_count = 0
             for value, shift in zip(match.groups(), chain(range(112, 32 - 16, -16), range(112 - 32, -16, -16))):
-- 
2.43.0


From 4c5940b3d7df0b6d7ab9bfa784595f5eaea3bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 117/242] fix: resolve configuration ignored multiple options
 within a line and raised on invalid searches

---
 scarletio/dns_query/resolve_configuration.py | 190 ++++++++++---------
 1 file changed, 99 insertions(+), 91 deletions(-)

diff --git a/scarletio/dns_query/resolve_configuration.py b/scarletio/dns_query/resolve_configuration.py
index ca5f1c0..7eba479 100755
--- a/scarletio/dns_query/resolve_configuration.py
+++ b/scarletio/dns_query/resolve_configuration.py
@@ -608,7 +608,12 @@ def update_resolve_configuration_from_file_content(resolve_configuration, conten
         if key == 'search':
             searches_mentioned = True
             for index in range(1, len(split)):
-                search = parse_labels_from_name(split[index])
+                try:
+                    search = parse_labels_from_name(split[index])
+                except ValueError:
+                    # Ignore the invalid ones.
+                    continue
+                
                 if (search is None):
                     continue
                 
@@ -637,102 +642,105 @@ def update_resolve_configuration_from_file_content(resolve_configuration, conten
         if key != 'options':
             continue
         
-        option_name = split[1]
-        if option_name == 'debug':
-            resolve_configuration.option_debug = True
-            continue
-        
-        if option_name == 'rotate':
-            resolve_configuration.option_rotate = True
-            continue
-        
-        if option_name == 'no-aaaa':
-            resolve_configuration.option_no_ip_v6_lookups = True
-            continue
-        
-        if option_name == 'no-check-names':
-            resolve_configuration.option_disable_bind_checking = True
-            continue
-        
-        if option_name == 'inet6':
-            resolve_configuration.option_prefer_ip_v6 = True
-            continue
-        
-        if option_name == 'edns0':
-            resolve_configuration.option_enable_dns_extension = True
-            continue
-        
-        if option_name == 'single-request':
-            resolve_configuration.option_limit_to_single_request = True
-            continue
-        
-        if option_name == 'single-request-reopen':
-            resolve_configuration.option_single_request_re_open = True
-            continue
-        
-        if option_name == 'no-tld-query':
-            resolve_configuration.option_no_unqualified_name_resolving = True
-            continue
-        
-        if option_name == 'use-vc':
-            resolve_configuration.option_force_tcp = True
-            continue
-        
-        if option_name == 'no-reload':
-            resolve_configuration.option_no_reload = True
-            continue
-        
-        if option_name == 'trust-ad':
-            resolve_configuration.option_set_verified_data_in_requests = True
-            continue
-        
-        if option_name in (
-            'ip6-bytestring',
-            'ip6-dotint',
-            'no-ip6-dotint',
-        ):
-            # oldge
-            continue
-        
-        option_split = option_name.split(':', 1)
-        if len(option_split) != 2:
-            continue
-        
-        option_name, option_value = option_split
-        if not option_value.isdigit():
-            continue
-        
-        option_value = int(option_value)
-        
-        if option_name == 'ndots':
-            if option_value < OPTION_REQUIRED_DOT_COUNT_THRESHOLD_LOWER:
-                option_value = OPTION_REQUIRED_DOT_COUNT_THRESHOLD_LOWER
+        for index in range(1, split_length):
+            option_name = split[index]
+            if option_name == 'debug':
+                resolve_configuration.option_debug = True
+                continue
             
-            elif option_value > OPTION_REQUIRED_DOT_COUNT_THRESHOLD_UPPER:
-                option_value = OPTION_REQUIRED_DOT_COUNT_THRESHOLD_UPPER
+            if option_name == 'rotate':
+                resolve_configuration.option_rotate = True
+                continue
             
-            resolve_configuration.option_required_dot_count = option_value
-            continue
-        
-        if option_name == 'timeout':
-            option_value = float(option_value)
-            if option_value < OPTION_TIMEOUT_THRESHOLD_LOWER:
-                option_value = OPTION_TIMEOUT_THRESHOLD_LOWER
+            if option_name == 'no-aaaa':
+                resolve_configuration.option_no_ip_v6_lookups = True
+                continue
             
-            elif option_value > OPTION_TIMEOUT_THRESHOLD_UPPER:
-                option_value = OPTION_TIMEOUT_THRESHOLD_UPPER
+            if option_name == 'no-check-names':
+                resolve_configuration.option_disable_bind_checking = True
+                continue
             
-            resolve_configuration.option_timeout = option_value
-            continue
-        
-        if option_name == 'attempts':
-            if option_value < OPTION_ATTEMPTS_THRESHOLD_LOWER:
-                option_value = OPTION_ATTEMPTS_THRESHOLD_LOWER
+            if option_name == 'inet6':
+                resolve_configuration.option_prefer_ip_v6 = True
+                continue
+            
+            if option_name == 'edns0':
+                resolve_configuration.option_enable_dns_extension = True
+                continue
+            
+            if option_name == 'single-request':
+                resolve_configuration.option_limit_to_single_request = True
+                continue
+            
+            if option_name == 'single-request-reopen':
+                resolve_configuration.option_single_request_re_open = True
+                continue
+            
+            if option_name == 'no-tld-query':
+                resolve_configuration.option_no_unqualified_name_resolving = True
+                continue
+            
+            if option_name == 'use-vc':
+                resolve_configuration.option_force_tcp = True
+                continue
+            
+            if option_name == 'no-reload':
+                resolve_configuration.option_no_reload = True
+                continue
+            
+            if option_name == 'trust-ad':
+                resolve_configuration.option_set_verified_data_in_requests = True
+                continue
             
-            elif option_value > OPTION_ATTEMPTS_THRESHOLD_UPPER:
-                option_value = OPTION_ATTEMPTS_THRESHOLD_UPPER
+            if option_name in (
+                'ip6-bytestring',
+                'ip6-dotint',
+                'no-ip6-dotint',
+            ):
+                # oldge
+                continue
+            
+            option_split = option_name.split(':', 1)
+            if len(option_split) != 2:
+                continue
+            
+            option_name, option_value = option_split
+            if not option_value.isdecimal():
+                continue
+            
+            option_value = int(option_value)
+            
+            if option_name == 'ndots':
+                if option_value < OPTION_REQUIRED_DOT_COUNT_THRESHOLD_LOWER:
+                    option_value = OPTION_REQUIRED_DOT_COUNT_THRESHOLD_LOWER
+                
+                elif option_value > OPTION_REQUIRED_DOT_COUNT_THRESHOLD_UPPER:
+                    option_value = OPTION_REQUIRED_DOT_COUNT_THRESHOLD_UPPER
+                
+                resolve_configuration.option_required_dot_count = option_value
+                continue
+            
+            if option_name == 'timeout':
+                option_value = float(option_value)
+                if option_value < OPTION_TIMEOUT_THRESHOLD_LOWER:
+                    option_value = OPTION_TIMEOUT_THRESHOLD_LOWER
+                
+                elif option_value > OPTION_TIMEOUT_THRESHOLD_UPPER:
+                    option_value = OPTION_TIMEOUT_THRESHOLD_UPPER
+                
+                resolve_configuration.option_timeout = option_value
+                continue
+            
+            if option_name == 'attempts':
+                if option_value < OPTION_ATTEMPTS_THRESHOLD_LOWER:
+                    option_value = OPTION_ATTEMPTS_THRESHOLD_LOWER
+                
+                elif option_value > OPTION_ATTEMPTS_THRESHOLD_UPPER:
+                    option_value = OPTION_ATTEMPTS_THRESHOLD_UPPER
+                
+                resolve_configuration.option_attempts = option_value
+                continue
             
-            resolve_configuration.option_attempts = option_value
             continue
         
         continue
-- 
2.43.0


From 7f79c5221e9ca0d7ae354dbfb86ac100724f962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 118/242] fix: dns name of an escaped at sign was parsed as the
 root

---
 scarletio/dns_query/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 6c1b697..cb103ba 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -93,7 +93,8 @@ def parse_labels_from_name(name):
     part_parts = None
     
     # If we ended up with an empty split, or if the only split is a `@`, we can return nothing.
-    if (not split) or ((len(split) == 1)) and (split[0] in ('@', '')):
+    # An escaped `@` is a label as any other.
+    if (not split) or (split == ['']) or (name in ('@', '@.')):
         return None
     
     # If we have any empty parts after the splitting and exception case handling, we raise an error.
-- 
2.43.0


From 7fd09ef29586fd35d092ac44402b0ecf9ef1aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 119/242] fix: DatagramAddressedReadProtocol.wait_for_receive
 returned the protocol of any address

---
 scarletio/core/protocols_and_transports/protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 80313d3..d9f268a 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1518,8 +1518,8 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             waiter = Future(self._loop)
             waiters.append(waiter)
             
-            address, protocol = await waiter
-            if address == address:
+            received_address, protocol = await waiter
+            if received_address == address:
                 return protocol
             
             continue
-- 
2.43.0


From c46d8dd8b65bdf91e02ca6270de6a6acdd47eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 120/242] fix: DatagramAddressedReadProtocol.wait_for_receive
 waited forever when the connection got lost

---
 .../core/protocols_and_transports/protocol.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index d9f268a..ba4019a 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1382,6 +1382,8 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
     ----------
     _by_address : ``dict<(str, int), ReadProtocolBase>``
         Dictionary to store the alive readers by address.
+    _exception : `None`, `BaseException`
+        Exception to raise to those who wait for payload after the connection was lost.
     _loop : ``EventThread``
         The loop to what the protocol is bound to.
     _protocol_factory : `type`
@@ -1392,7 +1394,7 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
     _waiters : ``None | list<Future>``
         Waiters for any payload receive if applicable.
     """
-    __slots__ = ('_by_address', '_loop', '_protocol_factory', '_transport', '_waiters',)
+    __slots__ = ('_by_address', '_exception', '_loop', '_protocol_factory', '_transport', '_waiters',)
     
     def __new__(cls, loop, protocol_factory):
         """
@@ -1411,6 +1413,7 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
         self = object.__new__(cls)
         self._loop = loop
         self._by_address = {}
+        self._exception = None
         self._transport = None
         self._waiters = None
         self._protocol_factory = protocol_factory
@@ -1431,6 +1434,16 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
                 reader_protocol.eof_received()
             else:
                 reader_protocol.set_exception(exception)
+        
+        if exception is None:
+            exception = EOFError(b'')
+        self._exception = exception
+        
+        waiters = self._waiters
+        if (waiters is not None):
+            self._waiters = None
+            for waiter in waiters:
+                waiter.set_exception_if_pending(exception)
     
     
     @copy_docs(AbstractProtocolBase.datagram_received)
@@ -1489,6 +1502,10 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             except KeyError:
                 pass
         
+        exception = self._exception
+        if (exception is not None):
+            raise exception
+        
         if (timeout is not None):
             waiter = Task(self._loop, self.wait_for_receive(address))
             waiter.apply_timeout(timeout)
-- 
2.43.0


From 21f9beaecc7c08179359e820fa0d4a433e2f66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 121/242] fix: an unreachable name server prevented querying
 the other ones

---
 scarletio/dns_query/requests.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index d8792aa..1bc74a9 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -38,6 +38,7 @@ from .helpers import (
 from .query import Query
 from .question import Question
 from .resolve_configuration import RESOLVE_CONFIGURATION_DEFAULT
+from .response_parsing_error import ResponseParsingError
 
 
 COUNTER = iter(count(0))
@@ -157,15 +158,19 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             except TimeoutError:
                 continue
             
+            except ResponseParsingError:
+                # Only raised if it is preferred.
+                raise
+            
             except OSError as exception:
                 # If we force secure request and we failed to make the connection, increment skipped count.
                 if (
-                    (preference_query_transport_type != QUERY_TRANSPORT_TYPE_TLS) or
-                    (exception.errno != ERROR_CODE_CONNECTION_REFUSED)
+                    (preference_query_transport_type == QUERY_TRANSPORT_TYPE_TLS) and
+                    (exception.errno == ERROR_CODE_CONNECTION_REFUSED)
                 ):
-                    raise
+                    name_server_skipped_due_to_secure_connection_not_being_available += len(questions)
                 
-                name_server_skipped_due_to_secure_connection_not_being_available += len(questions)
+                # Other name servers may still be available.
                 continue
             
             if (result is None):
@@ -198,15 +203,19 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             except TimeoutError:
                 continue
             
+            except ResponseParsingError:
+                # Only raised if it is preferred.
+                raise
+            
             except OSError as exception:
                 # If we force secure request and we failed to make the connection, increment skipped count.
                 if (
-                    (preference_query_transport_type != QUERY_TRANSPORT_TYPE_TLS) or
-                    (exception.errno != ERROR_CODE_CONNECTION_REFUSED)
+                    (preference_query_transport_type == QUERY_TRANSPORT_TYPE_TLS) and
+                    (exception.errno == ERROR_CODE_CONNECTION_REFUSED)
                 ):
-                    raise
+                    name_server_skipped_due_to_secure_connection_not_being_available += 1
                 
-                name_server_skipped_due_to_secure_connection_not_being_available += 1
+                # Other name servers may still be available.
                 continue
             
             if (result is None):
-- 
2.43.0


From 6d7070708580baf4b9a7f271176ef6262cd0f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 122/242] fix: failure of a name server was taken as a negative
 answer

---
 scarletio/dns_query/requests.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 1bc74a9..d612704 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -28,7 +28,8 @@ from .constants import (
     CLASS_CODE_INTERNET, IP_TYPE_IP_V4, IP_TYPE_IP_V6, NAME_SERVER_CONFIGURATION_SECURE_CONNECTION_SUPPORT_LEVEL_NO,
     NAME_SERVER_CONFIGURATION_SECURE_CONNECTION_SUPPORT_LEVEL_YES, QUERY_TRANSPORT_TYPE_AUTO, QUERY_TRANSPORT_TYPE_TCP,
     QUERY_TRANSPORT_TYPE_TLS, QUERY_TRANSPORT_TYPE_UDP, RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER,
-    RESOURCE_RECORD_TYPE_IP_V4_ADDRESS, RESOURCE_RECORD_TYPE_IP_V6_ADDRESS
+    RESOURCE_RECORD_TYPE_IP_V4_ADDRESS, RESOURCE_RECORD_TYPE_IP_V6_ADDRESS, RESPONSE_CODE_NOT_IMPLEMENTED,
+    RESPONSE_CODE_QUERY_REFUSED, RESPONSE_CODE_SERVER_FAILURE
 )
 from .helpers import (
     build_name_from_labels, iter_intermediate_intermediate_addresses_ordered, iter_labels_with_searches,
@@ -43,6 +44,13 @@ from .response_parsing_error import ResponseParsingError
 
 COUNTER = iter(count(0))
 
+# Response codes with which a name server tells that it could not answer the query. An other one may be able to.
+RESPONSE_CODES_NAME_SERVER_FAILURE = frozenset((
+    RESPONSE_CODE_SERVER_FAILURE,
+    RESPONSE_CODE_NOT_IMPLEMENTED,
+    RESPONSE_CODE_QUERY_REFUSED,
+))
+
 
 # Separately defined, so it is patchable while testing.
 def _get_next_id():
@@ -173,7 +181,7 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
                 # Other name servers may still be available.
                 continue
             
-            if (result is None):
+            if (result is None) or (result.response_code in RESPONSE_CODES_NAME_SERVER_FAILURE):
                 continue
             
             yield result
@@ -218,7 +226,7 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
                 # Other name servers may still be available.
                 continue
             
-            if (result is None):
+            if (result is None) or (result.response_code in RESPONSE_CODES_NAME_SERVER_FAILURE):
                 continue
                 
             any_query_passed = True
-- 
2.43.0


From 2f406b4f8df06b345d99a6e62443b06c28ec4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 123/242] fix: dns queries over udp failed with ip v6 name
 servers, accepted responses of other queries and truncated ones

---
 scarletio/dns_query/requests.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index d612704..2d029e9 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -302,13 +302,28 @@ async def _execute_query_udp(event_loop, name_server_configuration, query, resol
         data = build_query_data(query, resolve_configuration)
         protocol._transport.send_to(data)
         await protocol.drain()
-        secondary_protocol = await protocol.wait_for_receive(address, resolve_configuration.option_timeout)
-        if (secondary_protocol is None):
+        # The socket is connected, so only the name server can send to us. Do not compare its address, since an ip v6 one
+        # can have many forms.
+        address_and_protocol = await protocol.wait_for_receive(None, resolve_configuration.option_timeout)
+        if (address_and_protocol is None):
             return
         
-        data = await secondary_protocol.read_once()
+        secondary_protocol = address_and_protocol[1]
+        
+        while True:
+            data = await secondary_protocol.read_once()
+            
+            result, response_parsing_error = parse_result_data(data)
+            # Ignore responses of other queries.
+            if (result is None) or (result.transaction_id == query.transaction_id):
+                break
+        
+        if (result is not None) and result.truncated:
+            # The response did not fit into a datagram.
+            return await _execute_query_tcp(
+                event_loop, name_server_configuration, query, resolve_configuration, ssl_context
+            )
         
-        result, response_parsing_error = parse_result_data(data)
         if resolve_configuration.preference_raise_upon_response_parsing_error and (response_parsing_error is not None):
             try:
                 raise response_parsing_error
-- 
2.43.0


From 5ff442b70672992f0ffbcff488409efbeca563bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 124/242] fix: dns responses of other queries were accepted

---
 scarletio/dns_query/requests.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 2d029e9..77caa22 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -395,6 +395,10 @@ async def _execute_query_tcp(event_loop, name_server_configuration, query, resol
             finally:
                 response_parsing_error = None
         
+        # Do not accept responses of other queries.
+        if (result is not None) and (result.transaction_id != query.transaction_id):
+            return
+        
         return result
     
     finally:
@@ -463,6 +467,10 @@ async def _execute_query_tls(event_loop, name_server_configuration, query, resol
             finally:
                 response_parsing_error = None
         
+        # Do not accept responses of other queries.
+        if (result is not None) and (result.transaction_id != query.transaction_id):
+            return
+        
         return result
     
     finally:
-- 
2.43.0


From 746eb056d9b18ab6bf3a4590ac4dc4010b394829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 125/242] fix: name of an address was not found if its pointer
 was preceded by an alias

---
 scarletio/dns_query/requests.py | 36 +++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 77caa22..9b9effb 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -929,6 +929,8 @@ async def get_name_info_async(
     
     while True:
         if not (socket_flags & NAME_INFO_NUMERIC_HOST):
+            maybe_host_name = None
+            
             async for result in async_iter_execute_query_async(
                 event_loop,
                 Query(
@@ -948,22 +950,30 @@ async def get_name_info_async(
                 ssl_context,
             ):
                 answers = result.answers
-                if (answers is not None):
-                    break
-            else:
-                if (socket_flags & NAME_INFO_RAISE_ERROR_IF_NAME_CANNOT_BE_DETERMINED):
-                    raise GetAddressInfoError(
-                        ERROR_CODE_ADDRESS_INFO_NO_NAME,
-                        'Name and service not known.',
-                    )
+                if (answers is None):
+                    continue
+                
+                # The pointer may be preceded by aliases.
+                for resource_record in answers:
+                    if resource_record.resource_record_type != RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER:
+                        continue
+                    
+                    maybe_host_name = parse_domain_name_pointer_data(resource_record.data)
+                    if (maybe_host_name is not None):
+                        break
                 
-                answers = None
-            
-            if (answers is not None):
-                maybe_host_name = parse_domain_name_pointer_data(answers[0].data)
                 if (maybe_host_name is not None):
-                    host_name = maybe_host_name
+                    break
+            
+            if (maybe_host_name is not None):
+                host_name = maybe_host_name
                 break
+            
+            if (socket_flags & NAME_INFO_RAISE_ERROR_IF_NAME_CANNOT_BE_DETERMINED):
+                raise GetAddressInfoError(
+                    ERROR_CODE_ADDRESS_INFO_NO_NAME,
+                    'Name and service not known.',
+                )
         
         host_name = address
         if has_scope:
-- 
2.43.0


From 9212e21a7083ddbb405829b59a06ab75f4e0a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 126/242] fix: resolving numeric or unknown services raised a
 not documented error

---
 scarletio/dns_query/requests.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 9b9effb..28df892 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -601,7 +601,16 @@ async def get_address_info_async(
     elif isinstance(port, int):
         pass
     elif isinstance(port, str):
-        port = get_protocol_for_service_name(port)
+        if port.isascii() and port.isdigit():
+            port = int(port)
+        else:
+            try:
+                port = get_protocol_for_service_name(port)
+            except OSError as exception:
+                raise GetAddressInfoError(
+                    ERROR_CODE_ADDRESS_INFO_SERVICE,
+                    f'Service not known; port = {port!r}.',
+                ) from exception
     else:
         raise GetAddressInfoError(
             ERROR_CODE_ADDRESS_INFO_SERVICE,
-- 
2.43.0


From a4dbe23b5795a5b72bc323a6bb3f3638ebc9b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 127/242] fix: resolving a name which can not be one raised
 ValueError

---
 scarletio/dns_query/requests.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 28df892..b92f9c9 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -757,7 +757,15 @@ async def get_address_info_async(
         #     ),
         # ),
         
-        for labels in iter_labels_with_searches(resolve_configuration, parse_labels_from_name(host_name)):
+        try:
+            host_labels = parse_labels_from_name(host_name)
+        except ValueError as exception:
+            raise GetAddressInfoError(
+                ERROR_CODE_ADDRESS_INFO_NO_NAME,
+                'Name and service not known.',
+            ) from exception
+        
+        for labels in iter_labels_with_searches(resolve_configuration, host_labels):
             async for result in async_iter_execute_query_async(
                 event_loop,
                 Query(
-- 
2.43.0


From d19c6f36f867da07303f5c453714329726588d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 128/242] fix: EventThread.get_name_info tried to resolve the
 address as a host name

---
 scarletio/core/event_loop/event_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 89427ab..10eb10a 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2163,7 +2163,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         future : ``Future``
             An awaitable future, what will yield the lookup's result.
         """
-        return await get_address_info_async(
+        return await get_name_info_async(
             self,
             socket_address,
             flags,
-- 
2.43.0


From 105f76976a678f8c9abd6add0142570d91765c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 129/242] fix: connecting lost the scope of ip v6 addresses

---
 scarletio/core/event_loop/event_loop.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 10eb10a..a416e55 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2266,7 +2266,17 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                 0,
             )
             
-            address = resolved[0][4]
+            resolved_address = resolved[0][4]
+            if (len(resolved_address) == 4) and (len(address) == 4):
+                # Keep flow info & scope.
+                resolved_address = (
+                    resolved_address[0],
+                    resolved_address[1],
+                    address[2] or resolved_address[2],
+                    address[3] or resolved_address[3],
+                )
+            
+            address = resolved_address
         
         try:
             socket.connect(address)
-- 
2.43.0


From 06a573c03e822792111ca98b8938f7d454efe4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 130/242] fix: drop-in configuration files of the local
 resolver were looked for in the current directory

---
 scarletio/dns_query/resolve_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/resolve_configuration.py b/scarletio/dns_query/resolve_configuration.py
index 7eba479..bdb8c1a 100755
--- a/scarletio/dns_query/resolve_configuration.py
+++ b/scarletio/dns_query/resolve_configuration.py
@@ -946,7 +946,7 @@ def _load():
             continue
         
         try:
-            node_names = list_directory()
+            node_names = list_directory(directory_path)
         except PermissionError:
             continue
         
@@ -954,7 +954,7 @@ def _load():
             if not node_name.endswith(end):
                 continue
             
-            file_path = join_paths(directory_path, end)
+            file_path = join_paths(directory_path, node_name)
             if is_file(file_path):
                 configuration_file_paths.append(file_path)
             continue
-- 
2.43.0


From ea56bfb12bb9e1bd85d48fdef0c1d5fb042ce91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 131/242] fix: resolving an address with an unknown scope
 raised a not documented error

---
 scarletio/dns_query/requests.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index b92f9c9..183804f 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -732,7 +732,13 @@ async def get_address_info_async(
                 elif scope.isdigit():
                     network_interface_index = int(scope)
                 else:
-                    network_interface_index = get_network_interface_index(scope)
+                    try:
+                        network_interface_index = get_network_interface_index(scope)
+                    except OSError as exception:
+                        raise GetAddressInfoError(
+                            ERROR_CODE_ADDRESS_INFO_NO_NAME,
+                            f'Network interface not known; scope = {scope!r}.',
+                        ) from exception
                 
             intermediate_addresses.append((ip_type, ip_value, None, network_interface_index))
             
-- 
2.43.0


From 4e25c137a560f7431187025f6ae8d5cf30f0fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 132/242] fix: aborting a closed pipe transport unregistered
 whatever got its file descriptor

---
 .../protocols_and_transports/unix_pipe_transport_layer.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
index c011109..5b9fd56 100755
--- a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
@@ -512,7 +512,9 @@ class UnixWritePipeTransportLayer(TransportLayerBase):
     
     @copy_docs(TransportLayerBase.abort)
     def abort(self, exception = None):
-        self._close(exception)
+        # If the pipe is already closed, its file descriptor may belong to something else.
+        if (self._pipe is not None):
+            self._close(exception)
     
     
     @copy_docs(TransportLayerBase._fatal_error)
-- 
2.43.0


From c2a229d6dc976c9eb3bc3076c2f189d343474194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 133/242] fix: aborting a read pipe transport did nothing

---
 .../protocols_and_transports/unix_pipe_transport_layer.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
index 5b9fd56..36fa958 100755
--- a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
@@ -186,6 +186,12 @@ class UnixReadPipeTransportLayer(TransportLayerBase):
             self._close(None)
     
     
+    @copy_docs(TransportLayerBase.abort)
+    def abort(self, exception = None):
+        if not self._closing:
+            self._close(exception)
+    
+    
     def __del__(self):
         """
         Closes the read pipe transport if not yet closed.
-- 
2.43.0


From 90403ccc40a8dbfb1e79b8e43defcde7a47dd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 134/242] fix: the exit of a process was noticed only when all
 its output pipes were closed, and closing them killed it

---
 scarletio/core/subprocess/subprocess.py       | 24 ++++++++++++-------
 .../core/subprocess/subprocess_protocols.py   |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index ed16a11..bbbaebb 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -196,6 +196,8 @@ class AsyncProcess:
         self._connection_lost = False
         self._alive_file_descriptors = []
         
+        Task(loop, self._process_exited())
+        
         try:
             stdin = process.stdin
             if (stdin is not None):
@@ -232,6 +234,7 @@ class AsyncProcess:
                 pending_call(self, *args)
             
             self._pending_calls = None
+            self._maybe_process_exited()
         except:
             self.close()
             await self.wait()
@@ -341,8 +344,6 @@ class AsyncProcess:
                     process.kill()
                 except ProcessLookupError:
                     pass
-        
-        Task(self._loop, self._process_exited())
     
     __del__ = close
     
@@ -561,7 +562,7 @@ class AsyncProcess:
     
     async def _process_exited(self):
         """
-        Task created by ``.close``to wait till the sub-process is closed and to set
+        Task created with the sub-process, to wait till it exits and to set its return code.
         
         This method is a coroutine.
         """
@@ -584,12 +585,19 @@ class AsyncProcess:
             self._exit_waiters = None
         finally:
             self.process = None
+        
+        if self._pending_calls is None:
+            self._maybe_process_exited()
     
     
     def _maybe_process_exited(self):
         """
-        Called when a sub-process pipe is closed. When all all pipe is closed, calls ``.close``.
+        Called when a sub-process pipe is closed or when the sub-process exited. When the sub-process exited and all
+        its pipes are closed, calls ``.close``.
         """
+        if self.return_code is None:
+            return
+        
         if self._alive_file_descriptors:
             return
         
@@ -654,22 +662,22 @@ class AsyncProcess:
             return
         
         stdin_protocol = self._subprocess_stdin_protocol
-        if (stdin_protocol is None) or stdin_protocol._disconnected:
+        if (stdin_protocol is not None) and (not stdin_protocol._disconnected):
             return
         
         stdout_protocol = self._subprocess_stdout_protocol
-        if (stdout_protocol is None) or stdout_protocol._disconnected:
+        if (stdout_protocol is not None) and (not stdout_protocol._disconnected):
             return
         
         stderr_protocol = self._subprocess_stderr_protocol
-        if (stderr_protocol is None) or stderr_protocol._disconnected:
+        if (stderr_protocol is not None) and (not stderr_protocol._disconnected):
             return
         
         pending_calls = self._pending_calls
         if (pending_calls is None):
             self._do_connection_lost(None)
         else:
-            pending_calls.append((type(self)._do_connection_lost, (self, None,)))
+            pending_calls.append((type(self)._do_connection_lost, (None,)))
     
     
     async def _feed_stdin(self, input_value):
diff --git a/scarletio/core/subprocess/subprocess_protocols.py b/scarletio/core/subprocess/subprocess_protocols.py
index a1101a7..2d5bdbb 100755
--- a/scarletio/core/subprocess/subprocess_protocols.py
+++ b/scarletio/core/subprocess/subprocess_protocols.py
@@ -56,8 +56,8 @@ class SubprocessWritePipeProtocol(AbstractProtocolBase):
         process = self._process
         if (process is not None):
             self._process = None
-            process._pipe_connection_lost(self._file_descriptor, exception)
             self._disconnected = True
+            process._pipe_connection_lost(self._file_descriptor, exception)
     
     
     @copy_docs(AbstractProtocolBase.pause_writing)
-- 
2.43.0


From 1df39b9114055c08e5cbb9c54dfd2789a789c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 135/242] fix: a waiter of a process which timed out or was
 cancelled at its exit stopped the others from being notified

---
 scarletio/core/subprocess/subprocess.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index bbbaebb..4eb03c5 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -578,9 +578,8 @@ class AsyncProcess:
             # wake up futures waiting for wait()
             exit_waiters = self._exit_waiters
             if (exit_waiters is not None):
-                for waiter in self._exit_waiters:
-                    if not waiter.is_cancelled():
-                        waiter.set_result(return_code)
+                for waiter in exit_waiters:
+                    waiter.set_result_if_pending(return_code)
             
             self._exit_waiters = None
         finally:
@@ -642,8 +641,6 @@ class AsyncProcess:
         try:
             return await waiter
         except TimeoutError:
-            exit_waiters.discard(waiter)
-            
             process = self.process
             if process is None:
                 args = None
@@ -651,6 +648,8 @@ class AsyncProcess:
                 args = process.args
             
             raise TimeoutExpired(args, timeout) from None
+        finally:
+            exit_waiters.discard(waiter)
     
     
     def _try_finish(self):
-- 
2.43.0


From a04a48d02923fc214ff3a846408c8167a673e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 136/242] fix: communicating without input left the stdin of
 the process open, so a process reading it never ended

---
 scarletio/core/subprocess/subprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index 4eb03c5..7eb9d85 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -782,7 +782,7 @@ class AsyncProcess:
         tasks = []
         
         loop = self._loop
-        if input_value is None:
+        if self.stdin is None:
             stdin_task = None
         else:
             stdin_task = Task(loop, self._feed_stdin(input_value))
-- 
2.43.0


From 29c6d0600454f330a900e7a7a52868fa27712e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 137/242] fix: communicating with a process did not time out
 when the process closed its output or had none

---
 scarletio/core/subprocess/subprocess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index 7eb9d85..2d5e7b3 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -800,6 +800,12 @@ class AsyncProcess:
             stderr_task = Task(loop, self._read_close_stderr_stream())
             tasks.append(stderr_task)
         
+        if timeout is None:
+            wait_task = None
+        else:
+            wait_task = Task(loop, self.wait())
+            tasks.append(wait_task)
+        
         if tasks:
             task_group = TaskGroup(loop, tasks)
             
-- 
2.43.0


From fd73485e93f69c3ea934c7319f830d0175d4b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 138/242] fix: waiting till the stdin of a process is drained
 raised, and only the last waiter was notified

---
 scarletio/core/subprocess/subprocess.py | 40 +++++++++++++++----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index 2d5e7b3..742811b 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -41,7 +41,7 @@ class AsyncProcess:
     
     _connection_lost : `bool`
         Whether all the pipes of the ``AsyncProcess`` lost connection.
-    _drain_waiter : ``None | Future``
+    _drain_waiters : ``None | list<Future>``
         A future, what is used to block the writing task, till it's writen data is drained.
     _exit_waiters : `None`, `set of ``Future``
         Waiter futures which wait for the subprocess to shutdown.
@@ -76,7 +76,7 @@ class AsyncProcess:
         Asynchronous stdout implementation.
     """
     __slots__ = (
-        '_alive_file_descriptors', '_closed', '_connection_lost', '_drain_waiter', '_exit_waiters', '_extra', '_loop',
+        '_alive_file_descriptors', '_closed', '_connection_lost', '_drain_waiters',  '_exit_waiters', '_extra', '_loop',
         '_paused', '_pending_calls', '_subprocess_stderr_protocol', '_subprocess_stdin_protocol',
         '_subprocess_stdout_protocol', 'process', 'process_id', 'return_code', 'stderr', 'stdin', 'stdout'
     )
@@ -192,7 +192,7 @@ class AsyncProcess:
         self.stdout = None
         self.stderr = None
         self._paused = False
-        self._drain_waiter = None
+        self._drain_waiters = None
         self._connection_lost = False
         self._alive_file_descriptors = []
         
@@ -881,17 +881,19 @@ class AsyncProcess:
         """
         self._paused = False
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        drain_waiter.set_result_if_pending(None)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            drain_waiter.set_result_if_pending(None)
+    
     
     
     def _do_connection_lost(self, exception):
         """
-        Sets ``._connection_lost`` as `True` and set ``._drain_waiter`` result or exception as well.
+        Sets ``._connection_lost`` as `True` and set the results or exceptions of ``._drain_waiters`` as well.
         
         Parameters
         ----------
@@ -906,15 +908,16 @@ class AsyncProcess:
         if not self._paused:
             return
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        if exception is None:
-            drain_waiter.set_result_if_pending(None)
-        else:
-            drain_waiter.set_exception_if_pending(exception)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            if exception is None:
+                drain_waiter.set_result_if_pending(None)
+            else:
+                drain_waiter.set_exception_if_pending(exception)
     
     
     async def _drain_helper(self):
@@ -929,5 +932,10 @@ class AsyncProcess:
         if not self._paused:
             return
         
-        self._drain_waiter = drain_waiter = Future(self)
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
+            self._drain_waiters = drain_waiters = []
+        
+        drain_waiter = Future(self._loop)
+        drain_waiters.append(drain_waiter)
         await drain_waiter
-- 
2.43.0


From fccc7cf3c0f647251e8ce445e937c56c39848889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 139/242] fix: deduplicated file names could collide with each
 other

---
 .../zip_streaming/name_deduplication.py       | 57 +++++++++++--------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/name_deduplication.py b/scarletio/streaming/zip_streaming/name_deduplication.py
index 58affd0..32e0d48 100755
--- a/scarletio/streaming/zip_streaming/name_deduplication.py
+++ b/scarletio/streaming/zip_streaming/name_deduplication.py
@@ -58,6 +58,7 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
     name : `str`
     """
     collected = {}
+    names = set()
     name = yield
     
     while True:
@@ -77,34 +78,42 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
         key = (path, extension)
         counter, taken_values = collected.get(key, (-1, None))
         
-        if (index > counter) and ((taken_values is None) or (index not in taken_values)):
-            new_index = index
+        while True:
+            if (index > counter) and ((taken_values is None) or (index not in taken_values)):
+                new_index = index
+                
+                if (taken_values is None):
+                    taken_values = set()
+                
+                taken_values.add(new_index)
             
-            if (taken_values is None):
-                taken_values = set()
+            else:
+                new_index = counter + 1
+                if (taken_values is not None):
+                    while True:
+                        try:
+                            taken_values.remove(new_index)
+                        except KeyError:
+                            break
+                        
+                        new_index += 1
+                        
+                        if not taken_values:
+                            taken_values = None
+                            break
+                
+                counter = new_index
             
-            taken_values.add(new_index)
-        
-        else:
-            new_index = counter + 1
-            if (taken_values is not None):
-                while True:
-                    try:
-                        taken_values.remove(new_index)
-                    except KeyError:
-                        break
-                    
-                    new_index += 1
-                    
-                    if not taken_values:
-                        taken_values = None
-                        break
+            if (index != new_index):
+                name = name_reconstructor(path, new_index, extension)
             
-            counter = new_index
+            if name not in names:
+                break
+            
+            # An other path produced the same name -> use the next index.
+            index = -1
         
         collected[key] = (counter, taken_values)
-        
-        if (index != new_index):
-            name = name_reconstructor(path, new_index, extension)
+        names.add(name)
         
         name = yield name
-- 
2.43.0


From b105ac5a4cb374cfeb93fc2e8c2a92b693318a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 140/242] fix: streaming a zip archive of more than 65535 files
 raised

---
 scarletio/streaming/zip_streaming/zip_stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/zip_stream.py b/scarletio/streaming/zip_streaming/zip_stream.py
index 3143a2c..d91775e 100755
--- a/scarletio/streaming/zip_streaming/zip_stream.py
+++ b/scarletio/streaming/zip_streaming/zip_stream.py
@@ -200,8 +200,8 @@ def _create_end_of_central_directory_record(files_count):
         END_OF_CENTRAL_DIRECTORY_RECORD_SIGNATURE,
         0,
         0,
-        files_count,
-        files_count,
+        min(files_count, 0xffff),
+        min(files_count, 0xffff),
         0xffffffff,
         0xffffffff,
         0,
-- 
2.43.0


From 86ec1c74fa4de6b63a9ed0fdd1062c1bae577cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 141/242] fix: a reusable bytes io gave back stale data, and
 could not be sought to its end

---
 scarletio/core/ios.py | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index f16d606..facfc65 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -38,16 +38,13 @@ class ReuBytesIO(BytesIO):
         +-------------------+-------+
         | OPERATION_READ    | 1     |
         +-------------------+-------+
-    _size : `int`
-        The position, till the buffer was written by the last reading session and can be read back.
     """
-    __slots__ = ('_last_operation', '_size')
+    __slots__ = ('_last_operation',)
     
     def __init__(self,):
         """
         Initializes the buffer.
         """
-        self._size = 0
         self._last_operation = OPERATION_WRITE
     
     
@@ -64,12 +61,10 @@ class ReuBytesIO(BytesIO):
         """
         if self._last_operation != OPERATION_WRITE:
             BytesIO.seek(self, 0)
-            self._size = 0
+            BytesIO.truncate(self)
             self._last_operation = OPERATION_WRITE
         
-        amount = BytesIO.write(self, data)
-        self._size += amount
-        return amount
+        return BytesIO.write(self, data)
     
     
     def read(self, amount = None):
@@ -89,13 +84,6 @@ class ReuBytesIO(BytesIO):
         """
         self._last_operation = OPERATION_READ
         
-        if amount is None:
-            amount = self._size - self.tell()
-        else:
-            readable = self._size - self.tell()
-            if amount > readable:
-                amount = readable
-        
         return BytesIO.read(self, amount)
     
     
@@ -114,7 +102,7 @@ class ReuBytesIO(BytesIO):
         -------
         length : `int`
         """
-        return self._size
+        return self.getbuffer().nbytes
     
     
     def seek(self, offset, whence = os.SEEK_SET):
@@ -146,14 +134,9 @@ class ReuBytesIO(BytesIO):
         position : `int`
             The new absolute position.
         """
-        if whence == os.SEEK_END:
-            return self._size
-        
-        value = BytesIO.seek(self, offset, whence)
-        if value > self._size:
-            self._size = value
-            
-        return value
+        return BytesIO.seek(self, offset, whence)
+    
+    
     
     def real_close(self):
         """
-- 
2.43.0


From 78820debbae1d612ff518a9e904e834109996db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 142/242] fix: using a reusable bytes io with the with syntax
 did not close it

---
 scarletio/core/ios.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index facfc65..3becfcd 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -143,6 +143,12 @@ class ReuBytesIO(BytesIO):
         Closes the buffer.
         """
         BytesIO.close(self)
+    
+    
+    def __exit__(self, exception_type, exception_value, exception_traceback):
+        """Closes the buffer for real."""
+        self.real_close()
+        return False
 
 
 def get_executor():
-- 
2.43.0


From de72ab4d49b64477cdbea565b3a3413c0545467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 143/242] fix: failing to open an async io left its executor
 claimed and raised again when it was deallocated

---
 scarletio/core/ios.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index 3becfcd..9bf17ff 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -240,8 +240,15 @@ class AsyncIO:
         Check `https://docs.python.org/3/library/functions.html#open` for parameters.
         """
         self = object.__new__(cls)
-        self._executor = executor = get_executor()
-        self._io = await executor.execute(alchemy_incendiary(open, positional_parameters, keyword_parameters))
+        self._executor = None
+        executor = get_executor()
+        try:
+            self._io = await executor.execute(alchemy_incendiary(open, positional_parameters, keyword_parameters))
+        except:
+            executor.release()
+            raise
+        
+        self._executor = executor
         return self
     
     
@@ -979,9 +986,18 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(f'{cls.__name__} supports \'rb\' mode only, got {mode!r}.')
         
         self = object.__new__(cls)
-        self._executor = executor = get_executor()
-        self._io = await executor.execute(alchemy_incendiary(open, (path, mode, *positional_parameters), keyword_parameters))
+        self._executor = None
         self._should_seek = False
+        executor = get_executor()
+        try:
+            self._io = await executor.execute(
+                alchemy_incendiary(open, (path, mode, *positional_parameters), keyword_parameters)
+            )
+        except:
+            executor.release()
+            raise
+        
+        self._executor = executor
         return self
     
     
-- 
2.43.0


From 9aee47d27c273d57dfb0a803f925a4af77f73566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 144/242] fix: detaching an async io left its executor claimed

---
 scarletio/core/ios.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index 9bf17ff..e3be72a 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -335,6 +335,7 @@ class AsyncIO:
         
         raw = await executor.execute(self._io.detach)
         self._executor = None
+        executor.release()
         return raw
     
     
@@ -1060,6 +1061,7 @@ class ReuAsyncIO(AsyncIO):
         
         raw = await executor.execute(self._io.detach)
         self._executor = None
+        executor.release()
         self._should_seek = False
         return raw
     
-- 
2.43.0


From f642c22422af9383df36eed0a96463f74702f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 145/242] fix: executor threads kept the last executed function
 and its outcome alive

---
 scarletio/core/event_loop/executor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index b74263d..587bb22 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -390,11 +390,13 @@ class ExecutorThread(Thread):
                     return
                 
                 future = pair.future
+                func = pair.func
+                pair = None
                 if future.is_done():
                     future = None
+                    func = None
                     continue
                 
-                func = pair.func
                 self.current_function = func
                 
                 try:
-- 
2.43.0


From 39fa1ef7fe403c6e6a1287f00d0034d1a5a7fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 146/242] fix: analyzing a callable with a required keyword
 only parameter after an optional one raised

---
 scarletio/utils/analyzer.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index 214309f..e55a307 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -544,14 +544,7 @@ class CallableAnalyzer:
                     default_index += 1
             
             if (default_keyword_only_parameter_values is not None) and default_keyword_only_parameter_values:
-                parameter_index = keyword_only_parameter_count - len(default_keyword_only_parameter_values)
-                while parameter_index < keyword_only_parameter_count:
-                    name = keyword_only_parameter_names[parameter_index]
-                    default = default_keyword_only_parameter_values[name]
-                    
-                    names_to_defaults[name] = default
-                    
-                    parameter_index += 1
+                names_to_defaults.update(default_keyword_only_parameter_values)
             
             if (method_allocation > parameter_count) and (args_name is None):
                 raise TypeError(
-- 
2.43.0


From ce1355fbab2cc311830832883f8e78e85fb58140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 147/242] fix: required keyword only parameters after an
 optional one were not counted by the analyzer

---
 scarletio/utils/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index e55a307..a6b343f 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -804,7 +804,7 @@ class CallableAnalyzer:
                 continue
             
             if value.has_default:
-                break
+                continue
             
             count += 1
             continue
-- 
2.43.0


From c131581f0658754a6409a9c446148cafeb82f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 148/242] fix: the positional parameter range of the analyzer
 counted reserved, keyword and keyword only parameters

---
 scarletio/utils/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index a6b343f..0279fcf 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -934,7 +934,6 @@ class CallableAnalyzer:
                 continue
             
             if parameter.has_default:
-                start = index
                 break
             
             index += 1
@@ -946,6 +945,7 @@ class CallableAnalyzer:
         
         end = start
         while index < length:
+            parameter = parameters[index]
             if not parameter.is_positional():
                 return start, end
             
-- 
2.43.0


From 42e00719ad219774f925d2dc154705870c5ed225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 149/242] fix: types accepting `*args` or `**kwargs` could not
 be instanced by the analyzer

---
 scarletio/utils/analyzer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index 0279fcf..50a09fb 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -748,6 +748,9 @@ class CallableAnalyzer:
             if parameter.has_default:
                 continue
             
+            if parameter.is_args() or parameter.is_kwargs():
+                continue
+            
             return False
         
         return True
@@ -771,11 +774,16 @@ class CallableAnalyzer:
             if parameter.has_default:
                 continue
             
+            if parameter.is_args() or parameter.is_kwargs():
+                continue
+            
             return False
         
         return True
     
     
+    
+    
     # call `.can_instance_async_callable`, `.can_instance_to_async_generator` before
     def instance(self):
         """
-- 
2.43.0


From f3172222fa107f72162fc5dc829727047539ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 150/242] fix: the name of a rich analyzer could not be
 retrieved

---
 scarletio/utils/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index 50a09fb..238c31b 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -1120,7 +1120,7 @@ class RichAnalyzer:
         -------
         name : `str`
         """
-        return self._analyzer.__name__
+        return self._analyzer.callable.__name__
     
     
     @property
-- 
2.43.0


From 2c2cd3f171d2d1c5a9241167bebdea597460db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 151/242] fix: match octal and binary integers before decimal
 ones when highlighting

---
 scarletio/utils/highlight/matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/highlight/matching.py b/scarletio/utils/highlight/matching.py
index f91ed5f..398a48d 100755
--- a/scarletio/utils/highlight/matching.py
+++ b/scarletio/utils/highlight/matching.py
@@ -975,9 +975,9 @@ PYTHON_PARSERS = (
     _try_match_complex,
     _try_match_float,
     _try_match_integer_hexadecimal,
-    _try_match_integer_decimal,
     _try_match_integer_octal,
     _try_match_integer_binary,
+    _try_match_integer_decimal,
     _try_match_identifier,
     _try_match_punctuation,
     _try_match_operator,
-- 
2.43.0


From 62e7846fcd02d10753a4b0e95fa8c49d7e420cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 152/242] fix: highlight floats with only an exponent and
 imaginary integers as one number

---
 scarletio/utils/highlight/constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/highlight/constants.py b/scarletio/utils/highlight/constants.py
index 9bd01f7..17fbec7 100755
--- a/scarletio/utils/highlight/constants.py
+++ b/scarletio/utils/highlight/constants.py
@@ -7,10 +7,11 @@ from .word_pattern import create_word_pattern
 
 
 COMPLEX_RP = re_compile(
-    '((?:\\d(?:_?\\d)*\\.\\d(?:_?\\d)*|\\d(?:_?\\d)*\\.|\\.\\d(?:_?\\d)*)(?:[eE][+-]?\\d(?:_?\\d)*)?[jJ])'
+    '((?:\\d(?:_?\\d)*\\.\\d(?:_?\\d)*|\\d(?:_?\\d)*\\.?|\\.\\d(?:_?\\d)*)(?:[eE][+-]?\\d(?:_?\\d)*)?[jJ])'
 )
 FLOAT_RP = re_compile(
-    '((?:\\d(?:_?\\d)*\\.\\d(?:_?\\d)*|\\d(?:_?\\d)*\\.|\\.\\d(?:_?\\d)*)(?:[eE][+-]?\\d(?:_?\\d)*)?)'
+    '((?:\\d(?:_?\\d)*\\.\\d(?:_?\\d)*|\\d(?:_?\\d)*\\.|\\.\\d(?:_?\\d)*)(?:[eE][+-]?\\d(?:_?\\d)*)?|'
+    '\\d(?:_?\\d)*[eE][+-]?\\d(?:_?\\d)*)'
 )
 INTEGER_HEXADECIMAL_RP = re_compile('(0[xX](?:_?[0-9a-fA-F])+)')
 INTEGER_DECIMAL_RP = re_compile('(\\d(?:_?\\d)*)')
-- 
2.43.0


From 5af59ed11a7499aa3db520060707edc4a446053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 153/242] fix: highlight identifiers that contain non-ascii
 letters as identifiers

---
 scarletio/utils/highlight/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/highlight/constants.py b/scarletio/utils/highlight/constants.py
index 17fbec7..4dc5c80 100755
--- a/scarletio/utils/highlight/constants.py
+++ b/scarletio/utils/highlight/constants.py
@@ -17,7 +17,7 @@ INTEGER_HEXADECIMAL_RP = re_compile('(0[xX](?:_?[0-9a-fA-F])+)')
 INTEGER_DECIMAL_RP = re_compile('(\\d(?:_?\\d)*)')
 INTEGER_OCTAL_RP = re_compile('(0[oO](?:_?[0-7])+)')
 INTEGER_BINARY_RP = re_compile('(0[bB](?:_?[01])+)')
-IDENTIFIER_RP = re_compile('([a-zA-Z_][a-zA-Z_0-9]*)')
+IDENTIFIER_RP = re_compile('([^\\W\\d]\\w*)')
 
 ATTRIBUTE_ACCESS_OPERATOR = '.'
 KEYWORD_ELLIPSIS = '...'
-- 
2.43.0


From 3dbd2454d72f627ef3b1b804e6c2da798967966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 154/242] fix: highlight `~` and `:=` as operators

---
 scarletio/utils/highlight/constants.py | 2 +-
 scarletio/utils/highlight/matching.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/highlight/constants.py b/scarletio/utils/highlight/constants.py
index 4dc5c80..cd32bfe 100755
--- a/scarletio/utils/highlight/constants.py
+++ b/scarletio/utils/highlight/constants.py
@@ -103,7 +103,7 @@ OPERATOR_WORDS = {
 }
 
 OPERATORS = {
-    '!=', '%', '%=', '&', '&=', '*', '**', '**=', '*=', '+', '+=', '-', '-=', '->', '.', '...', '/', '//', '//=', '/=',
+    '!=', ':=', '~', '%', '%=', '&', '&=', '*', '**', '**=', '*=', '+', '+=', '-', '-=', '->', '.', '...', '/', '//', '//=', '/=',
     '<', '<<', '<<=', '<=', '=', '==', '>', '>=', '>>', '>>=', '@', '@=', '\\', '^', '^=', '|', '|='
 }
 
diff --git a/scarletio/utils/highlight/matching.py b/scarletio/utils/highlight/matching.py
index 398a48d..2e1ed63 100755
--- a/scarletio/utils/highlight/matching.py
+++ b/scarletio/utils/highlight/matching.py
@@ -979,8 +979,8 @@ PYTHON_PARSERS = (
     _try_match_integer_binary,
     _try_match_integer_decimal,
     _try_match_identifier,
-    _try_match_punctuation,
     _try_match_operator,
+    _try_match_punctuation,
     _try_match_line_break,
     _try_match_anything,
 )
-- 
2.43.0


From f474b355cf8b038a2b611e329399eb495e931ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 155/242] fix: accept upper case and `u` string prefixes when
 highlighting

---
 scarletio/utils/highlight/constants.py | 2 +-
 scarletio/utils/highlight/matching.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/highlight/constants.py b/scarletio/utils/highlight/constants.py
index cd32bfe..d20d9ff 100755
--- a/scarletio/utils/highlight/constants.py
+++ b/scarletio/utils/highlight/constants.py
@@ -107,7 +107,7 @@ OPERATORS = {
     '<', '<<', '<<=', '<=', '=', '==', '>', '>=', '>>', '>>=', '@', '@=', '\\', '^', '^=', '|', '|='
 }
 
-STRING_STARTER_RP = re_compile('(r[fb]?|[fb]r?|b|f)?(\'{3}|\"{3}|\'|\")')
+STRING_STARTER_RP = re_compile('([rR][fFbB]?|[fFbB][rR]?|[uU])?(\'{3}|\"{3}|\'|\")')
 
 SPACE_MATCH_RP = re_compile('([ \t]+)')
 
diff --git a/scarletio/utils/highlight/matching.py b/scarletio/utils/highlight/matching.py
index 2e1ed63..92c8023 100755
--- a/scarletio/utils/highlight/matching.py
+++ b/scarletio/utils/highlight/matching.py
@@ -584,11 +584,11 @@ def _try_match_string(context):
         prefix_token_type = TOKEN_TYPE_STRING_UNICODE_SPECIAL_PREFIX
         encapsulator_token_type = TOKEN_TYPE_STRING_UNICODE_SPECIAL_QUOTE_OPEN
         string_parsing_flags = HIGHLIGHT_PARSER_FLAG_IN_STRING_UNICODE
-    elif 'b' in prefix:
+    elif 'b' in prefix.casefold():
         prefix_token_type = TOKEN_TYPE_STRING_BINARY_SPECIAL_PREFIX
         encapsulator_token_type = TOKEN_TYPE_STRING_BINARY_SPECIAL_QUOTE_OPEN
         string_parsing_flags = HIGHLIGHT_PARSER_FLAG_IN_STRING_BINARY
-    elif 'f' in prefix:
+    elif 'f' in prefix.casefold():
         prefix_token_type = TOKEN_TYPE_STRING_UNICODE_SPECIAL_PREFIX
         encapsulator_token_type = TOKEN_TYPE_STRING_UNICODE_SPECIAL_QUOTE_OPEN
         string_parsing_flags = HIGHLIGHT_PARSER_FLAG_IN_STRING_UNICODE | HIGHLIGHT_PARSER_FLAG_IN_STRING_FORMAT
-- 
2.43.0


From d31040208ffb9ff49bc3bc4a16a81c8fcae51a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 156/242] fix: close the replacement field of an unfinished
 format string when highlighting

---
 scarletio/utils/highlight/matching.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/highlight/matching.py b/scarletio/utils/highlight/matching.py
index 92c8023..6b9905d 100755
--- a/scarletio/utils/highlight/matching.py
+++ b/scarletio/utils/highlight/matching.py
@@ -929,6 +929,7 @@ def _consume_format_string_until(context, end_string):
                     )
                 
                 context.add_token(TOKEN_TYPE_STRING_FORMAT_MARK_BRACE_OPEN, 1)
+                layer_index = context.layer_inner_index
                 
                 # are we entering a format string?
                 with context.enter(
@@ -944,16 +945,18 @@ def _consume_format_string_until(context, end_string):
                     _keep_python_parsing(context)
                     nested_flags = context.flags
                 
+                # Close the replacement field if it was interrupted.
+                if context.layer_inner_index >= layer_index:
+                    context.add_token(TOKEN_TYPE_STRING_FORMAT_MARK_BRACE_CLOSE, 0)
+                
                 if nested_flags & HIGHLIGHT_PARSER_FLAG_HIT_MULTI_LINE_CODE:
                     _end_parsing_if_no_multi_line_code(context)
-                    context.add_token(TOKEN_TYPE_STRING_FORMAT_MARK_BRACE_CLOSE, 0)
                     context.add_token(_get_string_token_type(context, end_string), 0)
                     return
                 
                 # end parsing if disabled flag is hit
                 if nested_flags & HIGHLIGHT_PARSER_FLAG_HIT_DISABLED_QUOTE:
                     context.flags |= HIGHLIGHT_PARSER_FLAG_HIT_DISABLED_QUOTE
-                    context.add_token(TOKEN_TYPE_STRING_FORMAT_MARK_BRACE_CLOSE, 0)
                     context.add_token(_get_string_token_type(context, end_string), 0)
                     return
                 
-- 
2.43.0


From 5ddf53e078d421061364d89fbb30a87b069653de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 157/242] fix: do not end a string at an escaped line break
 when highlighting

---
 scarletio/utils/highlight/matching.py | 38 +++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/scarletio/utils/highlight/matching.py b/scarletio/utils/highlight/matching.py
index 6b9905d..2179fc3 100755
--- a/scarletio/utils/highlight/matching.py
+++ b/scarletio/utils/highlight/matching.py
@@ -772,6 +772,36 @@ def _try_consume_string_till_end_of_line(context, unconsumed_since, index, end_s
     return 1 + end_parsing
 
 
+def _try_consume_escaped_line_break(context, unconsumed_since, index):
+    """
+    Tries to consume a line break that is escaped inside of a string (so it does not end the string).
+    
+    Parameters
+    ----------
+    context : ``HighlightParserContext``
+        The context to use.
+    
+    unconsumed_since : `int`
+        Where there is not consumed string inside of the content.
+    
+    index : `int`
+        Index of the character to process.
+    
+    Returns
+    -------
+    consumed : `bool`
+    """
+    if context.flags & (HIGHLIGHT_PARSER_FLAG_NO_MULTI_LINE_CODE | HIGHLIGHT_PARSER_FLAG_IN_STRING_FORMAT_CODE):
+        return False
+    
+    if not context.content.startswith('\\\n', index):
+        return False
+    
+    context.add_token(_get_string_token_type(context, None), index + 1 - unconsumed_since)
+    context.add_token(TOKEN_TYPE_LINE_BREAK, 1)
+    return True
+
+
 def _consume_string_until(context, end_string):
     """
     Consumes the string until the end string is met.
@@ -810,6 +840,10 @@ def _consume_string_until(context, end_string):
             
             character = content[content_character_index]
             
+            # an escaped line break does not end the string
+            if _try_consume_escaped_line_break(context, unconsumed_since, content_character_index):
+                break
+            
             # ignore escaped
             if (
                 (character == '\\') and
@@ -893,6 +927,10 @@ def _consume_format_string_until(context, end_string):
                 content_character_index += 2
                 continue
             
+            # an escaped line break does not end the string
+            if _try_consume_escaped_line_break(context, unconsumed_since, content_character_index):
+                break
+            
             # ignore escaped
             if (
                 (character == '\\') and
-- 
2.43.0


From c4804ada619ecdc68eecf9df0c8619b9d2104136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 158/242] fix: recognise a format string postfix that is
 followed by format code when highlighting

---
 scarletio/utils/highlight/constants.py | 2 +-
 scarletio/utils/highlight/matching.py  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/highlight/constants.py b/scarletio/utils/highlight/constants.py
index d20d9ff..119e8e7 100755
--- a/scarletio/utils/highlight/constants.py
+++ b/scarletio/utils/highlight/constants.py
@@ -113,7 +113,7 @@ SPACE_MATCH_RP = re_compile('([ \t]+)')
 
 CONSOLE_PREFIX_RP = re_compile('(>>>>?|\\.\\.\\.\\.?| *\\.\\.\\.\\:|In \\[\\d+\\]\\:)( [ \t]*)')
 
-FORMAT_STRING_POSTFIX_RP = re_compile('(![sraSRA])\\}')
+FORMAT_STRING_POSTFIX_RP = re_compile('(![sraSRA])([:}])')
 
 PUNCTUATION_WP = create_word_pattern(PUNCTUATIONS)
 OPERATOR_WP = create_word_pattern(OPERATORS)
diff --git a/scarletio/utils/highlight/matching.py b/scarletio/utils/highlight/matching.py
index 2179fc3..7a4e5d3 100755
--- a/scarletio/utils/highlight/matching.py
+++ b/scarletio/utils/highlight/matching.py
@@ -490,6 +490,10 @@ def _try_match_format_string_postfix(context):
         return False
     
     context.add_token(TOKEN_TYPE_STRING_FORMAT_POSTFIX, matched.end(1) - matched.start(1))
+    if matched.group(2) == ':':
+        # The postfix is followed by format code.
+        return True
+    
     context.add_token(TOKEN_TYPE_STRING_FORMAT_MARK_BRACE_CLOSE, 1)
     context.done = True
     return True
-- 
2.43.0


From 5ba45ca3f7ede1d5d107c4154cdbe878f367db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 159/242] fix: search_layer_index misses layers that have inner
 ones

---
 scarletio/utils/highlight/utils.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/scarletio/utils/highlight/utils.py b/scarletio/utils/highlight/utils.py
index de5181e..72abc5a 100755
--- a/scarletio/utils/highlight/utils.py
+++ b/scarletio/utils/highlight/utils.py
@@ -355,25 +355,26 @@ def search_layer_index(layers, token_index):
     -------
     index : `int`
     """
+    # Find the last layer that starts at or before the token.
     low = 0
     high = len(layers)
     
     while low < high:
         mid = (low + high) >> 1
         
-        layer = layers[mid]
-        if token_index < layer.token_start_index:
+        if token_index < layers[mid].token_start_index:
             high = mid
-            continue
-        
-        if token_index > layer.token_end_index:
+        else:
             low = mid + 1
-            continue
-        
-        index = mid
-        break
     
-    else:
-        index = -1
+    index = low - 1
+    
+    # It may end before the token, in that case it is in an outer one.
+    while index != -1:
+        layer = layers[index]
+        if token_index <= layer.token_end_index:
+            break
+        
+        index = layer.layer_outer_index
     
     return index
-- 
2.43.0


From 28762ad575a6f529e019934d90829ffc77387d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 160/242] fix: extend the expression of a line only with the
 brackets that the line opens or closes

---
 .../expression_parsing/expression_info.py     | 54 ++++++++++++++-----
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/scarletio/utils/trace/expression_parsing/expression_info.py b/scarletio/utils/trace/expression_parsing/expression_info.py
index 4007b6c..364ec19 100755
--- a/scarletio/utils/trace/expression_parsing/expression_info.py
+++ b/scarletio/utils/trace/expression_parsing/expression_info.py
@@ -191,6 +191,29 @@ class ExpressionInfo:
         return self.line.splitlines()
 
 
+def _get_layer_index_before_token(layers, token_index):
+    """
+    Gets the index of the inner-most layer that started before the given token, but did not end before it.
+    
+    Parameters
+    ----------
+    layers : ``list<Layer>``
+        Layers to search in.
+    
+    token_index : `int`
+        Token index to search for.
+    
+    Returns
+    -------
+    layer_index : `int`
+    """
+    layer_index = search_layer_index(layers, token_index)
+    if (layer_index != -1) and (layers[layer_index].token_start_index == token_index):
+        layer_index = layers[layer_index].layer_outer_index
+    
+    return layer_index
+
+
 def get_expression_area(file_name, line_index):
     """
     Gets the expression's area.
@@ -223,18 +246,25 @@ def get_expression_area(file_name, line_index):
         expression_character_end_index = 0
     
     else:
-        layer_index_start = search_layer_index(layers, expression_token_start_index)
-        layer_index_end = search_layer_index(layers, expression_token_end_index)
-        if layer_index_start != layer_index_end:
-            if layer_index_start != -1:
-                expression_line_start_index = tokens[layers[layer_index_start].token_start_index].line_index
-                expression_token_start_index = search_line_start_index_in_tokens(tokens, expression_line_start_index)
-            
-            if (expression_token_end_index != len(tokens)) and (layer_index_end != -1):
-                expression_token_end_index = layers[layer_index_end].token_end_index
-                expression_line_end_index = tokens[expression_token_end_index].line_index
-                expression_token_end_index = search_line_end_index_in_tokens(tokens, expression_line_end_index)
-            
+        layer_index_start = _get_layer_index_before_token(layers, expression_token_start_index)
+        layer_index_end = _get_layer_index_before_token(layers, expression_token_end_index)
+        
+        # Layers are ordered by their start, so the layers that are not common are reached by leaving the later one.
+        while layer_index_start != layer_index_end:
+            if layer_index_start > layer_index_end:
+                # Started before the line and ends on it.
+                layer = layers[layer_index_start]
+                expression_line_start_index = tokens[layer.token_start_index].line_index
+                layer_index_start = layer.layer_outer_index
+            else:
+                # Started on the line and ends after it.
+                layer = layers[layer_index_end]
+                expression_line_end_index = tokens[layer.token_end_index].line_index
+                layer_index_end = layer.layer_outer_index
+        
+        expression_token_start_index = search_line_start_index_in_tokens(tokens, expression_line_start_index)
+        expression_token_end_index = search_line_end_index_in_tokens(tokens, expression_line_end_index)
+        
         expression_character_start_index = tokens[expression_token_start_index].content_character_index
         if expression_token_end_index == len(tokens):
             expression_character_end_index = len(file_info.content)
-- 
2.43.0


From 53d8e37d18aa2f80bcbfb08dbed70eb2fc369eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 161/242] fix: reset the previous text decoration when an other
 follows it

---
 scarletio/utils/highlight/formatter_detail/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/highlight/formatter_detail/ansi.py b/scarletio/utils/highlight/formatter_detail/ansi.py
index 9aefcce..83fb4db 100755
--- a/scarletio/utils/highlight/formatter_detail/ansi.py
+++ b/scarletio/utils/highlight/formatter_detail/ansi.py
@@ -136,7 +136,7 @@ class FormatterDetailANSI(FormatterDetailBase):
         if (
             ((self_background_color is not None) and (other_background_color is None)) or
             ((self_foreground_color is not None) and (other_foreground_color is None)) or
-            ((self_text_decoration is not None) and (other_text_decoration is None))
+            ((self_text_decoration is not None) and (self_text_decoration != other_text_decoration))
         ):
             yield from iter_produce_ansi_format_code(
                 True, other_text_decoration, other_background_color, other_foreground_color
-- 
2.43.0


From a885b17d83a8258a54105c0d13c06f5534f20912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 162/242] fix: a root formatter node keeps its detail when it
 is removed

---
 scarletio/utils/highlight/formatter_node.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/highlight/formatter_node.py b/scarletio/utils/highlight/formatter_node.py
index e28995a..fa88f3d 100755
--- a/scarletio/utils/highlight/formatter_node.py
+++ b/scarletio/utils/highlight/formatter_node.py
@@ -116,9 +116,10 @@ class FormatterNode:
                 parent = self.parent
                 if (parent is not None):
                     detail = parent.detail
-                    # Only continue if the html classes are different
-                    if (self.detail != detail):
-                        self._set_detail(detail)
+                
+                # Only continue if the html classes are different
+                if (self.detail != detail):
+                    self._set_detail(detail)
         
         else:
             self.direct = direct
-- 
2.43.0


From 2e3f751d8544de0ccda3c77e036a235df4a755ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 163/242] fix: stream_split_ansi_format_codes takes text after
 an incomplete format code as format code

---
 scarletio/utils/highlight/ansi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/utils/highlight/ansi.py b/scarletio/utils/highlight/ansi.py
index 839b13c..4d36104 100755
--- a/scarletio/utils/highlight/ansi.py
+++ b/scarletio/utils/highlight/ansi.py
@@ -137,6 +137,7 @@ def stream_split_ansi_format_codes(stream):
                 end_block = False
                 part_length = len(part)
             
+            end_block = False
             end_index = part.find('\033', start_index)
             if end_index == -1:
                 end_index = part_length
-- 
2.43.0


From e81914249518fa4b57d77e06fb92eae7864f24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 164/242] fix: highlight an attribute on the next line of its
 attribute access operator as attribute

---
 scarletio/utils/highlight/parser_context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/utils/highlight/parser_context.py b/scarletio/utils/highlight/parser_context.py
index 078d38a..92f3dff 100755
--- a/scarletio/utils/highlight/parser_context.py
+++ b/scarletio/utils/highlight/parser_context.py
@@ -337,9 +337,13 @@ class HighlightParserContext(RichAttributeErrorBaseType):
         for token in reversed(tokens):
             token_type = token.type
             
+            if token_type == TOKEN_TYPE_LINE_BREAK:
+                continue
+            
             if token_type == TOKEN_TYPE_LINE_BREAK_ESCAPED:
                 continue
             
+            
             if token_type == TOKEN_TYPE_SPACE:
                 continue
             
-- 
2.43.0


From 82d8c5266542b53b0bf40836481d92b40252dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 165/242] fix: the pointer of syntax errors without a known
 end, or ending on an other line

---
 .../exception_representation_syntax_error.py          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py b/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
index 5e00f6b..f950602 100755
--- a/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
+++ b/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
@@ -50,9 +50,16 @@ class ExceptionRepresentationSyntaxError(ExceptionRepresentationBase):
         pointer_start_offset = frames[2] - 1
         line = frames[3]
         
-        if len(frames) == 6:
-            pointer_end_offset = frames[5] - 1
+        if len(frames) == 4:
+            pointer_end_offset = pointer_start_offset + 1
+        elif (frames[4] > frames[1]) and (line is not None):
+            # The error ends on an other line, point till the end of the shown one.
+            pointer_end_offset = len(line.rstrip())
         else:
+            pointer_end_offset = frames[5] - 1
+        
+        # The end is not always known.
+        if pointer_end_offset <= pointer_start_offset:
             pointer_end_offset = pointer_start_offset + 1
         
         if (file_name is None):
-- 
2.43.0


From ee4b4c1dce5175f78c50a80c22ac7dc31192b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 166/242] fix: rendering an attribute error failed if `dir` of
 the instance was broken

---
 .../familiar_instance_attribute_names.py      | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py b/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py
index 59f4db4..5115718 100755
--- a/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py
+++ b/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py
@@ -16,19 +16,22 @@ def _get_instance_attributes(instance):
     -------
     attribute_names : `set<str>`
     """
-    attribute_names = {*object.__dir__(instance)}
-    
-    attribute_names_getter = type(instance).__dir__
-    if (attribute_names_getter is not None) and (attribute_names_getter is not object.__dir__):
-        try:
-            custom_names = attribute_names_getter(instance)
-        except Exception:
-            pass
-        else:
-            attribute_names.update(custom_names)
-    
-    attribute_names.update()
-    return attribute_names
+    attribute_names = set()
+    
+    # Both calls can execute user code, which can do anything.
+    try:
+        attribute_names.update(object.__dir__(instance))
+    except Exception:
+        pass
+    
+    try:
+        attribute_names_getter = type(instance).__dir__
+        if (attribute_names_getter is not None) and (attribute_names_getter is not object.__dir__):
+            attribute_names.update(attribute_names_getter(instance))
+    except Exception:
+        pass
+    
+    return {name for name in attribute_names if issubclass(type(name), str)}
 
 
 def get_familiar_instance_attribute_names(instance, name):
-- 
2.43.0


From fe69976a18e0e57e85f146d7ca7f85352dafadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 167/242] fix: rendering an attribute error failed if getting
 an attribute of a variable raised

---
 .../suggestion/matching_variable_names_with_attribute.py  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py b/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py
index 4feeea1..2eb900c 100755
--- a/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py
+++ b/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py
@@ -22,7 +22,13 @@ def get_matching_variable_names_with_attribute(frame, name):
     matches = []
     
     for variable_name, variable_value in _iter_unique_variables(frame):
-        if hasattr(variable_value, name):
+        # Getting an attribute of an object can execute user code, which can do anything.
+        try:
+            has_attribute = hasattr(variable_value, name)
+        except Exception:
+            continue
+        
+        if has_attribute:
             matches.append(variable_name)
     
     if not matches:
-- 
2.43.0


From 980ebb51733a35650e9e1b985faca59528b6d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 168/242] fix: rendering an attribute error failed if the
 variables of the frame were not all strings or changed meanwhile

---
 .../suggestion/helpers_variables.py           | 53 +++++++++++--------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/scarletio/utils/trace/exception_representation/suggestion/helpers_variables.py b/scarletio/utils/trace/exception_representation/suggestion/helpers_variables.py
index 1520181..ab95169 100755
--- a/scarletio/utils/trace/exception_representation/suggestion/helpers_variables.py
+++ b/scarletio/utils/trace/exception_representation/suggestion/helpers_variables.py
@@ -1,6 +1,31 @@
 __all__ = ()
 
 
+def _get_items(variables):
+    """
+    Gets the items of the given variables.
+    
+    The variables can be any mapping, can have any keys, and can be modified by other threads or by the code executed
+    while looking at them.
+    
+    Parameters
+    ----------
+    variables : `None | dict<str, object>`
+        The variables to get the items of.
+    
+    Returns
+    -------
+    items : `list<(str, object)>`
+    """
+    if variables is None:
+        return []
+    
+    try:
+        return [(name, value) for name, value in [*variables.items()] if issubclass(type(name), str)]
+    except Exception:
+        return []
+
+
 def _get_variable_names(frame):
     """
     Gets the variable names from the given frame proxy for suggestions.
@@ -17,17 +42,9 @@ def _get_variable_names(frame):
     variable_names = set()
     
     if (frame is not None):
-        locals = frame.locals
-        if (locals is not None):
-            variable_names.update(locals.keys())
-        
-        globals = frame.globals
-        if (globals is not None):
-            variable_names.update(globals.keys())
-        
-        builtins = frame.builtins
-        if (builtins is not None):
-            variable_names.update(builtins.keys())
+        for variables in (frame.locals, frame.globals, frame.builtins):
+            variable_names.update(name for name, value in _get_items(variables))
+    
         
     return variable_names
 
@@ -47,17 +64,9 @@ def _iter_variables(frame_proxy):
     variable_value : `object`
     """
     if (frame_proxy is not None):
-        locals = frame_proxy.locals
-        if (locals is not None):
-            yield from locals.items()
-        
-        globals = frame_proxy.globals
-        if (globals is not None):
-            yield from globals.items()
-        
-        builtins = frame_proxy.builtins
-        if (builtins is not None):
-            yield from builtins.items()
+        yield from _get_items(frame_proxy.locals)
+        yield from _get_items(frame_proxy.globals)
+        yield from _get_items(frame_proxy.builtins)
 
 
 def _iter_unique_variables(frame_proxy):
-- 
2.43.0


From bd0d9c1003a3148ed6cf4f3559117b94ea4fd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 169/242] fix: rendering an attribute error practically never
 ended if the name of the attribute had many words

---
 .../suggestion/helpers_familiarity.py                      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py b/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py
index cd4f0bc..0441023 100755
--- a/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py
+++ b/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py
@@ -9,6 +9,9 @@ from itertools import permutations as permutate
 
 SUGGESTIONS_MAX = 25
 
+# The count of the permutations of the words of a name is the factorial of the count of the words.
+PERMUTATED_WORDS_MAX = 5
+
 
 def _split_part_by_numbers(part):
     """
@@ -159,6 +162,10 @@ def _iter_name_aliases(name):
     alternative_name : `str`
     """
     words = [*_iter_split_name_to_words(name)]
+    if len(words) > PERMUTATED_WORDS_MAX:
+        yield '_'.join([word.casefold() for word in words])
+        return
+    
     for permutation in permutate(words, len(words)):
         yield '_'.join([word.casefold() for word in permutation])
 
-- 
2.43.0


From c063a0cad8e4ce8adc24c7c7f0e61d1772f05ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 170/242] fix: rendering exceptions leading to themselves never
 ended

---
 scarletio/utils/trace/trace.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/scarletio/utils/trace/trace.py b/scarletio/utils/trace/trace.py
index 092919f..adaa33d 100755
--- a/scarletio/utils/trace/trace.py
+++ b/scarletio/utils/trace/trace.py
@@ -5,10 +5,11 @@ from ..cause_group import CauseGroup
 from ..highlight import HIGHLIGHT_TOKEN_TYPES, get_highlight_streamer
 
 from .exception_proxy import ExceptionProxyRich
+from .exception_representation import get_exception_representation
 from .frame_grouping import group_frames
 from .frame_ignoring import should_keep_frame
 from .frame_proxy import convert_frames_to_frame_proxies, populate_frame_proxies
-from .rendering import produce_frame_groups, produce_exception_proxy
+from .rendering import produce_exception_proxy, produce_exception_representation, produce_frame_groups
 
 
 def render_frames_into(frames, extend = None, *, filter = None, highlighter = None):
@@ -132,8 +133,9 @@ def _produce_exception(exception, filter):
     ------
     token_type_and_part : `(int, str)`
     """
+    in_progress = set()
     renderer_queue = []
-    renderer_queue.append(_produce_exception_step(exception, filter))
+    renderer_queue.append(_produce_exception_step(exception, filter, in_progress))
     
     while renderer_queue:
         renderer = renderer_queue[-1]
@@ -144,11 +146,11 @@ def _produce_exception(exception, filter):
             del renderer_queue[-1]
             continue
         
-        renderer_queue.append(_produce_exception_step(exception, filter))
+        renderer_queue.append(_produce_exception_step(exception, filter, in_progress))
         continue
 
 
-async def _produce_exception_step(exception, filter):
+async def _produce_exception_step(exception, filter, in_progress):
     """
     Produces the given exception's frames into a list of strings.
     When meets a nested exception to render (in a cause group), yields it back.
@@ -163,6 +165,9 @@ async def _produce_exception_step(exception, filter):
     filter : `None | callable`
         Additional filter to check whether a frame should be shown.
     
+    in_progress : `set<int>`
+        The identifiers of the exceptions that are being rendered. Used to detect exceptions leading to themselves.
+    
     Async Yields
     ------------
     exception : `BaseException`
@@ -171,13 +176,23 @@ async def _produce_exception_step(exception, filter):
     ------
     token_type_and_part : `(int, str)`
     """
+    if id(exception) in in_progress:
+        # Its frames are shown outside.
+        for token_type_and_part in produce_exception_representation(get_exception_representation(exception, None)):
+            await _yield(token_type_and_part)
+        return
+    
     exceptions = []
     reason_type = REASON_TYPE_NONE
     while True:
         exceptions.append((exception, reason_type))
+        in_progress.add(id(exception))
         
         cause_exception = exception.__cause__
         if (cause_exception is not None):
+            if id(cause_exception) in in_progress:
+                break
+            
             exception = cause_exception
             if isinstance(exception, CauseGroup):
                 reason_type = REASON_TYPE_CAUSE_GROUP
@@ -187,7 +202,7 @@ async def _produce_exception_step(exception, filter):
         
         if not exception.__suppress_context__:
             context_exception = exception.__context__
-            if (context_exception is not None):
+            if (context_exception is not None) and (id(context_exception) not in in_progress):
                 exception = context_exception
                 reason_type = REASON_TYPE_CONTEXT
                 continue
@@ -239,6 +254,9 @@ async def _produce_exception_step(exception, filter):
             await _yield_title_and_line_break(title, 2)
         
         continue
+    
+    for exception, reason_type in exceptions:
+        in_progress.discard(id(exception))
 
 
 @to_coroutine
-- 
2.43.0


From a342b98a0eac0847cf3c09175ba1e4630d1df0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 171/242] fix: rendering an exception failed if `__str__` of
 the string it was created with raised

---
 .../exception_representation/attribute_error_helpers.py   | 2 +-
 .../exception_representation/representation_helpers.py    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scarletio/utils/trace/exception_representation/attribute_error_helpers.py b/scarletio/utils/trace/exception_representation/attribute_error_helpers.py
index 62f39e1..0c5c27f 100755
--- a/scarletio/utils/trace/exception_representation/attribute_error_helpers.py
+++ b/scarletio/utils/trace/exception_representation/attribute_error_helpers.py
@@ -58,7 +58,7 @@ def extract_attribute_error_fields(exception):
     
     attribute_name = ATTRIBUTE_NAME_SLOT.__get__(exception, type(exception))
     if type(attribute_name) is not str:
-        attribute_name = str(attribute_name)
+        attribute_name = str.__str__(attribute_name)
     
     return instance, attribute_name
 
diff --git a/scarletio/utils/trace/exception_representation/representation_helpers.py b/scarletio/utils/trace/exception_representation/representation_helpers.py
index dac0fcb..dfc91d9 100755
--- a/scarletio/utils/trace/exception_representation/representation_helpers.py
+++ b/scarletio/utils/trace/exception_representation/representation_helpers.py
@@ -24,7 +24,7 @@ def _get_type_name(type_):
     
     # Note that you can only set `str` as `.__name__`, but subclasses are also allowed.
     if type(type_name) is not str:
-        type_name = str(type_name)
+        type_name = str.__str__(type_name)
     
     return type_name
 
@@ -52,7 +52,7 @@ def _get_value_representation(value):
     else:
         # `repr()` can only return `str` instance including sub-types, so no need for `instance` check.
         if type(representation) is not str:
-            representation = str(representation)
+            representation = str.__str__(representation)
     
     return representation
 
@@ -191,7 +191,7 @@ def _get_exception_representation_simple(exception):
         # Get value representation only if value is not `str`.
         value = exception_parameters[0]
         if issubclass(type(value), str):
-            value = str(value)
+            value = str.__str__(value)
         else:
             value = _get_value_representation(value)
         
@@ -225,7 +225,7 @@ def get_exception_representation_generic(exception):
         pass
     else:
         if type(exception_representation) is not str:
-            exception_representation = str(exception_representation)
+            exception_representation = str.__str__(exception_representation)
         return exception_representation
     
     return _get_exception_representation_fallback(exception)
-- 
2.43.0


From 1214ad9750fd20e92ca35763a7c9ae7102fbcd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 172/242] fix: rendering exceptions on more threads could fail
 with the sessions changing meanwhile

---
 scarletio/utils/trace/expression_parsing/file_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/trace/expression_parsing/file_info.py b/scarletio/utils/trace/expression_parsing/file_info.py
index 7de9ccf..9b97342 100755
--- a/scarletio/utils/trace/expression_parsing/file_info.py
+++ b/scarletio/utils/trace/expression_parsing/file_info.py
@@ -229,7 +229,8 @@ def get_file_info(file_name):
     
     # Put file to temporary cache
     FILE_INFO_CACHE[file_name] = file_info
-    for line_cache_context in LINE_CACHE_SESSIONS:
+    # Other threads can add and remove sessions too.
+    for line_cache_context in [*LINE_CACHE_SESSIONS]:
         line_cache_context.memorized_file_infos.add(file_info)
     
     return file_info
-- 
2.43.0


From 8e21df93813947365356ae30861ee0ce82efe75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:30 +0000
Subject: [PATCH 173/242] fix: the old content of a changed file was shown
 while anything held it

---
 scarletio/utils/trace/expression_parsing/file_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/trace/expression_parsing/file_info.py b/scarletio/utils/trace/expression_parsing/file_info.py
index 9b97342..3067001 100755
--- a/scarletio/utils/trace/expression_parsing/file_info.py
+++ b/scarletio/utils/trace/expression_parsing/file_info.py
@@ -204,7 +204,8 @@ def get_file_info(file_name):
         except KeyError:
             pass
         else:
-            break
+            if file_info.is_up_to_date():
+                break
         
         # Try create
         try:
-- 
2.43.0


From aab5265ec1c961ed4328b007ffce22705c76ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:30 +0000
Subject: [PATCH 174/242] fix: the lines of strings were not dedented together
 with the other lines of the trace

---
 scarletio/utils/trace/rendering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scarletio/utils/trace/rendering.py b/scarletio/utils/trace/rendering.py
index c940295..b765f8d 100755
--- a/scarletio/utils/trace/rendering.py
+++ b/scarletio/utils/trace/rendering.py
@@ -162,12 +162,12 @@ def produce_frame_proxy(frame):
         
         token_content_character_index = token.content_character_index
         length = token.length
+        if not length:
+            # Closes something unfinished, the line starts with the next one.
+            continue
         
-        if (
-            previous_character_line_break and
-            removed_indentation_characters and
-            (token_type == HIGHLIGHT_TOKEN_TYPES.TOKEN_TYPE_SPACE)
-        ):
+        # Every not empty line starts with at least this many, the ones inside of a string too.
+        if previous_character_line_break and removed_indentation_characters:
             token_content_character_index += removed_indentation_characters
             length -= removed_indentation_characters
         
-- 
2.43.0


From 7b2e239bcaaf8ade0d86e36689d7cec1bdfebf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 175/242] fix: rendering a syntax error failed if its type
 overwrote `args`

---
 .../exception_representation_syntax_error.py                  | 2 +-
 .../trace/exception_representation/syntax_error_helpers.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py b/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
index f950602..423176a 100755
--- a/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
+++ b/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
@@ -40,7 +40,7 @@ class ExceptionRepresentationSyntaxError(ExceptionRepresentationBase):
         frames : `None | list<FrameProxyBase>`
             The frames the exception is raised with.
         """
-        message, frames = exception.args
+        message, frames = BaseException.args.__get__(exception, type(exception))
         
         if (message is None):
             message = ''
diff --git a/scarletio/utils/trace/exception_representation/syntax_error_helpers.py b/scarletio/utils/trace/exception_representation/syntax_error_helpers.py
index d093fd6..24f24f7 100755
--- a/scarletio/utils/trace/exception_representation/syntax_error_helpers.py
+++ b/scarletio/utils/trace/exception_representation/syntax_error_helpers.py
@@ -85,7 +85,7 @@ def is_syntax_error(exception):
     if not issubclass(type(exception), SyntaxError):
         return False
     
-    exception_parameters = type(exception).args.__get__(exception, type(exception))
+    exception_parameters = BaseException.args.__get__(exception, type(exception))
     if (not isinstance(exception_parameters, tuple)) or (len(exception_parameters) != 2):
         return False
     
@@ -134,7 +134,7 @@ def is_syntax_error_details_omitted(exception):
     -------
     details_omitted : `bool`
     """
-    exception_parameters = type(exception).args.__get__(exception, type(exception))
+    exception_parameters = BaseException.args.__get__(exception, type(exception))
     if (not isinstance(exception_parameters, tuple)) or (len(exception_parameters) != 1):
         return False
     
-- 
2.43.0


From 1a1a77488d2c4f4ba2fab21f94a2bda6e55648e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 176/242] fix: rendering an exception failed if `__class__` of
 what it was created with raised

---
 .../attribute_error_helpers.py                |  2 +-
 .../syntax_error_helpers.py                   | 22 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/scarletio/utils/trace/exception_representation/attribute_error_helpers.py b/scarletio/utils/trace/exception_representation/attribute_error_helpers.py
index 0c5c27f..5a7fc3b 100755
--- a/scarletio/utils/trace/exception_representation/attribute_error_helpers.py
+++ b/scarletio/utils/trace/exception_representation/attribute_error_helpers.py
@@ -34,7 +34,7 @@ def is_attribute_error(exception):
     else:
         return False
     
-    if (attribute_name is None) or not isinstance(attribute_name, str):
+    if (attribute_name is None) or not issubclass(type(attribute_name), str):
         return False
     
     return True
diff --git a/scarletio/utils/trace/exception_representation/syntax_error_helpers.py b/scarletio/utils/trace/exception_representation/syntax_error_helpers.py
index 24f24f7..967df59 100755
--- a/scarletio/utils/trace/exception_representation/syntax_error_helpers.py
+++ b/scarletio/utils/trace/exception_representation/syntax_error_helpers.py
@@ -42,16 +42,16 @@ def _are_details_valid(details):
     offset = details[2]
     line = details[3]
     
-    if (file_name is not None) and (not isinstance(file_name, str)):
+    if (file_name is not None) and (not issubclass(type(file_name), str)):
         return False
     
-    if not isinstance(line_number, int):
+    if not issubclass(type(line_number), int):
         return False
     
-    if not isinstance(offset, int):
+    if not issubclass(type(offset), int):
         return False
     
-    if (line is not None) and (not isinstance(line, str)):
+    if (line is not None) and (not issubclass(type(line), str)):
         return False
     
     if len(details) == 4:
@@ -60,10 +60,10 @@ def _are_details_valid(details):
     end_line_number = details[4]
     end_offset = details[5]
     
-    if not isinstance(end_line_number, int):
+    if not issubclass(type(end_line_number), int):
         return False
     
-    if not isinstance(end_offset, int):
+    if not issubclass(type(end_offset), int):
         return False
     
     return True
@@ -86,14 +86,14 @@ def is_syntax_error(exception):
         return False
     
     exception_parameters = BaseException.args.__get__(exception, type(exception))
-    if (not isinstance(exception_parameters, tuple)) or (len(exception_parameters) != 2):
+    if (not issubclass(type(exception_parameters), tuple)) or (len(exception_parameters) != 2):
         return False
     
     message, details = exception_parameters
-    if (message is not None) and (not isinstance(message, str)):
+    if (message is not None) and (not issubclass(type(message), str)):
         return False
     
-    if (not isinstance(details, tuple)) or (len(details) not in (4, 6)):
+    if (not issubclass(type(details), tuple)) or (len(details) not in (4, 6)):
         return False
     
     return _are_details_valid(details)
@@ -135,11 +135,11 @@ def is_syntax_error_details_omitted(exception):
     details_omitted : `bool`
     """
     exception_parameters = BaseException.args.__get__(exception, type(exception))
-    if (not isinstance(exception_parameters, tuple)) or (len(exception_parameters) != 1):
+    if (not issubclass(type(exception_parameters), tuple)) or (len(exception_parameters) != 1):
         return False
     
     message, = exception_parameters
-    if (message is not None) and (not isinstance(message, str)):
+    if (message is not None) and (not issubclass(type(message), str)):
         return False
     
     details = _get_details_from_slots(exception)
-- 
2.43.0


From abbe1980945d25777be81260bb236b8c866268e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 177/242] fix: asyncio extension: create_task passing its loop
 as the coroutine

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index cefaf6e..69426f6 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3098,7 +3098,7 @@ def create_task(coroutine, *, name = None):
     Return a Task object.
     """
     loop = get_running_loop()
-    return Task(loop, coroutine)
+    return Task(coroutine, loop = loop)
 
 
 FIRST_COMPLETED = 'FIRST_COMPLETED'
-- 
2.43.0


From 595b8710d54f3e258a56ccfca1d20ade9d4baf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 178/242] fix: asyncio extension: expired timeouts raising
 CancelledError instead of TimeoutError

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 69426f6..0b316e1 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -4189,7 +4189,7 @@ class Timeout:
         if self._state is _TimeoutState.EXPIRING:
             self._state = _TimeoutState.EXPIRED
             
-            if isinstance(exception_type, CancelledError):
+            if (exception_type is not None) and issubclass(exception_type, CancelledError):
                 # Since there are no new cancel requests, we're handling this.
                 raise TimeoutError from exception_value
         
-- 
2.43.0


From 2ddf90fd7c78e9623e746d54365d1ba34703d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 179/242] fix: asyncio extension: LifoQueue missing put

---
 scarletio/ext/asyncio/asyncio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 0b316e1..f8d18fb 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2043,6 +2043,14 @@ class LifoQueue(AsyncLifoQueue):
         
         return AsyncLifoQueue.__new__(cls, loop, max_length = max_length)
     
+    async def put(self, element):
+        """
+        Put an item into the queue.
+        
+        If the queue is full, wait until a free slot is available before adding item.
+        """
+        await self.set_result_wait(element)
+    
     def put_nowait(self, element):
         if len(self) == self.max_length:
             raise QueueFull()
-- 
2.43.0


From 4f279df0c3c3b1b9aec0529006c5e0dbb91dd8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 180/242] fix: asyncio extension: repr of a waited semaphore
 raising

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index f8d18fb..a3b53b0 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1615,7 +1615,7 @@ class Semaphore:
         waiter_count = len(self._waiters)
         if waiter_count:
             repr_parts.append(', waiters:')
-            repr_parts.append(waiter_count)
+            repr_parts.append(repr(waiter_count))
         
         repr_parts.append('>')
         return ''.join(repr_parts)
-- 
2.43.0


From d45529752bb3fb0891cbc0ddf105a5dbf707fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 181/242] fix: asyncio extension: semaphores letting newcomers
 ahead of those already waiting, starving them

---
 scarletio/ext/asyncio/asyncio.py | 43 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index a3b53b0..abdc5b3 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1622,15 +1622,18 @@ class Semaphore:
     
     
     def _wake_up_next(self):
-        while self._waiters:
-            waiter = self._waiters.popleft()
+        # Hands over a slot to the first waiter.
+        for waiter in self._waiters:
             if waiter.set_result_if_pending(None) == 1:
-                return
+                self._value -= 1
+                return True
+        
+        return False
     
     
     def locked(self):
         """Returns True if semaphore can not be acquired immediately."""
-        return self._value == 0
+        return self._value <= 0 or any(not waiter.is_cancelled() for waiter in self._waiters)
     
     
     async def acquire(self):
@@ -1641,21 +1644,29 @@ class Semaphore:
         If it is zero on entry, block, waiting until some other coroutine has called release() to make it larger than
         0, and then return True.
         """
-        while self._value <= 0:
-            future = ScarletFuture(self._loop)
-            self._waiters.append(future)
-            
+        if not self.locked():
+            self._value -= 1
+            return True
+        
+        future = ScarletFuture(self._loop)
+        self._waiters.append(future)
+        
+        try:
             try:
                 await future
-            except:
-                future.cancel()
-                
-                if (self._value > 0) and (not future.cancelled()):
-                    self._wake_up_next()
-                
-                raise
+            finally:
+                self._waiters.remove(future)
+        except:
+            # If we are interrupted after a slot was handed over to us, give it back.
+            if future.is_done() and (future.get_exception() is None):
+                self._value += 1
+            
+            raise
+        finally:
+            # Others may have been queued up behind us.
+            while (self._value > 0) and self._wake_up_next():
+                pass
         
-        self._value -= 1
         return True
     
     
-- 
2.43.0


From cd0401a2682b61d12871b36a661e48f2bab76164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 182/242] fix: asyncio extension: gather giving the results in
 random order

---
 scarletio/ext/asyncio/asyncio.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index abdc5b3..fa18293 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3360,10 +3360,11 @@ def ensure_future(coroutine_or_future, *, loop = None):
     return loop.ensure_future(coroutine_or_future)
 
 class _gatherer_done_callback_return_exceptions:
-    __slots__ = ('task_group', 'future', )
+    __slots__ = ('task_group', 'tasks', 'future', )
     
-    def __init__(self, task_group, future):
+    def __init__(self, task_group, tasks, future):
         self.task_group = task_group
+        self.tasks = tasks
         self.future = future
     
     def __call__(self, gatherer):
@@ -3382,7 +3383,7 @@ class _gatherer_done_callback_return_exceptions:
             future.set_exception_if_pending(err)
             return
         
-        for done_future in self.task_group.done:
+        for done_future in self.tasks:
             try:
                 result = done_future.get_result()
             except BaseException as err:
@@ -3394,10 +3395,11 @@ class _gatherer_done_callback_return_exceptions:
 
 
 class _gatherer_done_callback_raise:
-    __slots__ = ('task_group', 'future', )
+    __slots__ = ('task_group', 'tasks', 'future', )
     
-    def __init__(self, task_group, future):
+    def __init__(self, task_group, tasks, future):
         self.task_group = task_group
+        self.tasks = tasks
         self.future = future
     
     
@@ -3414,7 +3416,8 @@ class _gatherer_done_callback_raise:
         
         results = []
         
-        iterator = iter(self.task_group.done)
+        done = self.task_group.done
+        iterator = iter([task for task in self.tasks if task in done])
         for done_future in iterator:
             try:
                 result = done_future.get_result()
@@ -3480,7 +3483,7 @@ def gather(*coroutines_or_futures, loop = None, return_exceptions = False):
     any other awaitables.
     """
     # Remove duplicates. This is not an asyncio behavior, but should be.
-    coroutines_or_futures = {*coroutines_or_futures}
+    coroutines_or_futures = [*dict.fromkeys(coroutines_or_futures)]
     
     if loop is None:
         detected_loops = None
@@ -3531,7 +3534,7 @@ def gather(*coroutines_or_futures, loop = None, return_exceptions = False):
         gatherer_done_callback_type = _gatherer_done_callback_raise
     
     future.add_done_callback(_gatherer_cancel_callback(task_group, waiter))
-    waiter.add_done_callback(gatherer_done_callback_type(task_group, future))
+    waiter.add_done_callback(gatherer_done_callback_type(task_group, tasks, future))
     return future
 
 
-- 
2.43.0


From e9c1fe8ba359366d8355c9dc7f3c1a5080742017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 183/242] fix: asyncio extension: as_completed cancelling what
 it waits for on timeout

---
 scarletio/ext/asyncio/asyncio.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index fa18293..a1fe8ec 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3237,8 +3237,6 @@ async def _as_completed_task(task_group, waiter_futures, timeout_future):
     async for future in task_group.exhaust():
         if future is timeout_future:
             future.cancel()
-            task_group.cancel_pending()
-            
             while True:
                 waiter_futures[index].set_exception_if_pending(TimeoutError())
                 
-- 
2.43.0


From 7491142cfa30e049c6c2a7d5c59beaf8673a2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 184/242] fix: asyncio extension: wait with FIRST_EXCEPTION
 returning on the first completion

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index a1fe8ec..295936e 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3181,7 +3181,7 @@ async def wait(futures, *, loop = None, timeout = None, return_when = ALL_COMPLE
     if return_when == FIRST_COMPLETED:
         waiter_future = task_group.wait_first()
     elif return_when == FIRST_EXCEPTION:
-        waiter_future = task_group.wait_first()
+        waiter_future = task_group.wait_exception()
     else:
         waiter_future = task_group.wait_all()
     
-- 
2.43.0


From c03852aa4e0531ff695ee919ac129676a86e0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 185/242] fix: asyncio extension: exception() of cancelled
 futures returning instead of raising CancelledError

---
 scarletio/ext/asyncio/asyncio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 295936e..0365812 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1077,9 +1077,12 @@ class ScarletFuture:
     def result(self):
         return self.get_result
     
-    @property
     def exception(self):
-        return self.get_exception
+        exception = self.get_exception()
+        if self.is_cancelled():
+            raise exception
+        
+        return exception
 
 
 @KeepType(ScarletTask)
-- 
2.43.0


From d5a79a3cb738d68d8a7f36a93af85e575c6c54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 186/242] fix: transport extra info not available under the
 names used by asyncio, and its default being ignored

---
 scarletio/core/protocols_and_transports/extra_info.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/extra_info.py b/scarletio/core/protocols_and_transports/extra_info.py
index 0f8e1ef..231bd64 100755
--- a/scarletio/core/protocols_and_transports/extra_info.py
+++ b/scarletio/core/protocols_and_transports/extra_info.py
@@ -11,13 +11,16 @@ EXTRA_INFO_NAME_PEER_NAME = 'peer_name'
 EXTRA_INFO_NAME_PIPE = 'pipe'
 
 ALTERNATIVE_EXTRA_INFO_NAMES = {
-    EXTRA_INFO_NAME_SSL_CONTEXT: 'ssl_context',
+    EXTRA_INFO_NAME_SSL_CONTEXT: 'sslcontext',
     EXTRA_INFO_NAME_SOCKET: 'sock',
     EXTRA_INFO_NAME_PEER_CERTIFICATION: 'peercert',
     EXTRA_INFO_NAME_SOCKET_NAME: 'sockname',
     EXTRA_INFO_NAME_PEER_NAME: 'peername',
 }
 
+# They can be requested using their alternative name too.
+ALTERNATIVE_EXTRA_INFO_NAMES.update([(value, key) for (key, value) in ALTERNATIVE_EXTRA_INFO_NAMES.items()])
+
 def get_extra_info(extra, name, default):
     """
     Gets optional transport information.
@@ -36,7 +39,7 @@ def get_extra_info(extra, name, default):
     info : `default`, `object`
     """
     if extra is None:
-        info = None
+        info = default
     else:
         try:
             info = extra[name]
-- 
2.43.0


From d91fe4baf499eb18edc73e66623131f1434920cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 187/242] fix: asyncio extension: run not returning the result

---
 scarletio/ext/asyncio/asyncio.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 0365812..1b468b9 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2128,8 +2128,7 @@ def run(main, *, debug = None, loop_factory = None):
             # Required by anyio
             main = Task(in_coro(main), loop = loop)
             
-            loop.run(main)
-            return
+            return loop.run(main)
     
     loop = EventThread()
     
@@ -2137,7 +2136,7 @@ def run(main, *, debug = None, loop_factory = None):
     main = Task(in_coro(main), loop = loop)
     
     try:
-        loop.run(main)
+        return loop.run(main)
     finally:
         loop.stop()
 
-- 
2.43.0


From 431e88dd265ef17df5061a2faf9aa095b263bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:15 +0000
Subject: [PATCH 188/242] fix: asyncio extension: run_until_complete not
 returning the result

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 1b468b9..0918a87 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -165,7 +165,7 @@ class EventThread:
         if isinstance(local_thread, EventThread):
             raise RuntimeError('Cannot call `loop.run_until_complete` inside of a loop')
         
-        self.run(future)
+        return self.run(future)
     
     
     # Required by dead.py 3.8
-- 
2.43.0


From 3387caa373f41694cc2e673878c42d7c952e4cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 189/242] fix: asyncio extension: run_coroutine_threadsafe not
 returning a concurrent.futures.Future

---
 scarletio/ext/asyncio/asyncio.py | 35 +++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 0918a87..96f238b 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -20,6 +20,7 @@ __all__ = (
 
 import os, signal, sys
 from collections import deque
+from concurrent.futures import Future as ConcurrentFuture
 from functools import partial, partial as partial_func
 from enum import Enum
 from stat import S_ISSOCK
@@ -3584,7 +3585,39 @@ def run_coroutine_threadsafe(coroutine, loop):
     
     Return a concurrent.futures.Future to access the result.
     """
-    return loop.create_task_thread_safe(coroutine)
+    if not iscoroutine(coroutine):
+        raise TypeError('A coroutine object is required')
+    
+    concurrent_future = ConcurrentFuture()
+    loop.call_soon_thread_safe(_run_coroutine_thread_safe_callback, coroutine, loop, concurrent_future)
+    return concurrent_future
+
+
+def _run_coroutine_thread_safe_callback(coroutine, loop, concurrent_future):
+    # Runs inside of the event loop.
+    task = loop.create_task(coroutine)
+    
+    def task_done_callback(task):
+        if task.is_cancelled():
+            concurrent_future.cancel()
+        
+        if not concurrent_future.set_running_or_notify_cancel():
+            task.silence()
+            return
+        
+        exception = task.get_exception()
+        if exception is None:
+            concurrent_future.set_result(task.get_result())
+        else:
+            concurrent_future.set_exception(exception)
+    
+    def concurrent_future_done_callback(concurrent_future):
+        if concurrent_future.cancelled():
+            loop.call_soon_thread_safe(task.cancel)
+    
+    task.add_done_callback(task_done_callback)
+    concurrent_future.add_done_callback(concurrent_future_done_callback)
+
 
 def _register_task(task):
     """Register a new task in asyncio as executed by loop."""
-- 
2.43.0


From 9b55a890584b2a535d8b35ba47004d6ad04104e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 190/242] fix: asyncio extension: processes missing pid and
 returncode

---
 scarletio/ext/asyncio/asyncio.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 96f238b..9ccb1b0 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3027,6 +3027,18 @@ else:
     ):
         raise NotImplementedError
 
+@KeepType(AsyncProcess)
+class AsyncProcess:
+    
+    @property
+    def pid(self):
+        return self.process_id
+    
+    @property
+    def returncode(self):
+        return self.return_code
+
+
 # Required by anyio
 Process = AsyncProcess
 
-- 
2.43.0


From 46a2a727c5a5671f2d0bcf653a591b5ef5360c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 191/242] fix: asyncio extension: conditions releasing the lock
 of an other task when cancelled while re-acquiring it

---
 scarletio/ext/asyncio/asyncio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 9ccb1b0..9230023 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1506,7 +1506,8 @@ class Condition:
             finally:
                 self._waiters.remove(future)
         except GeneratorExit:
-            self._lock._waiters.appendleft(self._loop.create_future())
+            # We cannot await anymore. Our caller will release the lock, so give it something to release.
+            self._lock._waiters.append(self._loop.create_future())
             raise
         
         except BaseException as err:
@@ -1517,7 +1518,8 @@ class Condition:
         try:
             await self._lock.acquire()
         except BaseException as err:
-            self._lock._waiters.appendleft(self._loop.create_future())
+            # Our caller will release the lock, so give it something to release, or it would release the lock of an other task.
+            self._lock._waiters.append(self._loop.create_future())
             raise err from exception
         
         if (exception is not None):
-- 
2.43.0


From b3cf6aef06db2721fd459ee81e90d11ae0a68a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 192/242] fix: ssl fingerprint not checked when connecting
 through a proxy

---
 scarletio/http_client/connector_tcp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 7c18979..1dded1d 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -548,7 +548,14 @@ class ConnectorTCP(ConnectorBase):
             
             else:
                 protocol.connection_made(ssl_protocol)
-        
+            
+            ssl_fingerprint = self.get_ssl_fingerprint(request)
+            if (ssl_fingerprint is not None):
+                try:
+                    ssl_fingerprint.check(protocol)
+                except ValueError as exception:
+                    protocol.close_transport(force = True)
+                    raise OSError(request.connection_key) from exception
         except:
             response.close()
             raise
-- 
2.43.0


From f2d53ce70ec184ce9ec824219f2f4e3bc347479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 193/242] fix: message and code of proxy errors swapped

---
 scarletio/http_client/connector_tcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 1dded1d..3cb2ab9 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -506,7 +506,7 @@ class ConnectorTCP(ConnectorBase):
                     if reason is None:
                         reason = HTTPStatus(status).phrase
                     
-                    raise ProxyError(status, reason, response.headers)
+                    raise ProxyError(reason, status, response.headers)
             except:
                 protocol.close()
                 raise
-- 
2.43.0


From 7d5d33e7591da306586e95790fff0f560e6742ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 194/242] fix: the certificate of ip v6 and internationalized
 hosts not accepted through proxies

---
 scarletio/http_client/connector_tcp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 3cb2ab9..5a0d491 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -514,6 +514,12 @@ class ConnectorTCP(ConnectorBase):
             if not request.is_secure():
                 return protocol
             
+            # ip v6 addresses are bracketed within urls.
+            server_host_name = request.url.raw_host
+            if server_host_name.startswith('[') and server_host_name.endswith(']'):
+                server_host_name = server_host_name[1 : -1]
+            server_host_name = server_host_name.rstrip('.')
+            
             underlying_transport = protocol._transport
             protocol = HttpReadWriteProtocol(self.loop)
             
@@ -526,7 +532,7 @@ class ConnectorTCP(ConnectorBase):
                     ssl_context,
                     waiter,
                     False,
-                    request.host,
+                    server_host_name,
                     False,
                 )
                 underlying_transport.set_protocol(ssl_protocol)
-- 
2.43.0


From af238219511f93f56c2c3ba758d95483082858a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 195/242] fix: responses with not registered statuses and
 without reason failing on their reason

---
 scarletio/http_client/client_response.py | 8 +++++++-
 scarletio/http_client/connector_tcp.py   | 3 +--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 2254dfa..04b2d22 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -157,7 +157,13 @@ class ClientResponse(RichAttributeErrorBaseType):
         if (reason is not None):
             return reason
         
-        return HTTPStatus(message.status).phrase
+        try:
+            status = HTTPStatus(message.status)
+        except ValueError:
+            # Not a registered status.
+            return None
+        
+        return status.phrase
     
     
     @property
diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 5a0d491..213aa4b 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -1,7 +1,6 @@
 ﻿__all__ = ('ConnectorTCP',)
 
 from functools import partial as partial_func
-from http import HTTPStatus
 from socket import AddressFamily, SOCK_STREAM as SOCKET_TYPE_STREAM
 from ssl import CertificateError as SSLCertificateError, SSLContext, SSLError
 
@@ -504,7 +503,7 @@ class ConnectorTCP(ConnectorBase):
                 if status != 200:
                     reason = response.reason
                     if reason is None:
-                        reason = HTTPStatus(status).phrase
+                        reason = ''
                     
                     raise ProxyError(reason, status, response.headers)
             except:
-- 
2.43.0


From 7ea931fef9314e586a14b7852bd54b3f8a25788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 196/242] fix: name_property failing when accessed from the
 type

---
 scarletio/utils/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/properties.py b/scarletio/utils/properties.py
index 4a1562e..fa4b43f 100755
--- a/scarletio/utils/properties.py
+++ b/scarletio/utils/properties.py
@@ -59,7 +59,7 @@ class name_property:
     
     def __get__(self, obj, type_):
         if obj is None:
-            return type_.class_name
+            return self.class_name
         else:
             return self.fget(obj)
     
-- 
2.43.0


From a6d15c7011ebcaaefe0a7533ea9c2a862473e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 197/242] fix: module_property not passing the instance to its
 getter

---
 scarletio/utils/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/properties.py b/scarletio/utils/properties.py
index fa4b43f..2d0f89e 100755
--- a/scarletio/utils/properties.py
+++ b/scarletio/utils/properties.py
@@ -105,7 +105,7 @@ class module_property:
         if obj is None:
             return self.module
         
-        return self.fget()
+        return self.fget(obj)
     
     def __set__(self, obj, module):
         if module is None:
-- 
2.43.0


From 3ea659d7c20ba34f541703d73582ad3ea15adff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 198/242] fix: change_on_switch raising or giving back
 positions off by one

---
 scarletio/utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/utils.py b/scarletio/utils/utils.py
index 2c7f10e..18cf807 100755
--- a/scarletio/utils/utils.py
+++ b/scarletio/utils/utils.py
@@ -169,9 +169,8 @@ def change_on_switch(list_, value, new_position, key = None):
     
     while True:
         actual = list_[index]
-        index += 1
-        
         position = index + change
+        index += 1
         if key is None:
             element = (actual, position)
         else:
@@ -190,7 +189,7 @@ def change_on_switch(list_, value, new_position, key = None):
         element = key(value, new_position)
     
     if change > 0:
-        result.index(0, element)
+        result.insert(0, element)
     else:
         result.append(element)
     
-- 
2.43.0


From fc88a05cdcac79a8df120e795c9c466227aabc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 199/242] fix: KeepType binding class methods to the type
 dropped, unwrapping static ones and overwriting __init_subclass__

---
 scarletio/utils/keep_type.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/keep_type.py b/scarletio/utils/keep_type.py
index ce52729..e795d24 100755
--- a/scarletio/utils/keep_type.py
+++ b/scarletio/utils/keep_type.py
@@ -75,11 +75,16 @@ class KeepType:
         """
         old_class = self.old_class
         ignored_attr_names = self._ignored_attr_names
-        for attribute_name in dir(new_class):
+        # Do not use `getattr`, since that would bind the descriptors to `new_class`.
+        attributes = {}
+        for type_ in reversed(new_class.__mro__):
+            if type_ is not object:
+                attributes.update(vars(type_))
+        
+        for attribute_name, attribute_value in attributes.items():
             if attribute_name in ignored_attr_names:
                 continue
             
-            attribute_value = getattr(new_class, attribute_name)
             if (attribute_name == '__doc__') and (attribute_value is None):
                 continue
             
-- 
2.43.0


From ca67b5027b642340bbfa7b87bfe93978c2ebe36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 200/242] fix: modulize not reusing the module of the same type
 modulized again

---
 scarletio/utils/type_modulizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/type_modulizer.py b/scarletio/utils/type_modulizer.py
index 6ab8587..87d4d8b 100755
--- a/scarletio/utils/type_modulizer.py
+++ b/scarletio/utils/type_modulizer.py
@@ -134,7 +134,7 @@ def modulize(klass):
     module_name = klass.__name__
     module_path = f'{klass.__module__}.{module_name}'
     try:
-        result_module = sys.modules['module_path']
+        result_module = sys.modules[module_path]
     except KeyError:
         result_module = ModuleType(module_path)
         sys.modules[module_path] = result_module
-- 
2.43.0


From dd9f00a9e0ef2de9a15f046134f6aba79ba825c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 201/242] fix: functions of modulized types losing their
 keyword defaults, annotations and attributes

---
 scarletio/utils/type_modulizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scarletio/utils/type_modulizer.py b/scarletio/utils/type_modulizer.py
index 87d4d8b..b8f1d2d 100755
--- a/scarletio/utils/type_modulizer.py
+++ b/scarletio/utils/type_modulizer.py
@@ -55,6 +55,11 @@ def _modulize_function(old, globals_, source_module, module_name, module_path):
     
     new = FunctionType(old.__code__, globals_, old.__name__, old.__defaults__, old.__closure__)
     new.__module__ = module_path
+    new.__doc__ = old.__doc__
+    new.__kwdefaults__ = old.__kwdefaults__
+    new.__annotations__ = old.__annotations__
+    new.__dict__.update(old.__dict__)
+    
     qualname = old.__qualname__
     if (qualname is not None) and (len(qualname) > len(module_name)) and qualname[len(module_name)] == '.' and \
             qualname.startswith(module_name):
-- 
2.43.0


From 547b48e1b982d4e450ac1f90a55af24c4a93a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 202/242] fix: static methods of types inside of modulized
 types turning into methods and inherited ones being copied

---
 scarletio/utils/type_modulizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/type_modulizer.py b/scarletio/utils/type_modulizer.py
index b8f1d2d..def04b4 100755
--- a/scarletio/utils/type_modulizer.py
+++ b/scarletio/utils/type_modulizer.py
@@ -96,14 +96,16 @@ def _modulize_type(klass, globals_, source_module, module_name, module_path):
     klass.__qualname__ = qualname[len(module_name) + 1:]
     klass.__module__ = module_path
     
-    for name in dir(klass):
-        value = getattr(klass, name)
-        
+    for name, value in [*vars(klass).items()]:
         value_type = type(value)
         if value_type is FunctionType:
             value = _modulize_function(value, globals_, source_module, module_name, module_path)
             setattr(klass, name, value)
         
+        elif value_type in (staticmethod, classmethod) and isinstance(value.__func__, FunctionType):
+            value = _modulize_function(value.__func__, globals_, source_module, module_name, module_path)
+            setattr(klass, name, value_type(value))
+        
         if issubclass(value_type, type):
             _modulize_type(value, globals_, source_module, module_name, module_path)
 
-- 
2.43.0


From 050a5a4f6ee181dd0024d24273371e588c44ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 203/242] fix: un_map_pack giving the last value to every key

---
 scarletio/utils/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scarletio/utils/utils.py b/scarletio/utils/utils.py
index 18cf807..1c51261 100755
--- a/scarletio/utils/utils.py
+++ b/scarletio/utils/utils.py
@@ -290,8 +290,8 @@ class un_map_pack:
     ----------
     generator : ``GeneratorType``
         The generator to unpack.
-    next_value : `object`
-        The next key to return on get-item.
+    values : `dict` of (`object`, `object`) items
+        The values to return on get-item. All keys might be requested before the first value is.
     """
     def __init__(self, generator):
         """
@@ -303,7 +303,7 @@ class un_map_pack:
             A generator to un-map-pack.
         """
         self.generator = generator
-        self.next_value = None
+        self.values = {}
     
     @has_docs
     def keys(self):
@@ -325,13 +325,13 @@ class un_map_pack:
     def __next__(self):
         """Gets the next key of the un-map-packer"""
         key, value = next(self.generator)
-        self.next_value = value
+        self.values[key] = value
         return key
     
     @has_docs
     def __getitem__(self, key):
         """Gets the next value of the un-map-packer."""
-        return self.next_value
+        return self.values[key]
 
 
 @has_docs
-- 
2.43.0


From c479f30c4f2a4fbfe99f5cc0979de47bd7e58f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:13 +0000
Subject: [PATCH 204/242] fix: is_coroutine_function and alike raising when a
 method of a not function is passed

---
 scarletio/utils/async_utils.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/async_utils.py b/scarletio/utils/async_utils.py
index 9d98caf..555989b 100755
--- a/scarletio/utils/async_utils.py
+++ b/scarletio/utils/async_utils.py
@@ -13,6 +13,29 @@ from .docs import has_docs, set_docs
 FUNCTION_TYPES = (FunctionType, MethodType)
 
 
+def _get_code_flags(func):
+    """
+    Returns the code flags of the given function or method.
+    
+    Parameters
+    ----------
+    func : `object`
+        The object to get the flags of.
+    
+    Returns
+    -------
+    flags : `int`
+        Defaults to `0` if `func` has no code, like methods of not functions do not have.
+    """
+    if isinstance(func, FUNCTION_TYPES):
+        code = getattr(func, '__code__', None)
+        if code is not None:
+            return code.co_flags
+    
+    return 0
+
+
+
 @has_docs
 def is_coroutine_function(func):
     """
@@ -26,7 +49,7 @@ def is_coroutine_function(func):
     -------
     is_coroutine_function : `bool`
     """
-    if isinstance(func, FUNCTION_TYPES) and func.__code__.co_flags & CODE_FLAG_COROUTINE_ALL:
+    if _get_code_flags(func) & CODE_FLAG_COROUTINE_ALL:
         return True
     else:
         return False
@@ -46,7 +69,7 @@ def is_coroutine_generator_function(func):
     -------
     is_coroutine_function_generator : `bool`
     """
-    if isinstance(func, FUNCTION_TYPES) and func.__code__.co_flags & CODE_FLAG_COROUTINE_GENERATOR:
+    if _get_code_flags(func) & CODE_FLAG_COROUTINE_GENERATOR:
         return True
     else:
         return False
@@ -65,7 +88,7 @@ def is_generator_function(func):
     -------
     is_generator_function : `bool`
     """
-    if isinstance(func, FUNCTION_TYPES) and func.__code__.co_flags & CODE_FLAG_GENERATOR:
+    if _get_code_flags(func) & CODE_FLAG_GENERATOR:
         return True
     else:
         return False
-- 
2.43.0


From cafc30a2a123e42c46ccbd31e18afe1194533a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:28 +0000
Subject: [PATCH 205/242] fix: copy_func losing annotations, docs and
 attributes and sharing the keyword defaults

---
 scarletio/utils/function_tools.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/function_tools.py b/scarletio/utils/function_tools.py
index a5e1b99..ac508b4 100755
--- a/scarletio/utils/function_tools.py
+++ b/scarletio/utils/function_tools.py
@@ -106,5 +106,13 @@ def copy_func(old):
         argdefs = old.__defaults__,
         closure = old.__closure__,
     )
-    new.__kwdefaults__ = old.__kwdefaults__
+    keyword_defaults = old.__kwdefaults__
+    if keyword_defaults is not None:
+        keyword_defaults = keyword_defaults.copy()
+    new.__kwdefaults__ = keyword_defaults
+    new.__annotations__ = old.__annotations__.copy()
+    new.__doc__ = old.__doc__
+    new.__module__ = old.__module__
+    new.__qualname__ = old.__qualname__
+    new.__dict__.update(old.__dict__)
     return new
-- 
2.43.0


From 1757e2df11a2525624b0e8c0b74c5758269d5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 206/242] fix: proxies of generator based coroutines cannot be
 awaited

---
 .../utils/type_proxies/coroutine_type.py      | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/type_proxies/coroutine_type.py b/scarletio/utils/type_proxies/coroutine_type.py
index 416b44d..1e24adf 100755
--- a/scarletio/utils/type_proxies/coroutine_type.py
+++ b/scarletio/utils/type_proxies/coroutine_type.py
@@ -1,6 +1,6 @@
 __all__ = ('CoroutineTypeProxy',)
 
-from types import CoroutineType
+from types import CoroutineType, GeneratorType
 
 from ..async_utils import is_coroutine
 
@@ -8,6 +8,25 @@ from .field_factories import proxy_method_factory, proxy_property_factory
 from .proxy_base import ProxyBase
 
 
+async def _await_coroutine(coroutine):
+    """
+    Awaits the given coroutine. Used for generator based ones, which have no `__await__`.
+    
+    This function is a coroutine.
+    
+    Parameters
+    ----------
+    coroutine : ``GeneratorType``
+        The generator based coroutine to await.
+    
+    Returns
+    -------
+    result : `object`
+    """
+    return await coroutine
+
+
+
 class CoroutineTypeProxy(ProxyBase):
     """
     Coroutine function proxy.
@@ -51,7 +70,16 @@ class CoroutineTypeProxy(ProxyBase):
     __doc__ = proxy_property_factory('__doc__')
     __name__ = proxy_property_factory('__name__')
     
-    __await__ = proxy_method_factory('__await__')
+    
+    def __await__(self):
+        """Returns an iterator awaiting the proxied coroutine."""
+        proxied = self._proxied
+        if isinstance(proxied, GeneratorType):
+            proxied = _await_coroutine(proxied)
+            return proxied.__await__()
+        
+        return self._get_value('__await__')()
+    
     __reduce__ = proxy_method_factory('__reduce__')
     __reduce_ex__ = proxy_method_factory('__reduce_ex__')
     __sizeof__ = proxy_method_factory('__sizeof__')
-- 
2.43.0


From 8448ff681f23b2d43a7c6231d895fe1949d276e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 207/242] fix: the ended editor closing a file descriptor which
 is not its own

---
 .../asynchronous_interactive_console/editors/editor_advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
index c328434..99c5752 100755
--- a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
+++ b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
@@ -1207,7 +1207,7 @@ class EditorAdvanced(EditorBase):
     
     @copy_docs(EditorBase.__call__)
     def __call__(self):
-        new_stdout = open(self.output_proxy_write_socket.fileno(), 'w')
+        new_stdout = open(self.output_proxy_write_socket.fileno(), 'w', closefd = False)
         old_stderr = sys.stderr
         sys.stdout = new_stdout
         sys.stderr = new_stdout
-- 
2.43.0


From 99918c5d9fb71495f48708ce6f2f48a350236027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 208/242] fix: keys pressed while output is displayed over the
 editor getting lost

---
 .../editors/editor_advanced.py                             | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
index 99c5752..d5296a2 100755
--- a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
+++ b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
@@ -2093,9 +2093,9 @@ class EditorAdvanced(EditorBase):
             write_buffer = None
         write_buffer = []
         
-        # Write async content
-        termios.tcsetattr(self.input_stream, termios.TCSADRAIN, self.input_stream_settings_original)
-        write_buffer.append(content)
+        # Write async content. We are in raw mode -> we have to jump back to the start of the lines too.
+        # Switching out of raw mode and back could lose input.
+        write_buffer.append(content.replace('\n', '\r\n'))
         
         try:
             self._write_write_buffer(write_buffer)
@@ -2103,7 +2103,6 @@ class EditorAdvanced(EditorBase):
             write_buffer = None
         write_buffer = []
         
-        tty.setraw(self.input_stream)
         
         # Rewrite display state
         write_buffer.append(COMMAND_DOWN)
-- 
2.43.0


From 0635d22b8c78a02effb4e9523f12ad7f9f8424f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 209/242] fix: output written before the editor ended getting
 lost

---
 .../editors/editor_advanced.py                | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
index d5296a2..9ed0b8b 100755
--- a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
+++ b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
@@ -1232,6 +1232,9 @@ class EditorAdvanced(EditorBase):
         
         finally:
             self.alive = False
+            self._process_leftover_async_content()
+            new_stdout.flush()
+            self._process_leftover_async_content()
             self._maybe_display_continuous_content()
             
             write_buffer = []
@@ -2041,6 +2044,22 @@ class EditorAdvanced(EditorBase):
             self._display_async_content(content)
     
     
+    def _process_leftover_async_content(self):
+        """
+        Processes the async content that was not yet read.
+        """
+        while True:
+            try:
+                data = self.output_proxy_read_socket.recv(1024)
+            except (BlockingIOError, InterruptedError):
+                break
+            
+            if not data:
+                break
+            
+            self._process_async_content(data)
+    
+    
     def _maybe_display_continuous_content(self):
         """
         If there is async content to display, displays it.
-- 
2.43.0


From 0c096e753c4d181ac03033f3b42259582d8f7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 210/242] fix: continued parts of lines losing their format in
 the editor

---
 .../editors/display_state.py                                | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/editors/display_state.py b/scarletio/tools/asynchronous_interactive_console/editors/display_state.py
index 4450536..d811ce4 100755
--- a/scarletio/tools/asynchronous_interactive_console/editors/display_state.py
+++ b/scarletio/tools/asynchronous_interactive_console/editors/display_state.py
@@ -739,6 +739,10 @@ class DisplayState(RichAttributeErrorBaseType):
             if not write_difference:
                 self_length = 0
                 self_part = ''
+                if (last_command_parts is not None):
+                    last_command = ''.join(last_command_parts)
+                    last_command_parts = None
+            
             
             else:
                 self_length, self_part = self_item
@@ -773,7 +777,7 @@ class DisplayState(RichAttributeErrorBaseType):
             # write self parts
             if len(self_items) > item_index:
                 if not command_written:
-                    write_buffer.append(COMMAND_FORMAT_RESET)
+                    write_buffer.append(COMMAND_FORMAT_RESET if last_command is None else last_command)
                 
                 for self_length, self_part in islice(self_items, item_index, None):
                     to_clear -= self_length
-- 
2.43.0


From a310fc6d0bccb568e4d480cf0a604574a86f3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 211/242] fix: cursor of the editor off by one after updating a
 line that continues in the next one

---
 .../asynchronous_interactive_console/editors/display_state.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/editors/display_state.py b/scarletio/tools/asynchronous_interactive_console/editors/display_state.py
index d811ce4..4315750 100755
--- a/scarletio/tools/asynchronous_interactive_console/editors/display_state.py
+++ b/scarletio/tools/asynchronous_interactive_console/editors/display_state.py
@@ -804,7 +804,8 @@ class DisplayState(RichAttributeErrorBaseType):
         if last_written_line is None:
             cursor_index = _get_line_cursor_index(other.content_width, other.cursor_index, prefix_length)
         else:
-            cursor_index = last_written_line.get_length()
+            # After writing till the last column the cursor stays over it.
+            cursor_index = min(last_written_line.get_length(), prefix_length + other.content_width)
         
         _jump_horizontal(
             write_buffer,
-- 
2.43.0


From 7df7bbcdcd4fe8b545debc5facc9e553c30ebfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 212/242] fix: tabs that do nothing marking the input in the
 editor as not modified

---
 .../editors/editor_advanced.py                                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
index 9ed0b8b..e631d78 100755
--- a/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
+++ b/scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py
@@ -1671,7 +1671,9 @@ class EditorAdvanced(EditorBase):
         new_display_state.cursor_index = cursor_index
         new_display_state.cursor_line_index = cursor_line_index
         
-        self.modified = modified
+        if modified:
+            self.modified = True
+        
         
         return new_display_state
     
-- 
2.43.0


From 3dd63b9f1dd40bf77b7ec4c13e6078c202438bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 213/242] fix: wrong input taken as incomplete if it fails
 differently as a single statement

---
 .../asynchronous_interactive_console/editors/compilation.py    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/editors/compilation.py b/scarletio/tools/asynchronous_interactive_console/editors/compilation.py
index 581560b..57f68b1 100755
--- a/scarletio/tools/asynchronous_interactive_console/editors/compilation.py
+++ b/scarletio/tools/asynchronous_interactive_console/editors/compilation.py
@@ -115,8 +115,7 @@ def maybe_compile(buffer, file_name):
                     ):
                         right_strip_syntax_error_line(exception_1)
                     
-                    if exception_0.args == exception_1.args:
-                        raise SyntaxError(*exception_0.args)
+                    raise SyntaxError(*exception_1.args)
         
         finally:
             exception_0 = None
-- 
2.43.0


From 8e1d2677f595e200b714ea1dfc24125063ab68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 214/242] fix: the last element of the history skipped when
 going back to it from its end

---
 scarletio/tools/asynchronous_interactive_console/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/history.py b/scarletio/tools/asynchronous_interactive_console/history.py
index 4ff7f3a..c8da59c 100755
--- a/scarletio/tools/asynchronous_interactive_console/history.py
+++ b/scarletio/tools/asynchronous_interactive_console/history.py
@@ -173,7 +173,7 @@ class History:
         current = elements.get(cursor_index, None)
         size = self._size
         
-        while cursor_index < size:
+        while cursor_index <= size:
             cursor_index += 1
             element = elements.get(cursor_index, None)
             if (element is not None) and element != current:
-- 
2.43.0


From 8d2694c1f396ff341ef588874cb854ce76bf8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 215/242] fix: the exit message of the console never shown

---
 .../console.py                                | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/console.py b/scarletio/tools/asynchronous_interactive_console/console.py
index da392ac..e732c85 100755
--- a/scarletio/tools/asynchronous_interactive_console/console.py
+++ b/scarletio/tools/asynchronous_interactive_console/console.py
@@ -441,6 +441,25 @@ class AsynchronousInteractiveConsole:
         """
         sys.stdout.write(self.banner)
         sys.stdout.flush()
+        
+        try:
+            self._run_inputs()
+        finally:
+            exit_message = self.exit_message
+            sys.stdout.write(exit_message)
+            if not exit_message.endswith('\n'):
+                sys.stdout.write('\n')
+            sys.stdout.flush()
+    
+    
+    def _run_inputs(self):
+        """
+        Gets and runs inputs till the console is exited.
+        
+        Raises
+        ------
+        SystemExit
+        """
         editor = None
         
         while True:
@@ -486,13 +505,6 @@ class AsynchronousInteractiveConsole:
             
             finally:
                 editor = None
-        
-        
-        exit_message = self.exit_message
-        sys.stdout.write(exit_message)
-        if not exit_message.endswith('\n'):
-            sys.stdout.write('\n')
-        sys.stdout.flush()
     
     
     def show_syntax_error(self, syntax_error, editor):
-- 
2.43.0


From a022c5dcc2597e22dde70ed48bb8886913e7d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 216/242] fix: length of the prefix of the 1000th input of the
 console

---
 .../tools/asynchronous_interactive_console/console.py    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/console.py b/scarletio/tools/asynchronous_interactive_console/console.py
index e732c85..3f45127 100755
--- a/scarletio/tools/asynchronous_interactive_console/console.py
+++ b/scarletio/tools/asynchronous_interactive_console/console.py
@@ -2,7 +2,6 @@ __all__ = ('run_asynchronous_interactive_console',)
 
 import sys, warnings
 from functools import partial as partial_func
-from math import floor, log
 from types import FunctionType
 
 from ...core import (
@@ -402,13 +401,7 @@ class AsynchronousInteractiveConsole:
         -------
         prefix_length : `int`
         """
-        input_id = self._input_id
-        if input_id == 0:
-            input_id_representation_length = 1
-        else:
-            input_id_representation_length = 1 + floor(log(input_id, 10))
-        
-        return input_id_representation_length + 7
+        return len(str(self._input_id)) + 7
     
     
     def get_prefix_continuous(self):
-- 
2.43.0


From 67b459ed001335ba428c68a370931f84b52e3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:15 +0000
Subject: [PATCH 217/242] fix: SystemExit of not awaiting inputs of the console
 not exiting it

---
 scarletio/tools/asynchronous_interactive_console/console.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/tools/asynchronous_interactive_console/console.py b/scarletio/tools/asynchronous_interactive_console/console.py
index 3f45127..2196379 100755
--- a/scarletio/tools/asynchronous_interactive_console/console.py
+++ b/scarletio/tools/asynchronous_interactive_console/console.py
@@ -251,6 +251,9 @@ class AsynchronousInteractiveConsole:
             future = None
             
             if is_exception:
+                if isinstance(result, SystemExit):
+                    raise result
+                
                 write_exception_sync(
                     result, file = sys.stdout, filter = _ignore_console_frames, highlighter = self.highlighter
                 )
-- 
2.43.0


From 6e7939e80d23c29eb958eeb697d90cad7785ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 218/242] fix: inputs interrupted when starting them left
 running in the console

---
 scarletio/tools/asynchronous_interactive_console/console.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/tools/asynchronous_interactive_console/console.py b/scarletio/tools/asynchronous_interactive_console/console.py
index 2196379..8e19116 100755
--- a/scarletio/tools/asynchronous_interactive_console/console.py
+++ b/scarletio/tools/asynchronous_interactive_console/console.py
@@ -244,9 +244,9 @@ class AsynchronousInteractiveConsole:
         """
         future = Future(self.loop)
         
-        self.loop.call_soon_thread_safe(partial_func(run_code_callback, self, future, compiled_code))
-        
         try:
+            self.loop.call_soon_thread_safe(partial_func(run_code_callback, self, future, compiled_code))
+            
             is_exception, result = future.sync_wrap().wait()
             future = None
             
-- 
2.43.0


From 58c2af51545ff9b2febbb0d6230389ee637d9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:57 +0000
Subject: [PATCH 219/242] fix: documentation of compound components
 conflicting, `__class__` not usable in them

---
 scarletio/utils/compound_type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/compound_type.py b/scarletio/utils/compound_type.py
index 8e9561c..fe2b394 100755
--- a/scarletio/utils/compound_type.py
+++ b/scarletio/utils/compound_type.py
@@ -193,7 +193,8 @@ def collect_attributes_per_type_from_type_attributes(type_attributes):
         if attribute_name == '__annotations__':
             continue
         
-        if attribute_name in {'__module__', '__qualname__'}:
+        # These describe only the type they are defined in.
+        if attribute_name in {'__module__', '__qualname__', '__doc__', '__classcell__'}:
             leftover_type_attributes[attribute_name] = attribute_value
             continue
         
-- 
2.43.0


From 60cd7811a69db4b81cb788478310796d3b0f329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:57 +0000
Subject: [PATCH 220/242] fix: types built from compound components recursing
 on missing attributes, not inheritable

---
 scarletio/utils/compound_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/compound_type.py b/scarletio/utils/compound_type.py
index fe2b394..963f51f 100755
--- a/scarletio/utils/compound_type.py
+++ b/scarletio/utils/compound_type.py
@@ -310,7 +310,7 @@ class CompoundMetaType(type):
         source_meta_type = cls.__source_meta_type__
         if (source_meta_type is None):
             build_type = type
-            created_type = cls
+            created_type = type
         
         else:
             build_type = source_meta_type
-- 
2.43.0


From be8c1d9e06953d0bc5e31a5474d629f5b4c7067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 221/242] fix: inherited class and static methods of the base
 of compound types being bound to an other type

---
 scarletio/utils/compound_type.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scarletio/utils/compound_type.py b/scarletio/utils/compound_type.py
index 963f51f..895518b 100755
--- a/scarletio/utils/compound_type.py
+++ b/scarletio/utils/compound_type.py
@@ -609,16 +609,25 @@ class CompoundLayer:
         instance_attributes = None
         type_attributes = None
         
-        type_directory = type_.__dict__
         for attribute_name in dir(type_):
             if attribute_name in {'__doc__', '__slots__', '__annotations__', '__module__', '__qualname__', '__class__'}:
                 continue
             
-            try:
-                attribute_value = type_directory[attribute_name]
-            except KeyError:
+            # Look the value up as is. Class & static methods would be bound already if accessed as an attribute.
+            for owner_type in type_.__mro__:
+                try:
+                    attribute_value = owner_type.__dict__[attribute_name]
+                except KeyError:
+                    continue
+                
+                break
+            else:
+                owner_type = None
                 attribute_value = getattr(type_, attribute_name)
             
+            if owner_type is object:
+                continue
+            
             try:
                 default_implementation =  getattr(object, attribute_name)
             except AttributeError:
-- 
2.43.0


From 72bf04548f9546424a1e949481a9daec4370f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 222/242] fix: remove_done_callback not removing bound methods

---
 scarletio/core/traps/future.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/traps/future.py b/scarletio/core/traps/future.py
index 3a896f6..68ad1de 100755
--- a/scarletio/core/traps/future.py
+++ b/scarletio/core/traps/future.py
@@ -380,7 +380,8 @@ class Future:
         index = len(callbacks)
         while index:
             index -= 1
-            if callbacks[index] is func:
+            # Bound methods are created each time they are accessed, so do not check identity.
+            if callbacks[index] == func:
                 del callbacks[index]
                 count += 1
         
-- 
2.43.0


From f34ebb1d68a47827eaed68f76315fd93738828a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:37 +0000
Subject: [PATCH 223/242] fix: fragmented text messages of web sockets in
 different threads being mixed up

---
 scarletio/web_socket/web_socket_common_protocol.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 4bc7ba2..984facd 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -1,6 +1,6 @@
 __all__ = ('WebSocketCommonProtocol', )
 
-import codecs, reprlib
+import reprlib
 import http as module_http
 from collections import OrderedDict
 from os import urandom
@@ -32,7 +32,8 @@ EXTERNAL_CLOSE_CODES = (1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 10
 
 HTTPClient = include('HTTPClient')
 
-DECODER = codecs.getincrementaldecoder('utf-8')(errors = 'strict')
+
+
 
 
 class WebSocketCommonProtocol(HttpReadWriteProtocol):
@@ -710,14 +711,9 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                     f'{WEB_SOCKET_OPERATION_CONTINUOUS!r}.'
                 )
         
+        message = b''.join([frame.data for frame in frames])
         if text:
-            try:
-                message = ''.join(DECODER.decode(frame.data, frame.final) for frame in frames)
-            except:
-                DECODER.reset()
-                raise
-        else:
-            message = b''.join(frame.data for frame in frames)
+            message = message.decode('utf-8')
         
         return message
     
-- 
2.43.0


From c54c4b982319b26031106c4b8503c1f38206cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:56 +0000
Subject: [PATCH 224/242] fix: pausing and resuming a socket transport after
 end of file reported it again

---
 .../transport_layer.py                        | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 046134c..c276b0d 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -543,10 +543,13 @@ class SocketTransportLayer(SocketTransportLayerBase):
     _at_eof : `bool`
         Whether ``.write_eof`` was called.
     
+    _eof_received : `bool`
+        Whether end of file was received, so there is nothing more to read.
+    
     _server : ``None | Server``
         If the transport is server side, it's server is set as this attribute.
     """
-    __slots__ = ('_at_eof', '_server')
+    __slots__ = ('_at_eof', '_eof_received', '_server')
     
     def __new__(cls, loop, extra, socket, protocol, waiter, server):
         """
@@ -571,6 +574,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         
         self._server = server
         self._at_eof = False
+        self._eof_received = False
         
         if (server is not None):
             server._attach()
@@ -671,7 +675,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
     
     @copy_docs(SocketTransportLayerBase.pause_reading)
     def pause_reading(self):
-        if self._closing or self._paused:
+        if self._closing or self._paused or self._eof_received:
             return False
         
         self._paused = True
@@ -685,7 +689,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
             return False
         
         self._paused = False
-        if not self._closing:
+        if not (self._closing or self._eof_received):
             self._loop.add_reader(self._file_descriptor, self._read_ready)
         
         return True
@@ -737,13 +741,16 @@ class SocketTransportLayer(SocketTransportLayerBase):
             if data:
                 self._protocol.data_received(data)
             
-            elif self._protocol.eof_received():
-                # We're keeping the connection open so the protocol can write more, but we still can't receive more,
-                # so remove the reader callback.
-                self._loop.remove_reader(self._file_descriptor)
-            
             else:
-                self.close()
+                self._eof_received = True
+                
+                if self._protocol.eof_received():
+                    # We're keeping the connection open so the protocol can write more, but we still can't receive
+                    # more, so remove the reader callback.
+                    self._loop.remove_reader(self._file_descriptor)
+                
+                else:
+                    self.close()
     
     if MAX_SENT_MESSAGES <= 0:
         def _write_ready(self):
-- 
2.43.0


From b4d46acc04353f6d3a22e9066affad2eac6ccc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 225/242] fix: pipe transports paused or closed from
 connection_made kept reading their pipe

---
 .../protocols_and_transports/unix_pipe_transport_layer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
index 36fa958..ad6f76b 100755
--- a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
@@ -98,7 +98,9 @@ class UnixReadPipeTransportLayer(TransportLayerBase):
             await skip_ready_cycle()
             
             protocol.connection_made(self)
-            loop.add_reader(file_descriptor, self._read_ready)
+            # The protocol may pause or close us from `connection_made`.
+            if not (self._closing or self._paused):
+                loop.add_reader(file_descriptor, self._read_ready)
         
         except:
             self.close()
@@ -376,7 +378,9 @@ class UnixWritePipeTransportLayer(TransportLayerBase):
             # On AIX, the reader trick (to be notified when the read end of the  socket is closed) only works for
             # sockets. On other platforms it works for pipes and sockets.
             if is_socket or (is_fifo and not IS_AIX):
-                loop.add_reader(file_descriptor, self._read_ready)
+                # The protocol may close us from `connection_made`.
+                if (not self._closing) or self._buffer:
+                    loop.add_reader(file_descriptor, self._read_ready)
         except:
             self.close()
             raise
-- 
2.43.0


From 49db0fa46c29c1df92e3b000d3f1d7b4ff533ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 226/242] fix: cancelling a future scheduled its callbacks
 before the future was cancelled

---
 scarletio/core/traps/future.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scarletio/core/traps/future.py b/scarletio/core/traps/future.py
index 68ad1de..77b6b5f 100755
--- a/scarletio/core/traps/future.py
+++ b/scarletio/core/traps/future.py
@@ -125,14 +125,14 @@ class Future:
         state = self._state
         
         if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
+            self._state = state | FUTURE_STATE_SILENCED
             result = 0
         else:
-            state |= FUTURE_STATE_CANCELLED
+            # Set the state first, since the callbacks may be called as soon as they are scheduled (from other threads).
+            self._state = state | FUTURE_STATE_CANCELLED
             result = 1
             self._loop._schedule_callbacks(self)
         
-        self._state = state
         return result
     
     
@@ -148,7 +148,7 @@ class Future:
         state = self._state
         
         if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
+            self._state = state | FUTURE_STATE_SILENCED
             result = 0
         
         else:
@@ -160,12 +160,12 @@ class Future:
                     f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
                 )
             
-            state |= FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
             self._result = exception
+            # Set the state first, since the callbacks may be called as soon as they are scheduled (from other threads).
+            self._state = state | FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
             self._loop._schedule_callbacks(self)
             result = 1
         
-        self._state = state
         return result
         
     
-- 
2.43.0


From 2986e1f9d7b0c88a442e528e3964ed22e3c95a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 227/242] fix: cancelling a task from an other thread while it
 finishes reverted its state

---
 scarletio/core/traps/task.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index bcf3efd..994f5cd 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -114,30 +114,24 @@ class Task(Future):
     
     @copy_docs(Future.cancel)
     def cancel(self):
-        state = self._state
-        
-        if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
+        if self._state & FUTURE_STATE_MASK_DONE:
+            self._state |= FUTURE_STATE_SILENCED
             result = 0
         else:
+            # Do not reuse the state after cancelling the waited future. If we are called from an other thread, the task
+            # may finish meanwhile.
             waited_future = self._waited_future
             if (waited_future is None) or (not waited_future.cancel()):
-                state |= FUTURE_STATE_CANCELLING_SELF
+                self._state |= FUTURE_STATE_CANCELLING_SELF
             
             result = 1
         
-        self._state = state
         return result
     
     
     @copy_docs(Future.cancel_with)
     def cancel_with(self, exception):
-        state = self._state
-        if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
-            result = 0
-        
-        else:
+        if not (self._state & FUTURE_STATE_MASK_DONE):
             if isinstance(exception, type):
                 exception = exception()
             
@@ -145,15 +139,22 @@ class Task(Future):
                 raise TypeError(
                     f'{exception} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
                 )
+        
+        if self._state & FUTURE_STATE_MASK_DONE:
+            self._state |= FUTURE_STATE_SILENCED
+            result = 0
+        
+        else:
+            # Set the exception before cancelling the waited future and do not reuse the state after it. If we are called
+            # from an other thread, the task may finish meanwhile.
+            self._result = exception
             
             waited_future = self._waited_future
             if (waited_future is None) or (not waited_future.cancel()):
-                state |= FUTURE_STATE_CANCELLING_SELF
+                self._state |= FUTURE_STATE_CANCELLING_SELF
             
-            self._result = exception
             result = 1
         
-        self._state = state
         return result
     
     
-- 
2.43.0


From 5704f1080356ef7ea5474fb24c103002208c8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 228/242] fix: removing a callback failed if the callbacks were
 scheduled by an other thread meanwhile

---
 scarletio/core/traps/future.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scarletio/core/traps/future.py b/scarletio/core/traps/future.py
index 77b6b5f..0c3f883 100755
--- a/scarletio/core/traps/future.py
+++ b/scarletio/core/traps/future.py
@@ -380,10 +380,16 @@ class Future:
         index = len(callbacks)
         while index:
             index -= 1
-            # Bound methods are created each time they are accessed, so do not check identity.
-            if callbacks[index] == func:
-                del callbacks[index]
-                count += 1
+            
+            try:
+                callback = callbacks[index]
+                # Bound methods are created each time they are accessed, so do not check identity.
+                if (callback == func) and (callbacks[index] is callback):
+                    del callbacks[index]
+                    count += 1
+            except IndexError:
+                # The callbacks are scheduled by an other thread meanwhile.
+                continue
         
         return count
     
-- 
2.43.0


From 458a922df45aa3df27c69530ec5456a0ee914f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 229/242] fix: two threads could set the exception of the same
 future

---
 scarletio/core/traps/future.py | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/scarletio/core/traps/future.py b/scarletio/core/traps/future.py
index 0c3f883..d04b693 100755
--- a/scarletio/core/traps/future.py
+++ b/scarletio/core/traps/future.py
@@ -145,13 +145,7 @@ class Future:
         result : `int` (`0`, `1`)
             If the future is already done, returns `0`, if it got cancelled, returns `1`.
         """
-        state = self._state
-        
-        if state & FUTURE_STATE_MASK_DONE:
-            self._state = state | FUTURE_STATE_SILENCED
-            result = 0
-        
-        else:
+        if not (self._state & FUTURE_STATE_MASK_DONE):
             if isinstance(exception, type):
                 exception = exception()
             
@@ -159,7 +153,14 @@ class Future:
                 raise TypeError(
                     f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
                 )
-            
+        
+        # Check it again, since an other thread may have finished the future meanwhile.
+        state = self._state
+        if state & FUTURE_STATE_MASK_DONE:
+            self._state = state | FUTURE_STATE_SILENCED
+            result = 0
+        
+        else:
             self._result = exception
             # Set the state first, since the callbacks may be called as soon as they are scheduled (from other threads).
             self._state = state | FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
@@ -167,7 +168,7 @@ class Future:
             result = 1
         
         return result
-        
+    
     
     def silence(self):
         """
@@ -458,8 +459,7 @@ class Future:
         TypeError
             If `StopIteration` is given as `exception`.
         """
-        state = self._state
-        if state & FUTURE_STATE_MASK_DONE:
+        if self._state & FUTURE_STATE_MASK_DONE:
             raise InvalidStateError(self, 'set_exception')
         
         if isinstance(exception, type):
@@ -470,6 +470,11 @@ class Future:
                 f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
             )
         
+        # Check it again, since an other thread may have finished the future meanwhile.
+        state = self._state
+        if state & FUTURE_STATE_MASK_DONE:
+            raise InvalidStateError(self, 'set_exception')
+        
         self._result = exception
         self._state = state | FUTURE_STATE_RESULT_RAISE
         self._loop._schedule_callbacks(self)
@@ -495,8 +500,7 @@ class Future:
         TypeError
             If `StopIteration` is given as `exception`.
         """
-        state = self._state
-        if state & FUTURE_STATE_MASK_DONE:
+        if self._state & FUTURE_STATE_MASK_DONE:
             return 0
         
         if isinstance(exception, type):
@@ -507,6 +511,11 @@ class Future:
                 f'{exception!r} cannot be raised to a(n) {type(self).__name__}; {self!r}.'
             )
         
+        # Check it again, since an other thread may have finished the future meanwhile.
+        state = self._state
+        if state & FUTURE_STATE_MASK_DONE:
+            return 0
+        
         self._result = exception
         self._state = state | FUTURE_STATE_RESULT_RAISE
         self._loop._schedule_callbacks(self)
-- 
2.43.0


From 7236a878ad4c7a25f11cc01a97858b8b07adb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 230/242] fix: call_soon_thread_safe_lazy missed waking up a
 loop started by an other thread meanwhile

---
 scarletio/core/event_loop/event_loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index a416e55..7b2b690 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -444,7 +444,8 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         handle = Handle(callback, args)
         self._ready.append(handle)
         
-        if should_wake_up:
+        # An other thread may have started the event loop meanwhile.
+        if should_wake_up or self.running:
             self.wake_up()
         
         return handle
-- 
2.43.0


From 8c3ffc09fca0ed8d477153087f38da4880d6d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 231/242] fix: scheduling to a loop was dropped if an other
 thread started it meanwhile

---
 scarletio/core/event_loop/event_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 7b2b690..ddf67ba 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -179,10 +179,10 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         Returns
         -------
         started : `bool`
-            Whether the thread was started up.
+            Whether the thread was started up. Also if an other thread started it up meanwhile.
         """
         if self.is_started():
-            return False
+            return self.running
         
         self._do_start()
         return True
-- 
2.43.0


From a83f0b004f1e05f39ab4c2d4074d5bea8c55042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:11 +0000
Subject: [PATCH 232/242] fix: requests of a closed http client raised
 AttributeError instead of ConnectionError

---
 scarletio/http_client/http_client.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index 3a6fa39..2a92114 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -292,7 +292,11 @@ class HTTPClient(RichAttributeErrorBaseType):
                     None,
                 )
                 
-                connection = await self.connector.connect(request)
+                connector = self.connector
+                if connector is None:
+                    raise ConnectionError('Connector is closed.')
+                
+                connection = await connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
                 
@@ -560,7 +564,11 @@ class HTTPClient(RichAttributeErrorBaseType):
                     ssl_fingerprint,
                 )
                 
-                connection = await self.connector.connect(request)
+                connector = self.connector
+                if connector is None:
+                    raise ConnectionError('Connector is closed.')
+                
+                connection = await connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
                 
-- 
2.43.0


From 7069ddabf98b83e3d70f506e74eda03387692933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:29 +0000
Subject: [PATCH 233/242] fix: exceptions retrieved through a shield were
 reported as never retrieved

---
 scarletio/core/traps/future_chaining.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/traps/future_chaining.py b/scarletio/core/traps/future_chaining.py
index 044a79b..88a252b 100755
--- a/scarletio/core/traps/future_chaining.py
+++ b/scarletio/core/traps/future_chaining.py
@@ -1,6 +1,7 @@
 __all__ = ('shield',)
 
 from .future import Future
+from .future_states import FUTURE_STATE_RESULT_RAISE, FUTURE_STATE_RESULT_RAISE_RETRIEVED
 
 
 class _FutureChainer:
@@ -45,10 +46,15 @@ class _FutureChainer:
         
         # set result
         if target.is_pending():
-            target._state |= future._state
+            state = future._state
+            target._state |= state
             target._result = future._result
             
             target._loop._schedule_callbacks(target)
+            
+            # From now on the exception can be retrieved through the target.
+            if state & FUTURE_STATE_RESULT_RAISE:
+                future._state = state | FUTURE_STATE_RESULT_RAISE_RETRIEVED
 
 
 class _ChainRemover:
-- 
2.43.0


From 795481f44fbc80b6d334ac10ebc23b08af1f47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 234/242] fix: ignore case multi value dictionary lost values
 when built from keys differing only in casing

---
 scarletio/utils/ignore_case_multi_value_dictionary.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scarletio/utils/ignore_case_multi_value_dictionary.py b/scarletio/utils/ignore_case_multi_value_dictionary.py
index 1c36d53..851c96c 100755
--- a/scarletio/utils/ignore_case_multi_value_dictionary.py
+++ b/scarletio/utils/ignore_case_multi_value_dictionary.py
@@ -28,14 +28,9 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
             for key, values in dict.items(iterable):
                 set_item(self, key, values.copy())
         
-        elif isinstance(iterable, MultiValueDictionary):
-            for key, values in dict.items(iterable):
-                set_item(self, IgnoreCaseString(key), values.copy())
-        
         elif isinstance(iterable, dict):
-            for key, value in iterable.items():
-                key = IgnoreCaseString(key)
-                set_item(self, key, [value])
+            # The keys may differ only in their casing, so more of them can refer to the same line.
+            IgnoreCaseMultiValueDictionary.extend(self, iterable)
         
         else:
             for item in iterable:
-- 
2.43.0


From 1e4102b08c785741aeb8d545c439073c5b60544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:22 +0000
Subject: [PATCH 235/242] fix: weak item dictionary yielded keys and values
 whose pair was already dead

---
 scarletio/utils/weak_item_dictionary.py | 50 +++++++++++++++++++------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 27b02c1..dc68044 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -1,10 +1,10 @@
 __all__ = ('WeakItemDictionary',)
 
-from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryValueIteratorBase
+from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
 from .weak_core import KeyedReferer, WeakReferer, add_to_pending_removals
-from .weak_key_dictionary import _WeakKeyDictionaryCallback, _WeakKeyDictionaryKeyIterator
+from .weak_key_dictionary import _WeakKeyDictionaryCallback
 
 
 @has_docs
@@ -60,6 +60,34 @@ class _WeakItemDictionaryValueCallback:
                 pass
 
 
+class _WeakItemDictionaryKeyIterator(DictionaryKeyIteratorBase):
+    __slots__ = ()
+    
+    @copy_docs(DictionaryKeyIteratorBase.__iter__)
+    def __iter__(self):
+        parent = self._parent
+        parent._iterating += 1
+        
+        try:
+            for key_reference, value_reference in dict.items(parent):
+                key = key_reference()
+                if (key is None) or (value_reference() is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
+                yield key
+                continue
+        
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
+    
+    
+    @copy_docs(DictionaryKeyIteratorBase.__contains__)
+    def __contains__(self, contains_key):
+        return (contains_key in self._parent)
+
+
 class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
     __slots__ = ()
     
@@ -69,10 +97,10 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
         parent._iterating += 1
         
         try:
-            for value_reference in dict.values(parent):
+            for key_reference, value_reference in dict.items(parent):
                 value = value_reference()
-                if (value is None):
-                    add_to_pending_removals(parent, value_reference.key)
+                if (value is None) or (key_reference() is None):
+                    add_to_pending_removals(parent, key_reference)
                     continue
                 
                 yield value
@@ -88,10 +116,10 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
         parent = self._parent
         parent._iterating += 1
         try:
-            for value_reference in dict.values(parent):
+            for key_reference, value_reference in dict.items(parent):
                 value = value_reference()
-                if (value is None):
-                    add_to_pending_removals(parent, value_reference.key)
+                if (value is None) or (key_reference() is None):
+                    add_to_pending_removals(parent, key_reference)
                     continue
                 
                 if value == contains_value:
@@ -339,7 +367,7 @@ class WeakItemDictionary(dict):
     @has_docs
     def __iter__(self):
         """Returns a ``_WeakItemDictionaryKeyIterator`` iterating over the weak item dictionary's keys."""
-        return iter(_WeakKeyDictionaryKeyIterator(self))
+        return iter(_WeakItemDictionaryKeyIterator(self))
     
     # __le__ -> same
     
@@ -575,9 +603,9 @@ class WeakItemDictionary(dict):
         
         Returns
         -------
-        key_iterator : ``_WeakKeyDictionaryKeyIterator``
+        key_iterator : ``_WeakItemDictionaryKeyIterator``
         """
-        return _WeakKeyDictionaryKeyIterator(self)
+        return _WeakItemDictionaryKeyIterator(self)
     
     
     @has_docs
-- 
2.43.0


From 87d3fb10f445b94e1a54fbc9c717388e28fd0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:22 +0000
Subject: [PATCH 236/242] fix: urls with a single digit port lost their whole
 host

---
 scarletio/web_common/url/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/constants.py b/scarletio/web_common/url/constants.py
index c6e9d32..5891041 100755
--- a/scarletio/web_common/url/constants.py
+++ b/scarletio/web_common/url/constants.py
@@ -81,7 +81,7 @@ URL_RP = re_compile(
     f'{HOST_RP.pattern!s}'
     ')'
     # port number
-    '(?::(\\d{2,5}))?'
+    '(?::(\\d{1,5}))?'
     ')?'
     # resource path
     '(/[-a-z\u00a1-\uffff\U00010000-\U0010ffff0-9._~%!$&\'()*+,;=:@/]*)?'
-- 
2.43.0


From 07ba2a6f0ce9a1fb15549d5cc239c80b6d114d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:11 +0000
Subject: [PATCH 237/242] fix: deleting already dead values of weak
 dictionaries succeeded and broke their iteration

---
 scarletio/utils/hybrid_value_dictionary.py | 12 ++++++++++--
 scarletio/utils/weak_item_dictionary.py    | 11 +++++------
 scarletio/utils/weak_value_dictionary.py   | 12 ++++++++++--
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index a60a019..6588d3c 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -230,7 +230,15 @@ class HybridValueDictionary(dict):
         return True
     
     # __delattr__ -> same
-    # __delitem__ -> same
+    @has_docs
+    def __delitem__(self, key):
+        """Deletes the value of the hybrid value dictionary which matches the given key."""
+        # Values which are waiting for removal are already not in.
+        if key not in self:
+            raise KeyError(key)
+        
+        dict.__delitem__(self, key)
+    
     # __dir__ -> same
     # __doc__ -> same
     
@@ -554,7 +562,7 @@ class HybridValueDictionary(dict):
         KeyError
             If `key` could not be matched and `default` value is was not given either.
         """
-        value_pair = dict.pop(self, key, ...)
+        value_pair = dict.pop(self, key, ...) if (key in self) else ...
         
         if (value_pair is not ...):
             value_weakreferable, value_or_reference = value_pair
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index dc68044..c8ce157 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -283,12 +283,11 @@ class WeakItemDictionary(dict):
     @has_docs
     def __delitem__(self, key):
         """Deletes the value of the weak item dictionary which matches the given key."""
-        try:
-            key = WeakReferer(key)
-        except TypeError:
-            raise KeyError(key) from None
+        # Values which are waiting for removal are already not in.
+        if key not in self:
+            raise KeyError(key)
         
-        dict.__delitem__(self, key)
+        dict.__delitem__(self, WeakReferer(key))
     
     # __dir__ -> same
     # __doc__ -> same
@@ -637,7 +636,7 @@ class WeakItemDictionary(dict):
             except TypeError:
                 break
             
-            value_reference = dict.pop(self, key_reference, ...)
+            value_reference = dict.pop(self, key_reference, ...) if (key in self) else ...
             if (value_reference is ...):
                 break
                 
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 72692cf..34c43ed 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -263,7 +263,15 @@ class WeakValueDictionary(dict):
         return False
     
     # __delattr__ -> same
-    # __delitem__ -> same
+    @has_docs
+    def __delitem__(self, key):
+        """Deletes the value of the weak value dictionary which matches the given key."""
+        # Values which are waiting for removal are already not in.
+        if key not in self:
+            raise KeyError(key)
+        
+        dict.__delitem__(self, key)
+    
     # __dir__ -> same
     # __doc__ -> same
     
@@ -570,7 +578,7 @@ class WeakValueDictionary(dict):
         KeyError
             If `key` could not be matched and `default` value is was not given either.
         """
-        value_reference = dict.pop(self, key, ...)
+        value_reference = dict.pop(self, key, ...) if (key in self) else ...
         if (value_reference is not ...):
             value = value_reference()
             if (value is not None):
-- 
2.43.0


From 4064fb3952d407314f6bb3687d12be687d1ba9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:49 +0000
Subject: [PATCH 238/242] fix: weak item dictionary bound new items to the key
 of an already dead one

---
 scarletio/utils/weak_item_dictionary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index c8ce157..b1480a3 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -480,6 +480,12 @@ class WeakItemDictionary(dict):
         """Adds the given `key` - `value` pair to the weak item dictionary."""
         # Dictionaries keep their original key if its value is reassigned, so keep referring to that too.
         old_value_reference = dict.get(self, WeakReferer(key), None)
+        
+        # If the value is already dead, the item is just waiting for removal, its key must not be kept.
+        if (old_value_reference is not None) and (old_value_reference() is None):
+            dict.__delitem__(self, old_value_reference.key)
+            old_value_reference = None
+        
         if old_value_reference is None:
             key_reference = WeakReferer(key, self._key_callback)
         else:
-- 
2.43.0


From eeb7be6aee29b5fd9531f4c94517ded43e57367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:47 +0000
Subject: [PATCH 239/242] fix: setting an existing attribute through the task
 wrapper of the asyncio extension failed

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 9230023..ea72caa 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3720,7 +3720,7 @@ class TaskWrapper:
         if (descriptor is not None):
             setter = getattr(descriptor, '__set__', None)
             if (setter is not None):
-                setter(descriptor, task, type(task))
+                setter(task, attribute_value)
                 return
         
         additional_attributes = object.__getattribute__(self, '_additional_attributes')
-- 
2.43.0


From aa82bb0a8f476ac71787fbccb2915b446733249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 240/242] fix: eager task factories of the asyncio extension
 could not create tasks

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index ea72caa..91b9530 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3074,7 +3074,7 @@ class Task(ScarletTask, metaclass = TaskMeta, ignore = True):
         '__weakref__', # Required by anyio
     )
     
-    def __new__(cls, coroutine, loop = None, name = None, eager_start = False):
+    def __new__(cls, coroutine, loop = None, name = None, eager_start = False, context = None):
         """A coroutine wrapped in a Future."""
         if not iscoroutine(coroutine):
             raise TypeError(f'a coroutine was expected, got {coroutine!r}')
-- 
2.43.0


From 28edfd73b83a94deb340f73a35b8ab455ff5d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 241/242] fix: draining a stream of the asyncio extension from
 more tasks failed

---
 scarletio/ext/asyncio/asyncio.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 91b9530..e680ca1 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2468,7 +2468,7 @@ class FlowControlMixin(Protocol):
         
         self._loop = loop
         self._paused = False
-        self._drain_waiter = None
+        self._drain_waiters = deque()
         self._connection_lost = False
     
     def pause_writing(self):
@@ -2479,35 +2479,31 @@ class FlowControlMixin(Protocol):
         assert self._paused
         self._paused = False
         
-        waiter = self._drain_waiter
-        if waiter is not None:
-            self._drain_waiter = None
+        for waiter in self._drain_waiters:
             waiter.set_result_if_pending(None)
     
     def connection_lost(self, exception):
         self._connection_lost = True
         if not self._paused:
             return
-        waiter = self._drain_waiter
-        if waiter is None:
-            return
-        self._drain_waiter = None
         
-        if exception is None:
-            waiter.set_result_if_pending(None)
-        else:
-            waiter.set_exception_if_pending(exception)
+        for waiter in self._drain_waiters:
+            if exception is None:
+                waiter.set_result_if_pending(None)
+            else:
+                waiter.set_exception_if_pending(exception)
     
     async def _drain_helper(self):
         if self._connection_lost:
             raise ConnectionResetError('Connection lost')
         if not self._paused:
             return
-        waiter = self._drain_waiter
-        assert waiter is None or waiter.cancelled()
         waiter = self._loop.create_future()
-        self._drain_waiter = waiter
-        await waiter
+        self._drain_waiters.append(waiter)
+        try:
+            await waiter
+        finally:
+            self._drain_waiters.remove(waiter)
     
     def _get_close_waiter(self, stream):
         raise NotImplementedError
-- 
2.43.0


From ab6893ac0abe926445d4feaf67c1ee8190d5b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:28 +0000
Subject: [PATCH 242/242] fix: putting on an over full queue of the asyncio
 extension lost the item

---
 scarletio/ext/asyncio/asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index e680ca1..c7fca5a 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2023,7 +2023,7 @@ class Queue(AsyncQueue):
         await self.set_result_wait(element)
     
     def put_nowait(self, element):
-        if len(self) == self.max_length:
+        if not self._has_free_space():
             raise QueueFull()
         
         self.set_result(element)
@@ -2069,7 +2069,7 @@ class LifoQueue(AsyncLifoQueue):
         await self.set_result_wait(element)
     
     def put_nowait(self, element):
-        if len(self) == self.max_length:
+        if not self._has_free_space():
             raise QueueFull()
         
         self.set_result(element)
-- 
2.43.0

