From d4d03cee30bc3f31a4c69b6397fcc7f6d6e81e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 01/34] fix: reject semaphore waiters when finalized with
 eventfd compiled in

The waiters queue is used whenever the semaphore has no eventfd, which also
happens at runtime when the AIO backend is not io_uring. Those waiters were
only rejected and released when eventfd support was compiled out.
---
 src/dex-semaphore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 76d80b9..2c1d60d 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -150,7 +150,8 @@ dex_semaphore_finalize (DexObject *object)
       close (semaphore->eventfd);
       semaphore->eventfd = -1;
     }
-#else
+#endif
+
   while (semaphore->waiters.length > 0)
     {
       DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&semaphore->waiters)->data;
@@ -159,7 +160,6 @@ dex_semaphore_finalize (DexObject *object)
                            g_error_copy (&semaphore_closed_error));
       dex_unref (waiter);
     }
-#endif
 
   DEX_OBJECT_CLASS (dex_semaphore_parent_class)->finalize (object);
 }
-- 
2.43.0


From 596f53597ce21cd8f9a5c5fee3b0f5b6f80fb695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 02/34] fix: do not reject semaphore waiters while holding the
 semaphore lock

Completing a waiter runs its dependents, which may use the semaphore again
and deadlock on the (non-recursive) object lock.
---
 src/dex-semaphore.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 2c1d60d..ad11a27 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -321,6 +321,8 @@ dex_semaphore_wait (DexSemaphore *semaphore)
 void
 dex_semaphore_close (DexSemaphore *semaphore)
 {
+  GQueue queue;
+
   g_return_if_fail (DEX_IS_SEMAPHORE (semaphore));
 
   dex_object_lock (semaphore);
@@ -333,20 +335,18 @@ dex_semaphore_close (DexSemaphore *semaphore)
     }
 #endif
 
-  if (semaphore->waiters.length > 0)
-    {
-      GQueue queue = semaphore->waiters;
-      semaphore->waiters = (GQueue) {NULL, NULL, 0};
-
-      while (queue.length)
-        {
-          DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&queue)->data;
-          dex_future_complete (DEX_FUTURE (waiter),
-                               NULL,
-                               g_error_copy (&semaphore_closed_error));
-          dex_unref (waiter);
-        }
-    }
+  queue = semaphore->waiters;
+  semaphore->waiters = (GQueue) {NULL, NULL, 0};
 
   dex_object_unlock (semaphore);
+
+  /* Reject the waiters outside our object lock */
+  while (queue.length > 0)
+    {
+      DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&queue)->data;
+      dex_future_complete (DEX_FUTURE (waiter),
+                           NULL,
+                           g_error_copy (&semaphore_closed_error));
+      dex_unref (waiter);
+    }
 }
-- 
2.43.0


From 9d06beec19d3fc4915925c719226b778438d70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 03/34] fix: do not discard a future that other futures still
 await

has_awaiting was accumulated from the discarded links only, after clearing
their awaiting bit, so it was never set and the class was asked to discard
(cancel) ongoing work as soon as the first of several dependents went away.
---
 src/dex-future.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index e3e46a0..fd9984d 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -425,11 +425,13 @@ dex_future_discard (DexFuture *future,
               cf->awaiting = FALSE;
             }
 
-          has_awaiting |= cf->awaiting;
-
           g_queue_unlink (&future->chained, &cf->link);
           g_queue_push_tail_link (&discarded, &cf->link);
         }
+      else
+        {
+          has_awaiting |= cf->awaiting;
+        }
     }
 
   dex_object_unlock (future);
-- 
2.43.0


From 810883025add533b23bb76e20f7fbd6c13c5b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 04/34] fix: read cancel_on_discard under the object lock

dex_async_pair_set_cancel_on_discard() writes it under the lock.
---
 src/dex-async-pair.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dex-async-pair.c b/src/dex-async-pair.c
index d9a218a..5dab0d2 100644
--- a/src/dex-async-pair.c
+++ b/src/dex-async-pair.c
@@ -35,8 +35,13 @@ static void
 dex_async_pair_discard (DexFuture *future)
 {
   DexAsyncPair *async_pair = DEX_ASYNC_PAIR (future);
+  gboolean cancel_on_discard;
 
-  if (async_pair->cancel_on_discard)
+  dex_object_lock (async_pair);
+  cancel_on_discard = async_pair->cancel_on_discard;
+  dex_object_unlock (async_pair);
+
+  if (cancel_on_discard)
     g_cancellable_cancel (async_pair->cancellable);
 }
 
-- 
2.43.0


From fc8af6d9dbc9a14159cf33718c497e4d50e7f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 05/34] fix: discard a timeout safely while its source is being
 dispatched

dex_timeout_source_func() drops the last reference to the source under the
object lock, possibly between the check and g_source_destroy() here.
---
 src/dex-timeout.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index d0a787c..6ea56a2 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -53,9 +53,17 @@ static void
 dex_timeout_discard (DexFuture *future)
 {
   DexTimeout *timeout = DEX_TIMEOUT (future);
+  GSource *source;
 
-  if (timeout->source != NULL)
-    g_source_destroy (timeout->source);
+  dex_object_lock (timeout);
+  source = g_steal_pointer (&timeout->source);
+  dex_object_unlock (timeout);
+
+  if (source != NULL)
+    {
+      g_source_destroy (source);
+      g_source_unref (source);
+    }
 }
 
 static void
-- 
2.43.0


From f6c48be5948921a205069195d2f4838459721b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 06/34] fix: do not share a bit-field word between fiber
 cancellation and scheduling

dex_fiber_discard() updated the word holding running/runnable/exited/released
under the object lock while the scheduler updates it under its own mutex, so
either update could be lost.
---
 src/dex-fiber-private.h | 6 +++++-
 src/dex-fiber.c         | 6 ++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index 12a6304..e075905 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -54,7 +54,11 @@ struct _DexFiber
   guint runnable : 1;
   guint exited : 1;
   guint released : 1;
-  guint cancelled : 1;
+
+  /* Set when the fiber is discarded, from any thread. This is not part of
+   * the flags above as those are protected by the fiber scheduler's mutex.
+   */
+  gint cancelled;
 
   /* The requested stack size */
   gsize stack_size;
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 5f0ea52..43f4855 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -72,9 +72,7 @@ dex_fiber_discard (DexFuture *future)
 
   g_assert (DEX_IS_FIBER (fiber));
 
-  dex_object_lock (fiber);
-  fiber->cancelled = TRUE;
-  dex_object_unlock (fiber);
+  g_atomic_int_set (&fiber->cancelled, TRUE);
 }
 
 static gboolean
@@ -437,7 +435,7 @@ dex_fiber_await (DexFiber  *fiber,
   /* Move fiber from runnable to blocked queue */
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
-  cancelled = fiber->cancelled;
+  cancelled = g_atomic_int_get (&fiber->cancelled);
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
-- 
2.43.0


From 968acbe33cae49fe1820a13c4ce408b4d15d150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 07/34] fix: report cancellation when a cancelled fiber awaits

Awaiting a pending future from a cancelled fiber returned the error of the
still pending future (DEX_ERROR_PENDING) instead of
DEX_ERROR_FIBER_CANCELLED.
---
 src/dex-fiber.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 43f4855..07b9b1f 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -165,7 +165,13 @@ dex_fiber_start (DexFiber *fiber)
   if (future != NULL)
     {
       dex_await_borrowed (future, NULL);
-      dex_future_complete_from (DEX_FUTURE (fiber), future);
+
+      /* We come back early if the fiber has been cancelled */
+      if (dex_future_is_pending (future))
+        dex_future_complete_from (DEX_FUTURE (fiber), cancelled_future);
+      else
+        dex_future_complete_from (DEX_FUTURE (fiber), future);
+
       dex_unref (future);
     }
   else
@@ -423,7 +429,7 @@ dex_fiber_current (void)
   return fiber_scheduler ? fiber_scheduler->running : NULL;
 }
 
-static inline void
+static inline DexFuture *
 dex_fiber_await (DexFiber  *fiber,
                  DexFuture *future)
 {
@@ -442,12 +448,13 @@ dex_fiber_await (DexFiber  *fiber,
 
   /* Now request the future notify us of completion */
   if (cancelled)
-    dex_future_chain (cancelled_future, DEX_FUTURE (fiber));
-  else
-    dex_future_chain (future, DEX_FUTURE (fiber));
+    future = cancelled_future;
+  dex_future_chain (future, DEX_FUTURE (fiber));
 
   /* Swap to the scheduler to continue processing fibers */
   dex_fiber_context_switch (&fiber->context, &fiber_scheduler->context);
+
+  return future;
 }
 
 const GValue *
@@ -470,9 +477,7 @@ dex_await_borrowed (DexFuture  *future,
       return NULL;
     }
 
-  dex_fiber_await (fiber, future);
-
-  return dex_future_get_value (future, error);
+  return dex_future_get_value (dex_fiber_await (fiber, future), error);
 }
 
 /**
-- 
2.43.0


From 82aba0cdbeb71fd739356062b73aaeed93df828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 08/34] fix: read the number of runnable fibers under the
 scheduler mutex

---
 src/dex-fiber.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 07b9b1f..b3440dc 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -337,7 +337,9 @@ dex_fiber_scheduler_dispatch (GSource     *source,
    * the queue so that we don't exhaust the main loop endlessly
    * processing completed fibers w/o yielding to other GSource.
    */
+  g_mutex_lock (&fiber_scheduler->mutex);
   max_iterations = MAX (1, fiber_scheduler->runnable.length);
+  g_mutex_unlock (&fiber_scheduler->mutex);
 
   dex_thread_storage_get ()->fiber_scheduler = fiber_scheduler;
   while (max_iterations && dex_fiber_scheduler_iteration (fiber_scheduler))
-- 
2.43.0


From 7251a9634a92c9d9a96fe4bccbcbc15173cf309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 09/34] fix: do not invert the lock order in dex_weak_ref_set()

It acquired the mutex of the object while holding the mutex of the weak ref,
but dex_unref() acquires the weak ref mutexes while holding the mutex of the
object. Clearing a weak ref while another thread drops the last other
reference could deadlock, such as from dex_future_complete().
---
 src/dex-object.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/dex-object.c b/src/dex-object.c
index db45b1c..1696b8b 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -198,7 +198,7 @@ dex_object_add_weak (gpointer    mem_block,
   g_assert (weak_ref != NULL);
   g_assert (weak_ref->prev == NULL);
   g_assert (weak_ref->next == NULL);
-  g_assert (weak_ref->mem_block == mem_block);
+  g_assert (weak_ref->mem_block == NULL);
 
   /* Must own a full ref to acquire a weak ref */
   g_return_if_fail (object->ref_count > 0);
@@ -209,6 +209,9 @@ dex_object_add_weak (gpointer    mem_block,
   if (object->weak_refs != NULL)
     object->weak_refs->prev = weak_ref;
   object->weak_refs = weak_ref;
+  g_mutex_lock (&weak_ref->mutex);
+  weak_ref->mem_block = mem_block;
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
 }
 
@@ -240,7 +243,10 @@ dex_object_remove_weak (gpointer    mem_block,
 
   weak_ref->next = NULL;
   weak_ref->prev = NULL;
+
+  g_mutex_lock (&weak_ref->mutex);
   weak_ref->mem_block = NULL;
+  g_mutex_unlock (&weak_ref->mutex);
 
   dex_object_unlock (object);
 }
@@ -408,21 +414,19 @@ dex_weak_ref_set (DexWeakRef *weak_ref,
   g_return_if_fail (!mem_block || DEX_IS_OBJECT (mem_block));
   g_return_if_fail (!mem_block || DEX_OBJECT (mem_block)->ref_count > 0);
 
-  g_mutex_lock (&weak_ref->mutex);
-
-  old_mem_block = dex_weak_ref_get_locked (weak_ref);
+  /* The weak ref mutex must not be held while acquiring the mutex of
+   * an object as dex_unref() acquires them in the opposite order.
+   */
+  old_mem_block = dex_weak_ref_get (weak_ref);
 
   if (old_mem_block != mem_block)
     {
       if (old_mem_block != NULL)
         dex_object_remove_weak (old_mem_block, weak_ref);
-      weak_ref->mem_block = mem_block;
       if (mem_block != NULL)
         dex_object_add_weak (mem_block, weak_ref);
     }
 
-  g_mutex_unlock (&weak_ref->mutex);
-
   dex_clear (&old_mem_block);
 }
 
-- 
2.43.0


From 37cf04499f0bbf794464241d45e99f9e20b5c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 10/34] fix: ignore finalized dependents when deciding whether
 to discard

Futures that were chained but have been finalized since do not await the
result anymore.
---
 src/dex-future.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index fd9984d..7f32958 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -388,7 +388,7 @@ void
 dex_future_discard (DexFuture *future,
                     DexFuture *chained)
 {
-  gboolean has_awaiting = FALSE;
+  DexFuture *awaiting = NULL;
   gboolean matched = FALSE;
   GQueue discarded = G_QUEUE_INIT;
 
@@ -428,9 +428,10 @@ dex_future_discard (DexFuture *future,
           g_queue_unlink (&future->chained, &cf->link);
           g_queue_push_tail_link (&discarded, &cf->link);
         }
-      else
+      else if (awaiting == NULL && cf->awaiting)
         {
-          has_awaiting |= cf->awaiting;
+          /* NULL if that future has been finalized */
+          awaiting = dex_weak_ref_get (&cf->wr);
         }
     }
 
@@ -448,7 +449,7 @@ dex_future_discard (DexFuture *future,
    * awaiting our response, then request the class discard the future,
    * possibly cancelling anything in flight.
    */
-  if (matched && !has_awaiting)
+  if (matched && awaiting == NULL)
     {
       if (DEX_FUTURE_GET_CLASS (future)->discard)
         {
@@ -457,6 +458,8 @@ dex_future_discard (DexFuture *future,
           dex_unref (future);
         }
     }
+
+  dex_clear (&awaiting);
 }
 
 /**
-- 
2.43.0


From 6a67ac9e2c6b791eddad626a8d4312efb44a78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 11/34] fix: make DexDelayed follow the delayed future

The arguments to dex_future_chain() were reversed, so the delayed future got
completed from the DexDelayed rather than the other way around, and releasing
it before the delayed future completed rejected it with DEX_ERROR_PENDING.
---
 src/dex-delayed.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/dex-delayed.c b/src/dex-delayed.c
index e71806b..f1af982 100644
--- a/src/dex-delayed.c
+++ b/src/dex-delayed.c
@@ -53,6 +53,7 @@ dex_delayed_propagate (DexFuture *future,
                        DexFuture *completed)
 {
   DexDelayed *delayed = DEX_DELAYED (future);
+  DexFuture *awaiting = NULL;
   gboolean ret = FALSE;
 
   g_assert (DEX_IS_DELAYED (delayed));
@@ -62,9 +63,11 @@ dex_delayed_propagate (DexFuture *future,
   if (delayed->corked)
     ret = TRUE;
   else
-    dex_clear (&delayed->future);
+    awaiting = g_steal_pointer (&delayed->future);
   dex_object_unlock (delayed);
 
+  dex_clear (&awaiting);
+
   return ret;
 }
 
@@ -125,7 +128,7 @@ dex_delayed_new (DexFuture *future)
   delayed->corked = TRUE;
   delayed->future = dex_ref (future);
 
-  dex_future_chain (DEX_FUTURE (delayed), future);
+  dex_future_chain (future, DEX_FUTURE (delayed));
 
   return DEX_FUTURE (delayed);
 }
@@ -142,14 +145,21 @@ dex_delayed_release (DexDelayed *delayed)
   if (delayed->corked)
     {
       delayed->corked = FALSE;
-      complete = g_steal_pointer (&delayed->future);
+
+      if (delayed->future != NULL)
+        complete = dex_ref (delayed->future);
     }
 
   dex_object_unlock (delayed);
 
   if (complete != NULL)
     {
-      dex_future_complete_from (DEX_FUTURE (delayed), complete);
+      /* If it is still pending then dex_delayed_propagate() will let the
+       * result through once it completes.
+       */
+      if (!dex_future_is_pending (complete))
+        dex_future_complete_from (DEX_FUTURE (delayed), complete);
+
       dex_clear (&complete);
     }
 }
@@ -174,7 +184,7 @@ dex_delayed_dup_future (DexDelayed *delayed)
   g_return_val_if_fail (DEX_IS_DELAYED (delayed), NULL);
 
   dex_object_lock (delayed);
-  ret = delayed->future ? dex_ref (delayed->future) : NULL;
+  ret = delayed->corked && delayed->future ? dex_ref (delayed->future) : NULL;
   dex_object_unlock (delayed);
 
   return ret;
-- 
2.43.0


From 6eb82a60a76eb04b2bb7abe4e19bb283f5323889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 12/34] fix: do not leak the DexUnixSignal when the signal is
 delivered

---
 src/dex-unix-signal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index 532110c..e54f7be 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -95,6 +95,8 @@ dex_unix_signal_source_func (gpointer data)
       g_value_init (&value, G_TYPE_INT);
       g_value_set_int (&value, unix_signal->signum);
       dex_future_complete (DEX_FUTURE (unix_signal), &value, NULL);
+
+      dex_unref (unix_signal);
     }
 
   return G_SOURCE_REMOVE;
-- 
2.43.0


From 6d2ecd74bf14f9711b5620d43fe02eac9d94c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 13/34] fix: report the error of failed io_uring operations

The (negative) result was negated twice and so negative values were passed
to g_io_error_from_errno() and g_strerror().
---
 src/dex-uring-future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 5e3010b..cd98d57 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -90,7 +90,7 @@ complete_ssize (DexUringFuture *uring_future,
   if (value < 0)
     dex_future_complete (DEX_FUTURE (uring_future),
                          NULL,
-                         create_error (-value));
+                         create_error (value));
   else
     dex_future_complete (DEX_FUTURE (uring_future),
                          &(GValue) { G_TYPE_INT64, {{.v_int64 = value}}},
-- 
2.43.0


From 60b47760a911bd4651bd97326a0b5a49c91a740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 14/34] fix: do not leak futures queued to the io_uring context

The queue already owns a reference which is given to the sqe.
---
 src/dex-uring-aio-backend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index e189e7e..0f68cd4 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -171,7 +171,7 @@ dex_uring_aio_context_prepare (GSource *source,
 
       future = g_queue_pop_head (&aio_context->queued);
       dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, dex_ref (future));
+      io_uring_sqe_set_data (sqe, future);
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
-- 
2.43.0


From 3e415a19fe6f9c96229b6e6eb84c5bbc1ed77b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 15/34] fix: compare the kernel minor version if the major
 version is the same

---
 src/dex-uring-aio-backend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index 0f68cd4..5c2b3ac 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -87,7 +87,7 @@ dex_uring_check_kernel_version (int major,
   if (kernel_major == 0)
     return FALSE;
 
-  return kernel_major >= major ||
+  return kernel_major > major ||
          (kernel_major == major && kernel_minor >= minor);
 }
 
-- 
2.43.0


From a3307f83cb4129c739bef0fda9e361ded9dfbaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 16/34] fix: release the work stealing queue when its GSource
 is finalized

---
 src/dex-work-stealing-queue.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dex-work-stealing-queue.c b/src/dex-work-stealing-queue.c
index ef58cca..0c13c0c 100644
--- a/src/dex-work-stealing-queue.c
+++ b/src/dex-work-stealing-queue.c
@@ -119,10 +119,19 @@ dex_work_stealing_queue_source_dispatch (GSource     *source,
   return G_SOURCE_CONTINUE;
 }
 
+static void
+dex_work_stealing_queue_source_finalize (GSource *source)
+{
+  DexWorkStealingQueueSource *real_source = (DexWorkStealingQueueSource *)source;
+
+  g_clear_pointer (&real_source->work_stealing_queue, dex_work_stealing_queue_unref);
+}
+
 static GSourceFuncs dex_work_stealing_queue_source_funcs = {
   .prepare = dex_work_stealing_queue_source_prepare,
   .check = dex_work_stealing_queue_source_check,
   .dispatch = dex_work_stealing_queue_source_dispatch,
+  .finalize = dex_work_stealing_queue_source_finalize,
 };
 
 GSource *
-- 
2.43.0


From 9275cb45bd147c3245a58eb244242be730cb057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 17/34] fix: read the name of a DexAsyncResult under its mutex

---
 src/dex-async-result.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index e416c86..f6e9690 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -144,9 +144,15 @@ dex_async_result_init (DexAsyncResult *self)
 const char *
 dex_async_result_get_name (DexAsyncResult *self)
 {
+  const char *name;
+
   g_return_val_if_fail (DEX_IS_ASYNC_RESULT (self), NULL);
 
-  return self->name;
+  g_mutex_lock (&self->mutex);
+  name = self->name;
+  g_mutex_unlock (&self->mutex);
+
+  return name;
 }
 
 void
@@ -401,11 +407,13 @@ dex_async_result_await (DexAsyncResult *async_result,
   g_mutex_lock (&async_result->mutex);
   if G_UNLIKELY (async_result->await_once != FALSE)
     {
+      const char *name = async_result->name;
+
       g_mutex_unlock (&async_result->mutex);
       g_critical ("%s() called more than once on %s @ %p [%s]",
                   G_STRFUNC, G_OBJECT_TYPE_NAME (async_result),
                   async_result,
-                  async_result->name ? async_result->name : "unnamed task");
+                  name ? name : "unnamed task");
       return;
     }
   async_result->await_once = TRUE;
-- 
2.43.0


From fa1b13972e4dc411cc449412899e83c88c8df383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 18/34] fix: use a power of two for the capacity of the work
 stealing queue

Slots are selected by masking the index with capacity-1. With 255, pairs of
neighboring indexes share a slot, so pushing a second work item before the
first was popped overwrote the first and ran the second one twice.
---
 src/dex-thread-pool-worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2d2a3d6..d37a45e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -520,7 +520,7 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->main_context = g_main_context_new ();
   thread_pool_worker->main_loop = g_main_loop_new (thread_pool_worker->main_context, FALSE);
   thread_pool_worker->global_work_queue = dex_ref (work_queue);
-  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (255);
+  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (256);
   thread_pool_worker->set = set;
 
   /* Now spawn our thread to process events via GSource */
-- 
2.43.0


From ef5748e724c43e57aa5aeb7768de70223307095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 19/34] fix: keep the worker set alive for as long as its
 workers

The set is released with the thread pool scheduler, but workers may outlive
that and continue using it from their stealing source.
---
 src/dex-thread-pool-worker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index d37a45e..2d2077e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -189,6 +189,8 @@ dex_thread_pool_worker_finalize (DexObject *object)
 
   dex_clear (&thread_pool_worker->global_work_queue);
 
+  g_clear_pointer (&thread_pool_worker->set, dex_thread_pool_worker_set_unref);
+
   g_assert (thread_pool_worker->set_link.prev == NULL);
   g_assert (thread_pool_worker->set_link.next == NULL);
 
@@ -521,7 +523,7 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->main_loop = g_main_loop_new (thread_pool_worker->main_context, FALSE);
   thread_pool_worker->global_work_queue = dex_ref (work_queue);
   thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (256);
-  thread_pool_worker->set = set;
+  thread_pool_worker->set = dex_thread_pool_worker_set_ref (set);
 
   /* Now spawn our thread to process events via GSource */
   g_mutex_lock (&thread_pool_worker->setup_mutex);
-- 
2.43.0


From e357ebec092a05b99233ed552108dd3bbd1c9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 20/34] fix: handle spurious wakeups when waiting for a worker
 to be set up

---
 src/dex-thread-pool-worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2d2077e..0dfe39b 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -530,7 +530,8 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->thread = g_thread_new ("dex-thread-pool-worker",
                                              dex_thread_pool_worker_thread_func,
                                              thread_pool_worker);
-  g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
+  while (thread_pool_worker->status == DEX_THREAD_POOL_WORKER_INITIAL)
+    g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
   failed = thread_pool_worker->status == DEX_THREAD_POOL_WORKER_FINISHED;
   g_mutex_unlock (&thread_pool_worker->setup_mutex);
 
-- 
2.43.0


From b5bc89034804cf11d7a2665fb02114d6c1b2856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 21/34] fix: do not release the worker thread twice

g_thread_join() consumes the reference on the thread.
---
 src/dex-thread-pool-worker.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 0dfe39b..2485668 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -168,7 +168,7 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_source_unref (idle_source);
 
   /* Now wait for the thread to process items and exit the thread */
-  g_thread_join (thread_pool_worker->thread);
+  g_thread_join (g_steal_pointer (&thread_pool_worker->thread));
 
 #ifdef G_ENABLE_DEBUG
   atomic_thread_fence (memory_order_seq_cst);
@@ -182,7 +182,6 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
 
-  g_clear_pointer (&thread_pool_worker->thread, g_thread_unref);
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
-- 
2.43.0


From a610da993de66f11129d2a179cd68e8cc799c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 22/34] fix: do not run stolen work items while holding the
 worker set lock

A work item may run for an arbitrary time or iterate the main context, which
recursively acquires the reader lock and deadlocks with a waiting writer.
---
 src/dex-thread-pool-worker.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2485668..d7e4abd 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -355,20 +355,13 @@ dex_thread_pool_worker_thread_func (gpointer data)
 
 static gboolean
 dex_thread_pool_worker_maybe_steal (DexThreadPoolWorker *thread_pool_worker,
-                                    DexThreadPoolWorker *neighbor)
+                                    DexThreadPoolWorker *neighbor,
+                                    DexWorkItem         *out_work_item)
 {
-  DexWorkItem work_item;
-
   g_assert (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
   g_assert (DEX_IS_THREAD_POOL_WORKER (neighbor));
 
-  if (dex_work_stealing_queue_steal (neighbor->work_stealing_queue, &work_item))
-    {
-      dex_work_item_invoke (&work_item);
-      return TRUE;
-    }
-
-  return FALSE;
+  return dex_work_stealing_queue_steal (neighbor->work_stealing_queue, out_work_item);
 }
 
 typedef struct _DexThreadPoolWorkerSet
@@ -442,22 +435,28 @@ static inline void
 dex_thread_pool_worker_set_foreach (DexThreadPoolWorkerSet *set,
                                     DexThreadPoolWorker    *head)
 {
+  DexWorkItem work_item;
+  gboolean stolen = FALSE;
+
   g_rw_lock_reader_lock (&set->rwlock);
 
   for (const GList *iter = head->set_link.next; iter; iter = iter->next)
     {
-      if (dex_thread_pool_worker_maybe_steal (head, iter->data))
+      if ((stolen = dex_thread_pool_worker_maybe_steal (head, iter->data, &work_item)))
         goto unlock;
     }
 
   for (const GList *iter = set->queue.head; iter->data != head; iter = iter->next)
     {
-      if (dex_thread_pool_worker_maybe_steal (head, iter->data))
+      if ((stolen = dex_thread_pool_worker_maybe_steal (head, iter->data, &work_item)))
         goto unlock;
     }
 
 unlock:
   g_rw_lock_reader_unlock (&set->rwlock);
+
+  if (stolen)
+    dex_work_item_invoke (&work_item);
 }
 
 typedef struct _DexThreadPoolWorkerSetSource
-- 
2.43.0


From 99fe4b10c16fa17873938cda83cc044452ad9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 23/34] fix: stop stealing before draining the main context of
 a worker

The stealing source always reports to be ready so g_main_context_pending()
never returned FALSE and the thread could not be joined.
---
 src/dex-thread-pool-worker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index d7e4abd..c9cc2c2 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -331,6 +331,9 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Discard our work queue loop */
   dex_clear (&global_work_queue_loop);
 
+  /* Stop stealing work, which otherwise is always considered pending */
+  g_source_destroy (thread_pool_worker->set_source);
+
   /* Flush out any pending operations */
   while (g_main_context_pending (thread_pool_worker->main_context))
     g_main_context_iteration (thread_pool_worker->main_context, FALSE);
@@ -339,7 +342,6 @@ dex_thread_pool_worker_thread_func (gpointer data)
   dex_thread_pool_worker_set_remove (thread_pool_worker->set, thread_pool_worker);
 
   /* Ensure our sources will not continue on */
-  g_source_destroy (thread_pool_worker->set_source);
   g_source_destroy (thread_pool_worker->local_source);
   g_source_destroy (thread_pool_worker->fiber_scheduler);
 
-- 
2.43.0


From f82b663c0d1c7767c05988e6d56f7545dfd1f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 24/34] fix: release the AIO context of a worker

---
 src/dex-thread-pool-worker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index c9cc2c2..5e5a3b5 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -181,6 +181,8 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->set_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
+  if (thread_pool_worker->aio_context != NULL)
+    g_source_unref ((GSource *)g_steal_pointer (&thread_pool_worker->aio_context));
 
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
@@ -344,6 +346,7 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Ensure our sources will not continue on */
   g_source_destroy (thread_pool_worker->local_source);
   g_source_destroy (thread_pool_worker->fiber_scheduler);
+  g_source_destroy ((GSource *)thread_pool_worker->aio_context);
 
   thread_pool_worker->status = DEX_THREAD_POOL_WORKER_FINISHED;
   g_main_context_pop_thread_default (thread_pool_worker->main_context);
-- 
2.43.0


From 5c4ffeaa2773d5b33bfc98b1024f6d9522c022e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 25/34] fix: release the backend when a posix AIO context is
 finalized

---
 src/dex-posix-aio-backend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index 77e91a8..a86b3b1 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -147,6 +147,7 @@ dex_posix_aio_context_finalize (GSource *source)
   g_assert (DEX_IS_POSIX_AIO_BACKEND (aio_context->parent.aio_backend));
   g_assert (aio_context->completed.length == 0);
 
+  dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
 }
 
-- 
2.43.0


From ce8bf7897391f681886ab615a679f89c8e97ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 26/34] fix: advance blocked senders when all items of a
 channel are received

---
 src/dex-channel.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 99f617e..136685e 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -442,12 +442,14 @@ reject_receive:
 DexFuture *
 dex_channel_receive_all (DexChannel *channel)
 {
+  g_autoptr(GPtrArray) advanced = NULL;
   g_autoptr(GPtrArray) ret = NULL;
   GQueue stolen = G_QUEUE_INIT;
 
   g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
 
   ret = g_ptr_array_new_with_free_func (dex_unref);
+  advanced = g_ptr_array_new_with_free_func (dex_unref);
 
   dex_object_lock (channel);
 
@@ -465,8 +467,19 @@ dex_channel_receive_all (DexChannel *channel)
       g_ptr_array_add (ret, g_steal_pointer (&item->future));
     }
 
+  /* Advance @sendq items into @queue now that there is capacity */
+  while (channel->sendq.length > 0 && channel->queue.length < channel->capacity)
+    {
+      DexChannelItem *item = g_queue_pop_head_link (&channel->sendq)->data;
+      g_queue_push_tail_link (&channel->queue, &item->link);
+      g_ptr_array_add (advanced, dex_ref (item->send));
+    }
+
   dex_object_unlock (channel);
 
+  for (guint i = 0; i < advanced->len; i++)
+    dex_promise_resolve_uint (g_ptr_array_index (advanced, i), i + 1);
+
   while (stolen.length > 0)
     dex_channel_item_free (g_queue_pop_head_link (&stolen)->data);
 
-- 
2.43.0


From 42240378018135db4b495259179ec09ab046bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 27/34] fix: do not let a late rejection override the future
 that decided a set

---
 src/dex-future-set.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 8dd1d4a..fedbe82 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -66,6 +66,18 @@ DEX_DEFINE_FINAL_TYPE (DexFutureSet, dex_future_set, DEX_TYPE_FUTURE)
 
 static GValue success_value = G_VALUE_INIT;
 
+static inline gboolean
+dex_future_set_is_decided_locked (DexFutureSet *future_set)
+{
+  if ((future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST) == 0)
+    return FALSE;
+
+  return ((future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0 &&
+          future_set->n_resolved > 0) ||
+         ((future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0 &&
+          future_set->n_rejected > 0);
+}
+
 static gboolean
 dex_future_set_propagate (DexFuture *future,
                           DexFuture *completed)
@@ -83,8 +95,12 @@ dex_future_set_propagate (DexFuture *future,
 
   dex_object_lock (future_set);
 
-  /* Short-circuit if we've already returned a value */
-  if (future->status != DEX_FUTURE_STATUS_PENDING)
+  /* Short-circuit if we've already returned a value or if another future
+   * has already decided our result but is yet to complete us with it (which
+   * happens after releasing the lock).
+   */
+  if (future->status != DEX_FUTURE_STATUS_PENDING ||
+      dex_future_set_is_decided_locked (future_set))
     {
       dex_object_unlock (future_set);
       return TRUE;
-- 
2.43.0


From 7eebe59d30a45ee8685d8a74cc282c8f44d732a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 28/34] fix: make the result available before scheduling the
 DexAsyncResult callback

---
 src/dex-async-result.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index f6e9690..46758a2 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -333,14 +333,19 @@ static gboolean
 dex_async_result_complete_in_idle_cb (gpointer user_data)
 {
   DexAsyncResult *async_result = user_data;
+  DexFuture *future;
 
   g_assert (DEX_IS_ASYNC_RESULT (async_result));
 
   async_result->callback (async_result->source_object,
                           G_ASYNC_RESULT (async_result),
-                          g_steal_pointer (&async_result->user_data));
+                          async_result->user_data);
+
+  g_mutex_lock (&async_result->mutex);
+  future = g_steal_pointer (&async_result->future);
+  g_mutex_unlock (&async_result->mutex);
 
-  dex_clear (&async_result->future);
+  dex_clear (&future);
 
   return G_SOURCE_REMOVE;
 }
@@ -426,16 +431,20 @@ dex_async_result_await (DexAsyncResult *async_result,
 
   /* We have to be careful about ownership here and ensure we
    * drop our references when the callback is executed.
+   *
+   * The future must be in place before the callback can be scheduled as
+   * that may be dispatched by another thread.
    */
   g_object_ref (async_result);
-  new_future = dex_future_finally (dex_future_first (future, cancellable, NULL),
-                                   dex_async_result_await_cb,
-                                   g_object_ref (async_result),
-                                   g_object_unref);
+  new_future = dex_future_first (future, cancellable, NULL);
   g_mutex_lock (&async_result->mutex);
   g_assert (async_result->future == NULL);
-  async_result->future = g_steal_pointer (&new_future);
+  async_result->future = dex_ref (new_future);
   g_mutex_unlock (&async_result->mutex);
+  dex_future_disown (dex_future_finally (g_steal_pointer (&new_future),
+                                         dex_async_result_await_cb,
+                                         g_object_ref (async_result),
+                                         g_object_unref));
   g_object_unref (async_result);
 }
 
-- 
2.43.0


From 1af80edf618ae626570299d54a25374b2f3a0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 29/34] fix: disconnect the handler of a cancellable future
 also after it fired

---
 src/dex-cancellable.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dex-cancellable.c b/src/dex-cancellable.c
index 2c0ed74..c6bf2d7 100644
--- a/src/dex-cancellable.c
+++ b/src/dex-cancellable.c
@@ -56,8 +56,11 @@ dex_cancellable_finalize (DexObject *object)
 {
   DexCancellable *self = (DexCancellable *)object;
 
+  /* Possibly called from within the handler, where waiting for
+   * the handler with g_cancellable_disconnect() would deadlock.
+   */
   if (self->handler)
-    g_cancellable_disconnect (self->cancellable, self->handler);
+    g_signal_handler_disconnect (self->cancellable, self->handler);
 
   g_clear_object (&self->cancellable);
 
@@ -93,14 +96,11 @@ dex_cancellable_cancelled_cb (GCancellable *cancellable,
   g_assert (wr != NULL);
 
   if ((self = dex_weak_ref_get (wr)))
-    {
-      self->handler = 0;
-      dex_future_complete (DEX_FUTURE (self),
-                           NULL,
-                           g_error_new_literal (G_IO_ERROR,
-                                                G_IO_ERROR_CANCELLED,
-                                                "Operation cancelled"));
-    }
+    dex_future_complete (DEX_FUTURE (self),
+                         NULL,
+                         g_error_new_literal (G_IO_ERROR,
+                                              G_IO_ERROR_CANCELLED,
+                                              "Operation cancelled"));
 }
 
 static void
-- 
2.43.0


From 9d1f9d008564f8af68416cf8f32435d839ba51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 30/34] fix: do not truncate the length of large io_uring
 transfers

---
 src/dex-uring-future.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index cd98d57..b0d4da8 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -134,6 +134,16 @@ dex_uring_future_cqe (DexUringFuture      *uring_future,
     }
 }
 
+/* The length of an operation is limited to 32 bits in the sqe; a larger
+ * count must become a short transfer rather than be truncated (to an empty
+ * one for multiples of 4 GiB), like read() and write() do themselves.
+ */
+static inline guint
+clamp_count (gsize count)
+{
+  return MIN (count, (gsize)G_MAXINT);
+}
+
 void
 dex_uring_future_sqe (DexUringFuture      *uring_future,
                       struct io_uring_sqe *sqe)
@@ -144,7 +154,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_read (sqe,
                           uring_future->read.fd,
                           uring_future->read.buffer,
-                          uring_future->read.count,
+                          clamp_count (uring_future->read.count),
                           uring_future->read.offset);
       break;
 
@@ -152,7 +162,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_write (sqe,
                            uring_future->write.fd,
                            uring_future->write.buffer,
-                           uring_future->write.count,
+                           clamp_count (uring_future->write.count),
                            uring_future->write.offset);
       break;
 
-- 
2.43.0


From 80289540cf8044ab6fa8f81eab2498c4a7297fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 31/34] fix: use the current file position for any negative
 offset with io_uring

---
 src/dex-uring-future.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index b0d4da8..4b572b4 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -144,6 +144,15 @@ clamp_count (gsize count)
   return MIN (count, (gsize)G_MAXINT);
 }
 
+/* io_uring only takes -1 for the current file position while the other
+ * backend uses it for every negative offset.
+ */
+static inline guint64
+clamp_offset (goffset offset)
+{
+  return MAX (offset, (goffset)-1);
+}
+
 void
 dex_uring_future_sqe (DexUringFuture      *uring_future,
                       struct io_uring_sqe *sqe)
@@ -155,7 +164,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
                           uring_future->read.fd,
                           uring_future->read.buffer,
                           clamp_count (uring_future->read.count),
-                          uring_future->read.offset);
+                          clamp_offset (uring_future->read.offset));
       break;
 
     case DEX_URING_TYPE_WRITE:
@@ -163,7 +172,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
                            uring_future->write.fd,
                            uring_future->write.buffer,
                            clamp_count (uring_future->write.count),
-                           uring_future->write.offset);
+                           clamp_offset (uring_future->write.offset));
       break;
 
     default:
-- 
2.43.0


From 82472d1a8103113b596794e15b19b7c88b741e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 32/34] fix: keep the main context alive until it was woken by
 the posix aio backend

---
 src/dex-posix-aio-backend.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index a86b3b1..af7a511 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -77,11 +77,16 @@ dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
 
   g_mutex_lock (&posix_aio_context->mutex);
   g_queue_push_tail (&posix_aio_context->completed, posix_aio_future);
-  main_context = dex_posix_aio_future_get_main_context (posix_aio_future);
+  /* The future may be completed and released once we unlock */
+  if ((main_context = dex_posix_aio_future_get_main_context (posix_aio_future)))
+    g_main_context_ref (main_context);
   g_mutex_unlock (&posix_aio_context->mutex);
 
   if (main_context)
-    g_main_context_wakeup (main_context);
+    {
+      g_main_context_wakeup (main_context);
+      g_main_context_unref (main_context);
+    }
 }
 
 static inline void
-- 
2.43.0


From 88db29e4ce5663870c0856eb27bc2d799737b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 33/34] fix: do not publish the minimum stack size before it is
 final

A concurrent first caller could observe the intermediate value and create
a stack smaller than the system's minimum.
---
 src/dex-platform.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dex-platform.c b/src/dex-platform.c
index 389cd71..de3b65a 100644
--- a/src/dex-platform.c
+++ b/src/dex-platform.c
@@ -60,6 +60,7 @@ dex_get_min_stack_size (void)
       min_stack_size = 4096*16;
 #else
       long sc_thread_stack_min;
+      gsize size;
 
       /* On FreeBSD we can get 2048 for min-stack-size which
        * doesn't really work well for pretty much anything.
@@ -69,11 +70,14 @@ dex_get_min_stack_size (void)
        * we shouldn't, but the easiest thing to do right now
        * is to just enforce 2+pages + guard page.
        */
-      min_stack_size = dex_get_page_size () * 2;
+      size = dex_get_page_size () * 2;
 
       sc_thread_stack_min = sysconf (_SC_THREAD_STACK_MIN);
-      if (sc_thread_stack_min != -1 && sc_thread_stack_min > min_stack_size)
-        min_stack_size = sc_thread_stack_min;
+      if (sc_thread_stack_min != -1 && sc_thread_stack_min > size)
+        size = sc_thread_stack_min;
+
+      /* Other threads may be looking, only show them the final size */
+      min_stack_size = size;
 #endif
     }
 
-- 
2.43.0


From 4421ef15afc820e09dc3b2409b2da6ccd5dbbc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 34/34] fix: reject a non-scheduler in
 dex_scheduler_get_main_context()

---
 src/dex-scheduler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dex-scheduler.c b/src/dex-scheduler.c
index cf58826..e35e119 100644
--- a/src/dex-scheduler.c
+++ b/src/dex-scheduler.c
@@ -158,6 +158,8 @@ dex_scheduler_push (DexScheduler     *scheduler,
 GMainContext *
 dex_scheduler_get_main_context (DexScheduler *scheduler)
 {
+  g_return_val_if_fail (DEX_IS_SCHEDULER (scheduler), NULL);
+
   return DEX_SCHEDULER_GET_CLASS (scheduler)->get_main_context (scheduler);
 }
 
-- 
2.43.0

