From 21b1f7461f19092fa3f696f52b0debd079dc6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 01/68] fix: when_all: a late stop request must not complete
 the operation a second time

---
 include/stdexec/__detail/__when_all.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..17af000 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,21 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count has
+        // already dropped to zero, then the last child has arrived and is completing the
+        // operation (it is waiting for us in the destructor of the stop callback), so there
+        // is nothing left to stop and we must not arrive a second time.
+        std::size_t __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (0 == __count)
+          {
+            return;
+          }
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From 2261b7ff1bdc80527ef255ae19492e2390a99df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 02/68] fix: stop_token: a callback run at registration must
 see what preceded the stop request

---
 include/stdexec/stop_token.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..b75084a 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -325,7 +325,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     const noexcept -> bool
   {
     STDEXEC::__stok::__spin_wait __spin;
-    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
     do
     {
       while (true)
@@ -342,7 +342,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         else
         {
           __spin.__wait();
-          __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+          __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
         }
       }
     }
@@ -351,7 +351,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
                                              ? (__locked_flag_ | __stop_requested_flag_)
                                              : __locked_flag_,
                                            STDEXEC::__std::memory_order_acq_rel,
-                                           STDEXEC::__std::memory_order_relaxed));
+                                           STDEXEC::__std::memory_order_acquire));
 
     // Lock acquired successfully
     return true;
-- 
2.43.0


From 9436d1f1d3ee72a43130a5e29b8ec2d8c86e1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 03/68] fix: when_any: a late stop request must not complete
 the operation a second time

---
 include/exec/when_any.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..c05eb53 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,21 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. If the count has
+          // already dropped to zero, then the last child has arrived and is completing the
+          // operation (it is waiting for us in the destructor of the stop callback), so there
+          // is nothing left to stop and we must not arrive a second time.
+          std::size_t __count = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (0 == __count)
+            {
+              return;
+            }
+          }
+          while (!__op_->__count_.compare_exchange_weak(__count,
+                                                        __count + 1,
+                                                        __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From ac4475a72844f3218d392ba1c074a40b072aee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 04/68] fix: let connecting a finally sender throw instead of
 terminating

The connect member of __finally's sender (used by affine and exec::finally) was
unconditionally noexcept although connecting the wrapped senders may throw.
---
 include/stdexec/__detail/__finally.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..7318e38 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -167,7 +167,8 @@ namespace STDEXEC
       constexpr explicit __final_opstate(__cleanup_callback_t* __cleanup_callback,
                                          _CvFinalSender&&      __final,
                                          _Receiver&&           __rcvr,
-                                         _Env2                 __env2) noexcept
+                                         _Env2                 __env2)
+        noexcept(__nothrow_connectable<_CvFinalSender, __final_receiver_t>)
         : __opstate_base<_Storage, _Receiver, _Env2>{static_cast<_Receiver&&>(__rcvr),
                                                      static_cast<_Env2&&>(__env2)}
         , __cleanup_callback_{__cleanup_callback}
@@ -226,10 +227,14 @@ namespace STDEXEC
       using __base_t            = __final_opstate_t<_CvInitialSender, _CvFinalSender, _Receiver>;
       using __initial_results_t = __base_t::__results_t;
       using __cv_fn             = __copy_cvref_fn<_CvInitialSender>;
+      using __initial_receiver_t =
+        __initial_receiver<_CvFinalSender, __initial_results_t, _Receiver, __env2_t>;
 
       constexpr explicit __opstate(_CvInitialSender&& __initial,
                                    _CvFinalSender&&   __final,
                                    _Receiver          __rcvr)
+        noexcept(__nothrow_connectable<_CvInitialSender, __initial_receiver_t>
+                 && __nothrow_connectable<_CvFinalSender, typename __base_t::__final_receiver_t>)
         : __base_t(&__cleanup_initial_opstate,
                    static_cast<_CvFinalSender&&>(__final),
                    static_cast<_Receiver&&>(__rcvr),
@@ -246,8 +251,6 @@ namespace STDEXEC
       }
 
      private:
-      using __initial_receiver_t =
-        __initial_receiver<_CvFinalSender, __initial_results_t, _Receiver, __env2_t>;
       using __initial_opstate_t = connect_result_t<_CvInitialSender, __initial_receiver_t>;
 
       static constexpr void __cleanup_initial_opstate(__base_t* __base) noexcept
@@ -359,8 +362,11 @@ namespace STDEXEC
 
       template <__decays_to<__sender> _Self, class _Receiver>
       STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
-        -> __opstate_t<_Self, _Receiver>
+                                                _Receiver&&  __receiver)
+        noexcept(__nothrow_constructible_from<__opstate_t<_Self, _Receiver>,
+                                              __copy_cvref_t<_Self, _InitialSender>,
+                                              __copy_cvref_t<_Self, _FinalSender>,
+                                              _Receiver>) -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
                                              static_cast<_Self&&>(__self).__final_sndr_,
-- 
2.43.0


From 78f181c7a4cbdef3e2f3789caf0cc8123331bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 05/68] fix: affine's attributes forward queries to the child
 instead of default-constructing the answer

---
 include/stdexec/__detail/__affine.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 2306561..f7ee1d5 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -163,10 +163,11 @@ namespace STDEXEC
       template <__forwarding_query _Tag, class... _Args>
         requires(!__completion_query<_Tag>)
              && __queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>
-      constexpr auto query(_Tag, _Args const &...) const noexcept
-        -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
+      constexpr auto query(_Tag, _Args const &...__args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>)
+          -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
       {
-        return __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>{};
+        return __query<_Tag>()(STDEXEC::get_env(__sndr_), __args...);
       }
 
       _Sender const &__sndr_;
-- 
2.43.0


From 454948b782151b22aa5afcf0a9e36372653120b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 06/68] fix: spawn_future: defer completion that happens inside
 the forwarded stop request

When the future's stop callback forwards a stop request to the spawned
operation and that operation completes synchronously from within
request_stop(), the registered receiver was completed and the state
destroyed while its stop source was still executing request_stop().
Complete the future once request_stop() has returned instead.
---
 include/stdexec/__detail/__spawn_future.hpp | 31 +++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..2237410 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -41,6 +41,7 @@ import stdexec;
 
 #  if !STDEXEC_USE_MODULES()
 #    include <memory>
+#    include <thread>
 #    include <type_traits>
 #    include <utility>
 #  endif
@@ -374,6 +375,13 @@ namespace STDEXEC
       // be completed with set_stopped because the future received and processed a stop request
       // before the producer could finish.
       void (*__callback_)(__spawn_future_state*, void*) noexcept;
+      // The thread that is executing request_stop() from within __try_cancel, if any. If the
+      // producer completes on that very thread then it must not complete the receiver, and so
+      // destroy *this, until request_stop() has returned.
+      __std::atomic<std::thread::id> __canceling_thread_{};
+      // Set by __complete when it has deferred to __try_cancel; accessed only by the thread named
+      // by __canceling_thread_.
+      bool __complete_deferred_{false};
 
       void __destroy() noexcept
       {
@@ -399,6 +407,17 @@ namespace STDEXEC
       {
         auto* __self = static_cast<__spawn_future_state*>(__base_ptr);
 
+        if (__self->__canceling_thread_.load(__std::memory_order_relaxed)
+            == std::this_thread::get_id())
+        {
+          // The producer is completing in response to, and from within, the call to request_stop()
+          // in __try_cancel, further up this thread's stack. If the consumer has registered its
+          // receiver then completing it would destroy the stop source that is still in use; let
+          // __try_cancel complete the operation once request_stop() has returned.
+          __self->__complete_deferred_ = true;
+          return;
+        }
+
         // Consider: it'd be nice to eagerly destruct __op_ here; to do that, we'd need to store
         //           it in an anonymous union, use a scope-guard in the constructor to ensure it
         //           gets destructed in the event that try_associate() throws, and manually destroy
@@ -512,7 +531,19 @@ namespace STDEXEC
         //
         // This operation constitutes a write that must be published to whichever thread invokes
         // __destroy.
+        //
+        // If the producer completes on this thread, inside of request_stop(), it leaves the rest
+        // of its work to us. (If it completes on another thread, it can't destroy the current object
+        // before the stop callback we're running in has returned.)
+        __self->__canceling_thread_.store(std::this_thread::get_id(), __std::memory_order_relaxed);
         __self->__stop_source_.request_stop();
+        __self->__canceling_thread_.store(std::thread::id(), __std::memory_order_relaxed);
+
+        if (__self->__complete_deferred_)
+        {
+          __do_complete(__self);
+          return;
+        }
 
         // If neither __complete nor __consume has been invoked then mark us as having stop requested.
         // This only succeeds if stop is requested very early in the process so it's quite unlikely.
-- 
2.43.0


From 54e4e46f3a2b46dbc45901100d80645ae805d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 07/68] fix: transform_sender reports noexcept only when every
 recursive transform is noexcept

---
 include/stdexec/__detail/__transform_sender.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__transform_sender.hpp b/include/stdexec/__detail/__transform_sender.hpp
index 88f2151..3d365cd 100644
--- a/include/stdexec/__detail/__transform_sender.hpp
+++ b/include/stdexec/__detail/__transform_sender.hpp
@@ -64,7 +64,7 @@ namespace STDEXEC
         }
         else if constexpr (__same_as<__result_t, _Sndr>)
         {
-          return __declfn<__result_t, __is_nothrow>();
+          return __declfn<__result_t, (_Nothrow && __is_nothrow)>();
         }
         else if constexpr (__same_as<_OpTag, start_t>)
         {
-- 
2.43.0


From 87dd84bc4ed4410a8d63219414b800c1aa86aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 08/68] fix: split and ensure_started count their consumers so
 that the last one requests stop

---
 include/exec/detail/shared.hpp | 97 ++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 28 deletions(-)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index 58407d9..a026ef4 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -133,6 +133,59 @@ namespace experimental::execution::__shared
                                               static_cast<_Env&&>(__env));
   }
 
+  ////////////////////////////////////////////////////////////////////////////////////////
+  // A consumer's (that is, a sender's or an operation state's) reference to the shared state.
+  // The shared state counts its consumers so that exactly one of them, the one that goes away
+  // last, asks the operation to stop.
+  template <class _ShState>
+  struct __consumer_ref
+  {
+    explicit __consumer_ref(std::shared_ptr<_ShState> __sh_state) noexcept
+      : __sh_state_(std::move(__sh_state))
+    {
+      __sh_state_->__attach();
+    }
+
+    __consumer_ref(__consumer_ref&&) noexcept = default;
+
+    __consumer_ref(__consumer_ref const & __other) noexcept
+      : __sh_state_(__other.__sh_state_)
+    {
+      if (__sh_state_)
+      {
+        __sh_state_->__attach();
+      }
+    }
+
+    __consumer_ref& operator=(__consumer_ref __other) noexcept
+    {
+      __sh_state_.swap(__other.__sh_state_);
+      return *this;
+    }
+
+    ~__consumer_ref()
+    {
+      __reset();
+    }
+
+    void __reset() noexcept
+    {
+      if (auto __sh_state = std::exchange(__sh_state_, {}))
+      {
+        __sh_state->__detach();
+      }
+    }
+
+    [[nodiscard]]
+    auto operator->() const noexcept -> _ShState*
+    {
+      return __sh_state_.get();
+    }
+
+   private:
+    std::shared_ptr<_ShState> __sh_state_;
+  };
+
   ////////////////////////////////////////////////////////////////////////////////////////
   struct __local_state_base
   {
@@ -154,7 +207,7 @@ namespace experimental::execution::__shared
   {
     using __stok_t         = stop_token_of_t<env_of_t<_Receiver>>;
     using __sh_state_t     = __shared_state<_CvChild, _Env>;
-    using __sh_state_ptr_t = std::shared_ptr<__sh_state_t>;
+    using __sh_state_ptr_t = __consumer_ref<__sh_state_t>;
 
     static_assert(__one_of<_Tag, split_t, ensure_started_t>);
 
@@ -166,14 +219,6 @@ namespace experimental::execution::__shared
 
     STDEXEC_IMMOVABLE(__local_state);
 
-    constexpr ~__local_state()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     constexpr void start() noexcept
     {
       // Scenario: there are no more split senders, this is the only operation state, the
@@ -204,7 +249,7 @@ namespace experimental::execution::__shared
       // Otherwise, failed to add the waiter because of a stop-request.
       // Complete synchronously with set_stopped().
       __on_stop_.reset();
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_.__reset();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -231,7 +276,7 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_.__reset();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -413,14 +458,16 @@ namespace experimental::execution::__shared
       }
     }
 
-    constexpr void __detach() noexcept
+    void __attach() noexcept
+    {
+      __consumers_.fetch_add(1, __std::memory_order_relaxed);
+    }
+
+    // @pre The caller holds a reference to *this.
+    void __detach() noexcept
     {
-      // increments the use count:
-      auto __started_ptr = __started_ref_.load();
-      // If the use count is 3 (one for *this, one for __started_ref_, and one for
-      // __started_ptr), then we are the final "consumer". Ask the operation to stop
-      // early.
-      if (3 == __started_ptr.use_count())
+      // If we are the final "consumer" and the operation is running, ask it to stop early.
+      if (1 == __consumers_.fetch_sub(1, __std::memory_order_acq_rel) && __started_ref_.load())
       {
         this->__stop_source_.request_stop();
       }
@@ -431,7 +478,9 @@ namespace experimental::execution::__shared
       __started_ref_.store({}, __std::memory_order_release);
     }
 
-    __std::atomic_flag __started_{};
+    // the number of senders and operation states that refer to this shared state:
+    __std::atomic<std::size_t> __consumers_{0};
+    __std::atomic_flag         __started_{};
     // this shared_ptr is non-null when the operation is running:
     __std::__atomic_shared_ptr<__shared_state> __started_ref_;
     connect_result_t<_CvSender, __receiver_t>  __shared_op_;
@@ -498,14 +547,6 @@ namespace experimental::execution::__shared
     __sndr(__sndr const &)            = default;
     __sndr& operator=(__sndr const &) = default;
 
-    constexpr ~__sndr()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     template <class>
     static consteval auto get_completion_signatures()
     {
@@ -531,7 +572,7 @@ namespace experimental::execution::__shared
 
    private:
     friend struct exec::ensure_started_t;
-    std::shared_ptr<__shared_state<_CvChild, _Env>> __sh_state_;
+    __consumer_ref<__shared_state<_CvChild, _Env>> __sh_state_;
   };
 
   template <class _Tag, class _CvChild, class _Env>
-- 
2.43.0


From a03ebcb5bf91c03e339263cea76cda327eae845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 09/68] fix: async_scope future: move assignment no longer
 destroys a running operation

---
 include/exec/async_scope.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index 7635dbb..0461c7b 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -651,8 +651,16 @@ namespace experimental::execution
      public:
       using sender_concept = STDEXEC::sender_tag;
 
-      __future(__future&&)                    = default;
-      auto operator=(__future&&) -> __future& = default;
+      __future(__future&&) = default;
+
+      // The destructor must get to see the state that is being replaced: its operation may
+      // still be running.
+      auto operator=(__future&& __other) noexcept -> __future&
+      {
+        __future __tmp{static_cast<__future&&>(__other)};
+        __state_.swap(__tmp.__state_);
+        return *this;
+      }
 
       ~__future() noexcept
       {
-- 
2.43.0


From c4fafbd8ab351aea3a93f9b46f8c81cc6cbcca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 10/68] fix: schedule_all: the operation completes only after
 start() has released it, and sees every item

---
 include/exec/static_thread_pool.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..8954ff2 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1574,7 +1574,8 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        // The number of items that have not completed yet, plus one for start() itself.
+        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1658,6 +1659,15 @@ namespace experimental::execution
           , rcvr_(static_cast<Receiver&&>(rcvr))
         {}
 
+        // Whoever arrives last completes the sequence, and the operation may be gone afterwards.
+        void arrive() noexcept
+        {
+          if (this->countdown_.fetch_sub(1, __std::memory_order_acq_rel) == 1)
+          {
+            STDEXEC::set_value(static_cast<Receiver&&>(rcvr_));
+          }
+        }
+
         Receiver rcvr_;
       };
 
@@ -1668,20 +1678,12 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         auto get_env() const noexcept -> env_of_t<Receiver>
@@ -1768,6 +1770,8 @@ namespace experimental::execution
           std::unique_lock lock{this->start_mutex_};
           this->has_started_ = true;
           this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          lock.unlock();
+          this->arrive();
         }
 
        private:
-- 
2.43.0


From 80a7714f8868b26e0bdfb0b587558147df3625bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 11/68] fix: lifo_queue: a thief sees the items of a block that
 was refilled and granted again

---
 include/exec/detail/bwos_lifo_queue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..69f22c1 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -552,8 +552,13 @@ namespace experimental::execution::bwos
       result.status = lifo_queue_error_code::empty;
       return result;
     }
-    // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    // Try to claim the item at spos by atomically incrementing steal_tail_. The owner may have taken
+    // the block over, refilled it and granted it again since tail_ was read; acquire ordering ensures
+    // we see the items it granted last.
+    if (!steal_tail_.compare_exchange_strong(spos,
+                                             spos + 1,
+                                             STDEXEC::__std::memory_order_acquire,
+                                             STDEXEC::__std::memory_order_relaxed))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From 99da06836c42b5aa060b987adf8e7dc2b5a28975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 12/68] fix: fork_join: connect is not noexcept when what it
 connects may throw

---
 include/exec/fork_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8279e56 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +266,7 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From 3b24f3ebd7a4993254bfab56aa0c1456206c78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 13/68] fix: let_*: connecting may throw when moving the
 function throws

---
 include/stdexec/__detail/__let.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..5304f2e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,8 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
-- 
2.43.0


From f1acc12bfeffa123cf7ac7bc4f1d2a3e4711486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 14/68] fix: just: connecting a const lvalue sends copies, as
 advertised

---
 include/stdexec/__detail/__just.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__just.hpp b/include/stdexec/__detail/__just.hpp
index 56df532..eae4f2e 100644
--- a/include/stdexec/__detail/__just.hpp
+++ b/include/stdexec/__detail/__just.hpp
@@ -86,9 +86,9 @@ namespace STDEXEC
           __nothrow_decay_copyable<_Sender>)
       {
         auto& [__tag, __data] = __sndr;
-        return __opstate<__set_tag_t, decltype(__data), _Receiver>{static_cast<_Receiver&&>(__rcvr),
-                                                                   STDEXEC::__forward_like<_Sender>(
-                                                                     __data)};
+        return __opstate<__set_tag_t, __decay_t<decltype(__data)>, _Receiver>{
+          static_cast<_Receiver&&>(__rcvr),
+          STDEXEC::__forward_like<_Sender>(__data)};
       };
     };
   }  // namespace __just
-- 
2.43.0


From 6986378c6c07d849012c040561b835982b1700cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 15/68] fix: fork_join: the branches see the stored results'
 signatures

---
 include/exec/fork_join.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index 8279e56..08a9633 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -57,14 +57,24 @@ namespace experimental::execution
     {};
 
     template <class Tag, class... Args>
-    using _cref_sig_t = Tag(Args const &...);
+    using _cref_sig_t = Tag(STDEXEC::__decay_t<Args> const &...);
 
-    // Given a set of async results, each of the form `tuple<Tag, Args...>`, compute
-    // the corresponding completion signatures, where each signature is of the form
-    // `Tag(const Args&...)`.
+    // The results are stored decayed. If storing them can throw, then the exception is
+    // stored in their place. See __results_storage.
+    template <class Tag, class... Args>
+    using _cref_sigs_t =
+      STDEXEC::__if<STDEXEC::__nothrow_decay_copyable_t<Args...>,
+                    STDEXEC::completion_signatures<_cref_sig_t<Tag, Args...>>,
+                    STDEXEC::completion_signatures<
+                      _cref_sig_t<Tag, Args...>,
+                      _cref_sig_t<STDEXEC::set_error_t, std::exception_ptr>>>;
+
+    // Given a set of async results, each of the form `Tag(Args...)`, compute the
+    // corresponding completion signatures of the sender that sends the stored results,
+    // where each signature is of the form `Tag(const Args&...)`.
     template <class... AsyncResults>
-    using _cache_sndr_completions_t =
-      STDEXEC::completion_signatures<STDEXEC::__mapply<STDEXEC::__q<_cref_sig_t>, AsyncResults>...>;
+    using _cache_sndr_completions_t = STDEXEC::__concat_completion_signatures_t<
+      STDEXEC::__mapply_q<_cref_sigs_t, AsyncResults>...>;
 
     template <class Variant, class Domain>
     struct _cache_sndr_t
-- 
2.43.0


From b6dd6f8d4937e229a496db3eadf585ef1f0f7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 16/68] fix: finally: errors are stored and sent decayed

---
 include/stdexec/__detail/__finally.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 7318e38..8e7c376 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -338,10 +338,11 @@ namespace STDEXEC
           {
             // The finally sender's completion signatures are ...
             return STDEXEC::__concat_completion_signatures(
-              // ... the initial sender's completions with value types decayed ...
+              // ... the initial sender's completions with value and error types decayed ...
               STDEXEC::__transform_completion_signatures(
                 __initial_completions,
-                __decay_arguments<set_value_t, __finally_t>()),
+                __decay_arguments<set_value_t, __finally_t>(),
+                __decay_arguments<set_error_t, __finally_t>()),
               // ... and the final sender's error and stopped completions ...
               STDEXEC::__transform_completion_signatures(__final_completions,
                                                          __ignore_completion()));
-- 
2.43.0


From 7aec37330d7b9d8d10fe0d0669792f5ebb3859cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 17/68] fix: finally: run the final sender also when storing
 the results throws

---
 include/stdexec/__detail/__finally.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 8e7c376..250151e 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -192,17 +192,19 @@ namespace STDEXEC
           {
             using __tuple_t = __decayed_tuple<_Args...>;
             this->__result_.template emplace<__tuple_t>(static_cast<_Args&&>(__args)...);
-            (*__cleanup_callback_)(this);
-            STDEXEC::start(this->__final_opstate_);
           }
           STDEXEC_CATCH_ALL
           {
+            // The final sender must run no matter what. Save the exception to be sent
+            // when it is done.
             if constexpr (!__nothrow_decay_copyable<_Args...>)
             {
-              (*__cleanup_callback_)(this);
-              STDEXEC::set_error(static_cast<_Receiver&&>(this->__rcvr_), std::current_exception());
+              using __error_t = __tuple<set_error_t, std::exception_ptr>;
+              this->__result_.template emplace<__error_t>(set_error_t(), std::current_exception());
             }
           }
+          (*__cleanup_callback_)(this);
+          STDEXEC::start(this->__final_opstate_);
         }
       }
 
-- 
2.43.0


From 493c66780555ca2eebc61056006f7a902a528ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 18/68] fix: adaptors do not claim to complete where their
 child does when they may not

let_value/let_error/let_stopped and fork_join forwarded the completion behavior
of their predecessor although they complete where the sender made by the
function (or the branches) completes; upon_error, upon_stopped and
stopped_as_optional forwarded the value completion behavior of their child
although their value completion may come from its error or stopped completion.
affine() was then a no-op on such senders, and a task awaiting one resumed on
the wrong execution context.
---
 include/exec/fork_join.hpp                    |  8 ++++
 include/stdexec/__detail/__let.hpp            |  7 +++-
 include/stdexec/__detail/__queries.hpp        | 38 ++++++++++++++++++-
 .../__detail/__stopped_as_optional.hpp        |  7 ++++
 include/stdexec/__detail/__upon_error.hpp     |  2 +-
 include/stdexec/__detail/__upon_stopped.hpp   |  7 ++++
 6 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index 08a9633..9d87ae1 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -229,6 +229,14 @@ namespace experimental::execution
 
     struct __impls : STDEXEC::__sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class Child>(STDEXEC::__ignore, STDEXEC::__ignore, Child const & child) noexcept
+      {
+        // The operation completes where the branches complete, so nothing can be said about its
+        // completion behavior from that of the child.
+        return STDEXEC::__unknown_behavior_attrs{child};
+      };
+
       template <class Self, class... Env>
       STDEXEC_ATTRIBUTE(host, device)
       static consteval auto __get_completion_signatures()
diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 5304f2e..7c86382 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -30,6 +30,7 @@ import stdexec;
 #  include "__diagnostics.hpp"
 #  include "__env.hpp"
 #  include "__meta.hpp"
+#  include "__queries.hpp"
 #  include "__schedulers.hpp"
 #  include "__sender_adaptor_closure.hpp"
 #  include "__senders.hpp"
@@ -595,10 +596,12 @@ namespace STDEXEC
 
      public:
       static constexpr auto __get_attrs =
-        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept -> decltype(auto)
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
         // TODO(ericniebler): this needs a proper implementation
-        return __fwd_env(STDEXEC::get_env(__child));
+        // The operation completes where the sender returned by the function completes, so nothing
+        // can be said about its completion behavior from that of the child.
+        return __unknown_behavior_attrs{__child};
       };
 
       template <class _CvSender, class... _Env>
diff --git a/include/stdexec/__detail/__queries.hpp b/include/stdexec/__detail/__queries.hpp
index fde5fbc..b6096ba 100644
--- a/include/stdexec/__detail/__queries.hpp
+++ b/include/stdexec/__detail/__queries.hpp
@@ -62,7 +62,7 @@ namespace STDEXEC
   {
     template <class _Tag, class... _Env>
     [[nodiscard]]
-    constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
+    constexpr auto query(__get_completion_behavior_t<_Tag>, _Env &&...) const noexcept
     {
       return __get_completion_behavior<_Tag, _Sender, _Env...>();
     }
@@ -82,6 +82,42 @@ namespace STDEXEC
 
   template <class _Sender>
   STDEXEC_HOST_DEVICE_DEDUCTION_GUIDE __sync_attrs(_Sender const &) -> __sync_attrs<_Sender>;
+
+  // The attributes of a sender adaptor that does not introduce asynchrony and that turns
+  // completions of type _FromTag into value completions.
+  template <class _FromTag, class _Sender>
+  struct __sync_attrs_as_value : __sync_attrs<_Sender>
+  {
+    using __sync_attrs<_Sender>::query;
+
+    template <class... _Env>
+    [[nodiscard]]
+    constexpr auto query(__get_completion_behavior_t<set_value_t>, _Env &&...) const noexcept
+    {
+      return __completion_behavior::__common(
+        __get_completion_behavior<set_value_t, _Sender, _Env...>(),
+        __get_completion_behavior<_FromTag, _Sender, _Env...>());
+    }
+  };
+
+  // The attributes of a sender adaptor that completes with the result of an operation other than
+  // that of the child, whose completion behavior is not known.
+  template <class _Sender>
+  struct __unknown_behavior_attrs : __sync_attrs<_Sender>
+  {
+    using __sync_attrs<_Sender>::query;
+
+    template <class _Tag, class... _Env>
+    [[nodiscard]]
+    constexpr auto query(__get_completion_behavior_t<_Tag>, _Env &&...) const noexcept
+    {
+      return __completion_behavior::__unknown;
+    }
+  };
+
+  template <class _Sender>
+  STDEXEC_HOST_DEVICE_DEDUCTION_GUIDE __unknown_behavior_attrs(_Sender const &)
+    -> __unknown_behavior_attrs<_Sender>;
 }  // namespace STDEXEC
 
 #  include "__epilogue.hpp"
diff --git a/include/stdexec/__detail/__stopped_as_optional.hpp b/include/stdexec/__detail/__stopped_as_optional.hpp
index 7070f02..1813181 100644
--- a/include/stdexec/__detail/__stopped_as_optional.hpp
+++ b/include/stdexec/__detail/__stopped_as_optional.hpp
@@ -31,6 +31,7 @@ import stdexec;
 #  include "__completion_signatures_of.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
+#  include "__queries.hpp"
 #  include "__receivers.hpp"
 #  include "__sender_adaptor_closure.hpp"
 #  include "__senders.hpp"
@@ -62,6 +63,12 @@ namespace STDEXEC
 
     struct __stopped_as_optional_impl : __sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
+      {
+        return __sync_attrs_as_value<set_stopped_t, _Child>{{__child}};
+      };
+
       static consteval auto __get_value_transform_fn() noexcept
       {
         return []<class... _Ts>()
diff --git a/include/stdexec/__detail/__upon_error.hpp b/include/stdexec/__detail/__upon_error.hpp
index 0fba0f3..8f66d8b 100644
--- a/include/stdexec/__detail/__upon_error.hpp
+++ b/include/stdexec/__detail/__upon_error.hpp
@@ -47,7 +47,7 @@ namespace STDEXEC
       static constexpr auto __get_attrs =
         []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
-        return __sync_attrs{__child};
+        return __sync_attrs_as_value<set_error_t, _Child>{{__child}};
       };
 
       template <class _Fun>
diff --git a/include/stdexec/__detail/__upon_stopped.hpp b/include/stdexec/__detail/__upon_stopped.hpp
index a6b0eab..b01cfd5 100644
--- a/include/stdexec/__detail/__upon_stopped.hpp
+++ b/include/stdexec/__detail/__upon_stopped.hpp
@@ -28,6 +28,7 @@ import stdexec;
 #  include "__basic_sender.hpp"
 #  include "__completion_signatures_of.hpp"
 #  include "__meta.hpp"
+#  include "__queries.hpp"
 #  include "__sender_adaptor_closure.hpp"
 #  include "__senders.hpp"  // IWYU pragma: keep for __well_formed_sender
 #  include "__transform_completion_signatures.hpp"
@@ -42,6 +43,12 @@ namespace STDEXEC
   {
     struct __upon_stopped_impl : __sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
+      {
+        return __sync_attrs_as_value<set_stopped_t, _Child>{{__child}};
+      };
+
       template <class _Sender, class... _Env>
       static consteval auto __get_completion_signatures()
       {
-- 
2.43.0


From c30cc7a199bea22817f6a1ea0dbb9b0e379ee2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 19/68] fix: inplace_stop_source: a callback of a stop request
 may end the source's lifetime

---
 include/stdexec/stop_token.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index b75084a..45766c1 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -158,6 +158,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
     std::thread::id                                        __notifying_thread_;
+    bool*                                                  __destroyed_during_request_ = nullptr;
   };
 
   // [stoptoken.inplace], class inplace_stop_token
@@ -258,6 +259,12 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
   {
     STDEXEC_ASSERT((__state_.load(STDEXEC::__std::memory_order_relaxed) & __locked_flag_) == 0);
     STDEXEC_ASSERT(__callbacks_ == nullptr);
+    // A callback can complete the operation that owns this object. Tell request_stop(),
+    // which is executing that callback, not to touch this object again.
+    if (__destroyed_during_request_ != nullptr)
+    {
+      *__destroyed_during_request_ = true;
+    }
   }
 
   inline auto inplace_stop_source::request_stop() noexcept -> bool
@@ -265,7 +272,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     if (!__try_lock_unless_stop_requested_(true))
       return false;
 
-    __notifying_thread_ = std::this_thread::get_id();
+    bool __destroyed_during_request = false;
+    __destroyed_during_request_     = &__destroyed_during_request;
+    __notifying_thread_             = std::this_thread::get_id();
 
     // We are responsible for executing callbacks.
     while (__callbacks_ != nullptr)
@@ -283,6 +292,12 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
       __callbk->__execute();
 
+      // The callback (and everything it belongs to) is gone as well in this case.
+      if (__destroyed_during_request)
+      {
+        return true;
+      }
+
       if (!__removed_during_callback)
       {
         __callbk->__removed_during_callback_ = nullptr;
@@ -292,6 +307,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       __lock_();
     }
 
+    __destroyed_during_request_ = nullptr;
     __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
     return true;
   }
-- 
2.43.0


From ce80bfb56c8c07a7a0f9ae7321d26230a10e46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 20/68] fix: exec::task: a reschedule that fails throws from
 await_resume

---
 include/exec/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..3360bbb 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -468,7 +468,7 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
-- 
2.43.0


From 762561bf9828f80995863b6672e49c55b03f7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 21/68] fix: exec::task: resume on the task's scheduler after
 errors, too

---
 include/exec/task.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 3360bbb..64776aa 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -602,9 +602,9 @@ namespace experimental::execution
           requires __start_scheduler_provider<_Context>
         auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
         {
-          if constexpr (__completes_where_it_starts<set_value_t,
-                                                    env_of_t<_CvSender>,
-                                                    __promise_context_t&>)
+          // The task is resumed by a value or an error. (A stopped completion unwinds it.)
+          // All of them need to happen where the task was suspended.
+          if constexpr (__affine::__is_affine<_CvSender, __promise_context_t&>)
           {
             return STDEXEC::as_awaitable(static_cast<_CvSender&&>(__sndr), *this);
           }
-- 
2.43.0


From 4c3c966daf88dad7c63e4581fcd466b4a9f0b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 22/68] fix: __any is empty again after constructing a small
 object in place throws

---
 include/stdexec/__detail/__any.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7325c82..f5773e0 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -635,6 +635,27 @@ namespace STDEXEC::__any
     }
   };
 
+  // Restores the empty state of the buffer if the construction of the model exits with an
+  // exception after it has written over the (null) pointer that marks the buffer as empty.
+  struct __empty_guard
+  {
+    std::span<std::byte> __buff;
+    bool                 __dismissed = false;
+
+    constexpr void __dismiss() noexcept
+    {
+      __dismissed = true;
+    }
+
+    constexpr ~__empty_guard() noexcept
+    {
+      if (!__dismissed)
+      {
+        *__std::start_lifetime_as<__tagged_ptr>(__buff.data()) = __tagged_ptr();
+      }
+    }
+  };
+
   template <class _Model, class _Allocator, class... _Args>
   constexpr _Model &__emplace_into([[maybe_unused]] _Allocator const    &__alloc,
                                    [[maybe_unused]] __iroot            *&__root_ptr,
@@ -651,8 +672,11 @@ namespace STDEXEC::__any
     {
       if (STDEXEC::__any::__is_small<_Model>(__buff.size()))
       {
-        return *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
-                                  static_cast<_Args &&>(__args)...);
+        __empty_guard __guard{__buff};
+        auto *const   __model = std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
+                                                static_cast<_Args &&>(__args)...);
+        __guard.__dismiss();
+        return *__model;
       }
       else
       {
-- 
2.43.0


From 7cec5c726b376c1c0f686af84886ae6c614e7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 23/68] fix: __any lets exceptions of constructing the
 contained object escape

---
 include/stdexec/__detail/__any.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index f5773e0..83f906b 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -485,12 +485,13 @@ namespace STDEXEC::__any
   template <class _Value>
   struct __box
   {
-    constexpr explicit __box(_Value __val) noexcept
+    constexpr explicit __box(_Value __val) noexcept(__nothrow_move_constructible<_Value>)
       : __val_(std::move(__val))
     {}
 
     template <class... _Args>
-    constexpr explicit __box(_Args &&...__args) noexcept
+    constexpr explicit __box(_Args &&...__args)
+      noexcept(__nothrow_constructible_from<_Value, _Args...>)
       : __val_(static_cast<_Args &&>(__args)...)
     {}
 
-- 
2.43.0


From bf750ea0e1f8b8e0cac3c2532d61602d04f8432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 24/68] fix: self-assignment of __any_ptr keeps the reference

---
 include/stdexec/__detail/__any.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 83f906b..7895f11 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -2039,8 +2039,11 @@ namespace STDEXEC::__any
 
     constexpr __any_ptr_base &operator=(__any_ptr_base const &__other) noexcept
     {
-      __reset(__reference_);
-      __reference_.__copy_from(__other.__reference_);
+      if (this != std::addressof(__other))
+      {
+        __reset(__reference_);
+        __reference_.__copy_from(__other.__reference_);
+      }
       return *this;
     }
 
-- 
2.43.0


From 42ad4a056c7904f9f257e0e13a5c0bcdd9e2a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 25/68] fix: __any does not place over-aligned objects in its
 buffer

---
 include/stdexec/__detail/__any.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7895f11..91c2196 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -352,7 +352,8 @@ namespace STDEXEC::__any
   };
 
   //////////////////////////////////////////////////////////////////////////////////////////
-  // __is_small: Model is Interface<_Ty> for some concrete _Ty
+  // __is_small: Model is Interface<_Ty> for some concrete _Ty. To be small, the model must
+  // fit in the buffer of Interface, both in size and in alignment.
   template <class _Model>
   [[nodiscard]]
   constexpr bool __is_small(size_t __buffer_size) noexcept
@@ -367,7 +368,8 @@ namespace STDEXEC::__any
       // If _Model requires movability, then it must be nothrow moveable to be small.
       STDEXEC_CONSTEXPR_LOCAL bool __nothrow_movable = !__extension_of<_Model, __imovable>
                                                     || __nothrow_move_constructible<_Model>;
-      return sizeof(_Model) <= __buffer_size && __nothrow_movable;
+      return sizeof(_Model) <= __buffer_size && alignof(_Model) <= _Model::__buffer_alignment
+          && __nothrow_movable;
     }
   }
 
@@ -586,12 +588,13 @@ namespace STDEXEC::__any
     { STDEXEC::__any::__interface_cast<_Interface>(__arg) } -> __has_box_kind<_Derived::__box_kind>;
   };
 
-  // If we are slicing into a buffer that is smaller than our own, then slicing
-  // may throw.
-  template <class _Interface, class _Base, size_t _BufferSize>
+  // If we are slicing into a buffer that is smaller or less aligned than our own, then
+  // slicing may throw.
+  template <class _Interface, class _Base, size_t _BufferSize, size_t _BufferAlignment>
   concept __nothrow_slice = (_Base::__box_kind != __box_kind::__abstract)
                          && (_Base::__root_kind == __root_kind::__value)
-                         && (_Interface::__buffer_size >= _BufferSize);
+                         && (_Interface::__buffer_size >= _BufferSize)
+                         && (_Interface::__buffer_alignment >= _BufferAlignment);
 
   //////////////////////////////////////////////////////////////////////////////////////////
   // __extends
@@ -828,8 +831,8 @@ namespace STDEXEC::__any
                                      && (__has_root_kind<_Base, __root_kind::__value>
                                          || __extension_of<_Base, __icopyable>);
 
-    static constexpr bool __nothrow_slice =
-      STDEXEC::__any::__nothrow_slice<__this_interface_type, _Base, __buffer_size>;
+    static constexpr bool __nothrow_slice = STDEXEC::__any::
+      __nothrow_slice<__this_interface_type, _Base, __buffer_size, __buffer_alignment>;
 
     //! @pre !empty(*this)
     constexpr virtual void __slice_to_(__value_proxy_root<_Interface> &__result)  //
@@ -1877,7 +1880,7 @@ namespace STDEXEC::__any
     template <class _Other>
     static constexpr bool __as_large_as =
       (__iabstract<_Interface>::__buffer_size >= _Interface<_Other>::__buffer_size)
-      && (_Interface<_Other>::__buffer_alignment % __iabstract<_Interface>::__buffer_alignment == 0)
+      && (__iabstract<_Interface>::__buffer_alignment % _Interface<_Other>::__buffer_alignment == 0)
       && (_Other::__root_kind == __root_kind::__value);
 
    public:
-- 
2.43.0


From e93e87a5160bb1331219ee493b7d7127de9c4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 26/68] fix: any_sender: complete receivers as rvalues

---
 include/exec/any_sender_of.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/any_sender_of.hpp b/include/exec/any_sender_of.hpp
index d399013..e59fe6e 100644
--- a/include/exec/any_sender_of.hpp
+++ b/include/exec/any_sender_of.hpp
@@ -357,20 +357,20 @@ namespace experimental::execution
       constexpr void set_value(As &&..._as) noexcept
       {
         _callback_.__destroy();
-        Receiver::set_value(static_cast<As &&>(_as)...);
+        STDEXEC::set_value(static_cast<Receiver &&>(*this), static_cast<As &&>(_as)...);
       }
 
       template <class Error>
       constexpr void set_error(Error &&_err) noexcept
       {
         _callback_.__destroy();
-        Receiver::set_error(static_cast<Error &&>(_err));
+        STDEXEC::set_error(static_cast<Receiver &&>(*this), static_cast<Error &&>(_err));
       }
 
       constexpr void set_stopped() noexcept
       {
         _callback_.__destroy();
-        Receiver::set_stopped();
+        STDEXEC::set_stopped(static_cast<Receiver &&>(*this));
       }
 
       [[nodiscard]]
-- 
2.43.0


From 6b9c00ec184786bf5158df72f84a4673f4a415bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:57 +0000
Subject: [PATCH 27/68] fix: static_thread_pool: bulk accepts values whose
 decay-copy may throw

---
 include/exec/static_thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 8954ff2..fdeb5da 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1303,7 +1303,7 @@ namespace experimental::execution
           STDEXEC::get_completion_signatures<__copy_cvref_t<Self, Sender>, __fwd_env_t<Env>...>(),
           []<class... Args>()
           {
-            if constexpr (!__nothrow_decay_copyable<Args...>)
+            if constexpr (!__decay_copyable<Args...>)
             {
               return exec::throw_compile_time_error<
                 _WHAT_(_PREDECESSOR_RESULTS_ARE_NOT_DECAY_COPYABLE_),
@@ -1319,7 +1319,8 @@ namespace experimental::execution
                 _WITH_FUNCTION_(Fun&),
                 _WITH_ARGUMENTS_(Shape, Shape, __decay_t<Args> & ...)>();
             }
-            else if constexpr (__nothrow_callable<Fun&, Shape, Shape, __decay_t<Args>&...>)
+            else if constexpr (__nothrow_decay_copyable<Args...>
+                               && __nothrow_callable<Fun&, Shape, Shape, __decay_t<Args>&...>)
             {
               return completion_signatures<set_value_t(__decay_t<Args>...)>();
             }
-- 
2.43.0


From 6ddc42470dbf3c0049886331271751e49a778dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:22 +0000
Subject: [PATCH 28/68] fix: repeat_until: advertise the exception thrown by
 copying the child sender

---
 include/exec/repeat_until.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/exec/repeat_until.hpp b/include/exec/repeat_until.hpp
index 0cfb494..e786927 100644
--- a/include/exec/repeat_until.hpp
+++ b/include/exec/repeat_until.hpp
@@ -300,8 +300,11 @@ namespace experimental::execution
           }
           else
           {
-            using __has_nothrow_connect_t =
-              __mbool<(__nothrow_connectable<__child_t, __receiver_archetype<_Env>> || ...)>;
+            // Each iteration copies the child sender into a sequence sender and connects that.
+            constexpr bool __nothrow_copy = __nothrow_decay_copyable<__child_t &>
+                                         && __nothrow_move_constructible<__child_t>;
+            using __has_nothrow_connect_t = __mbool<
+              __nothrow_copy && (__nothrow_connectable<__child_t, __receiver_archetype<_Env>> || ...)>;
             constexpr auto __eptr_sigs    = __eptr_completion_unless_t<__has_nothrow_connect_t>();
             constexpr auto __bouncer_sigs = exec::transform_completion_signatures(
               get_completion_signatures<__bouncer_t, _Env...>(),
-- 
2.43.0


From 2d04cd2c7014a986581b957928b7ce0a361bd6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 29/68] fix: bulk with a negative shape calls the function for
 no index

---
 include/exec/static_thread_pool.hpp | 2 +-
 include/stdexec/__detail/__bulk.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index fdeb5da..65049c4 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1492,7 +1492,7 @@ namespace experimental::execution
           }
         }
 
-        if (shared_state_.shape_)
+        if (Shape{} < shared_state_.shape_)
         {
           enqueue();
         }
diff --git a/include/stdexec/__detail/__bulk.hpp b/include/stdexec/__detail/__bulk.hpp
index 337af08..c8725b3 100644
--- a/include/stdexec/__detail/__bulk.hpp
+++ b/include/stdexec/__detail/__bulk.hpp
@@ -186,7 +186,7 @@ namespace STDEXEC
       constexpr void operator()(_Shape __begin, _Shape __end, _Args&... __args)
         noexcept(__nothrow_callable<_Fun&, _Shape, _Args&...>)
       {
-        for (; __begin != __end; ++__begin)
+        for (; __begin < __end; ++__begin)
         {
           __fun_(__begin, __args...);
         }
@@ -322,7 +322,7 @@ namespace STDEXEC
 
           STDEXEC_TRY
           {
-            for (__shape_t __i{}; __i != __shape; ++__i)
+            for (__shape_t __i{}; __i < __shape; ++__i)
             {
               __state.__data_.__fun_(__shape_t(__i), __args...);
             }
-- 
2.43.0


From 8548d6de5869d587fb5e01565c2ea1d108c963d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 30/68] fix: start_now lets exceptions from connecting its
 senders propagate

---
 include/exec/start_now.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/exec/start_now.hpp b/include/exec/start_now.hpp
index b445231..a87780d 100644
--- a/include/exec/start_now.hpp
+++ b/include/exec/start_now.hpp
@@ -219,8 +219,6 @@ namespace experimental::execution
                 exec::__scope::__async_scope _AsyncScope,
                 STDEXEC::sender... _Sender>
       constexpr auto operator()(_Env __env, _AsyncScope& __scope, _Sender&&... __sndr) const
-        noexcept(STDEXEC::__nothrow_move_constructible<std::unwrap_reference_t<_Env>>
-                 && (STDEXEC::__nothrow_move_constructible<_Sender> && ...))
       {
         using __local_env_t = STDEXEC::__as_root_env_t<std::unwrap_reference_t<_Env>>;
         static_assert(!STDEXEC::sender<_Env>,
@@ -243,7 +241,6 @@ namespace experimental::execution
 
       template <exec::__scope::__async_scope _AsyncScope, STDEXEC::sender... _Sender>
       constexpr auto operator()(_AsyncScope& __scope, _Sender&&... __sndr) const
-        noexcept((STDEXEC::__nothrow_move_constructible<_Sender> && ...))
       {
         static_assert(!STDEXEC::sender<_AsyncScope>,
                       "The first argument to start_now() must be either an environment or an "
-- 
2.43.0


From 81c9657f41c32984293d93817cbe027b54b7dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 31/68] fix: iterate moves the receiver when it is subscribed

---
 include/exec/sequence/iterate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/iterate.hpp b/include/exec/sequence/iterate.hpp
index a85f37c..ea87386 100644
--- a/include/exec/sequence/iterate.hpp
+++ b/include/exec/sequence/iterate.hpp
@@ -225,7 +225,8 @@ namespace experimental::execution
           -> __apply_result_t<__subscribe_fn<_Receiver>, _SeqExpr>
       {
         static_assert(sender_for<_SeqExpr, iterate_t>);
-        return __apply(__subscribe_fn<_Receiver>{__rcvr}, static_cast<_SeqExpr&&>(__seq));
+        return __apply(__subscribe_fn<_Receiver>{static_cast<_Receiver&&>(__rcvr)},
+                       static_cast<_SeqExpr&&>(__seq));
       }
 
       template <class, class...>
-- 
2.43.0


From a1414472f3c636ea3e6cc0d67c12aa28a1c94c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 32/68] fix: subscribe of transform_each, merge and plain
 senders is noexcept only if it cannot throw

---
 include/exec/sequence/merge.hpp          | 2 +-
 include/exec/sequence/transform_each.hpp | 7 ++++++-
 include/exec/sequence_senders.hpp        | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge.hpp b/include/exec/sequence/merge.hpp
index ddf6fa0..875475f 100644
--- a/include/exec/sequence/merge.hpp
+++ b/include/exec/sequence/merge.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       {
         template <class _Receiver, class... _Sequences>
         auto operator()(_Receiver& __rcvr, __ignore, __ignore, _Sequences... __sequences)
-          noexcept(__nothrow_decay_copyable<_Sequences...>) -> __operation<_Receiver, _Sequences...>
+          -> __operation<_Receiver, _Sequences...>
         {
           return __operation<_Receiver, _Sequences...>{static_cast<_Receiver&&>(__rcvr),
                                                        static_cast<_Sequences&&>(__sequences)...};
diff --git a/include/exec/sequence/transform_each.hpp b/include/exec/sequence/transform_each.hpp
index 74a5d49..42ce8fe 100644
--- a/include/exec/sequence/transform_each.hpp
+++ b/include/exec/sequence/transform_each.hpp
@@ -104,6 +104,8 @@ namespace experimental::execution
     struct __operation : __operation_base<_Receiver, _Adaptor>
     {
       __operation(_Sender&& __sndr, _Receiver __rcvr, _Adaptor __adaptor)
+        noexcept(__nothrow_move_constructible<_Receiver> && __nothrow_move_constructible<_Adaptor>
+                 && __nothrow_subscribable<_Sender, __receiver<_Receiver, _Adaptor>>)
         : __operation_base<_Receiver, _Adaptor>{static_cast<_Receiver&&>(__rcvr),
                                                 static_cast<_Adaptor&&>(__adaptor)}
         , __opstate_{
@@ -125,7 +127,10 @@ namespace experimental::execution
 
       template <class _Adaptor, class _Sequence>
       auto operator()(__ignore, _Adaptor __adaptor, _Sequence&& __sequence)
-        noexcept(__nothrow_decay_copyable<_Adaptor, _Sequence>)
+        noexcept(__nothrow_constructible_from<__operation<_Sequence, _Receiver, _Adaptor>,
+                                              _Sequence,
+                                              _Receiver,
+                                              _Adaptor>)
           -> __operation<_Sequence, _Receiver, _Adaptor>
       {
         return {static_cast<_Sequence&&>(__sequence),
diff --git a/include/exec/sequence_senders.hpp b/include/exec/sequence_senders.hpp
index a1c5f97..ac94252 100644
--- a/include/exec/sequence_senders.hpp
+++ b/include/exec/sequence_senders.hpp
@@ -812,7 +812,8 @@ namespace experimental::execution
                                               __stopped_means_break<_Receiver>>;
           __check_operation_state<__result_t>();
           constexpr bool __nothrow_subscribe =
-            __nothrow_connectable<next_sender_of_t<_Receiver, __tfx_seq_t>,
+            __nothrow_callable<set_next_t, _Receiver&, __tfx_seq_t>
+            && __nothrow_connectable<next_sender_of_t<_Receiver, __tfx_seq_t>,
                                   __stopped_means_break<_Receiver>>;
           return __declfn<__result_t, __nothrow_subscribe && __nothrow_tfx_seq>();
         }
-- 
2.43.0


From ccc5cdae55506fb6b75f67271d5e611b0bddcee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 33/68] fix: ignore_all_values delivers the error of a failed
 item when the sequence stops

---
 include/exec/sequence/ignore_all_values.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/ignore_all_values.hpp b/include/exec/sequence/ignore_all_values.hpp
index 0ca0e9d..2425388 100644
--- a/include/exec/sequence/ignore_all_values.hpp
+++ b/include/exec/sequence/ignore_all_values.hpp
@@ -235,7 +235,15 @@ namespace experimental::execution
 
       void set_stopped() noexcept
       {
-        STDEXEC::set_stopped(static_cast<_Receiver&&>(__op_->__rcvr_));
+        if (__op_->__emplaced_.load(__std::memory_order_acquire) == 0)
+        {
+          STDEXEC::set_stopped(static_cast<_Receiver&&>(__op_->__rcvr_));
+        }
+        else
+        {
+          // The sequence stopped because an item asked it to. Complete as that item did.
+          __op_->__visit_result(static_cast<_Receiver&&>(__op_->__rcvr_));
+        }
       }
 
       auto get_env() const noexcept -> env_of_t<_Receiver>
-- 
2.43.0


From c9217c690aaf61801e9d07842884df8a3d10eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 34/68] fix: merge_each stores a nested item's error before
 completing the item

---
 include/exec/sequence/merge_each.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..632a256 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -573,8 +573,10 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         auto __op = __op_;
-        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
+        // The error may live in the operation that is destroyed when the receiver is completed, so
+        // it has to be stored first.
         __op->store_error(static_cast<_Error&&>(__error));
+        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
         __op->nested_value_break();
       }
 
-- 
2.43.0


From 581d48bb8e4b27c038c111c423de489a96a7c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 35/68] fix: merge_each stops the other sequences after an
 error in an unstoppable environment

---
 include/exec/sequence/merge_each.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 632a256..aea9abe 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -116,20 +116,12 @@ namespace experimental::execution
 
       bool stop_requested() const noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.stop_requested();
-        }
-        return false;
+        return __stop_source_.stop_requested();
       }
 
       bool request_stop() noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.request_stop();
-        }
-        return false;
+        return __stop_source_.request_stop();
       }
 
       inplace_stop_token get_token() const & noexcept
-- 
2.43.0


From ac701fca88dc9b3ded3bf0b9ec31201c68e9a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 36/68] fix: merge_each delivers an exception_ptr error of the
 outer sequence as it is

---
 include/exec/sequence/merge_each.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index aea9abe..bbc256c 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -354,7 +354,11 @@ namespace experimental::execution
         case __completion_t::__stopped:
           // We are the first child to complete with an error, so we must save the error. (Any
           // subsequent errors are ignored.)
-          if constexpr (__nothrow_decay_copyable<_Error>)
+          if constexpr (__same_as<__decay_t<_Error>, std::exception_ptr>)
+          {
+            __ex_ = static_cast<_Error&&>(__error);
+          }
+          else if constexpr (__nothrow_decay_copyable<_Error>)
           {
             __ex_ = std::make_exception_ptr(static_cast<_Error&&>(__error));
           }
@@ -1278,7 +1282,9 @@ namespace experimental::execution
       {
         template <class... _Sequences>
         using __f = __minvoke_q<__concat_completion_signatures_t,
-                                completion_signatures<set_stopped_t()>,
+                                // An error of the outer sequence is delivered as an exception_ptr.
+                                completion_signatures<set_error_t(std::exception_ptr),
+                                                      set_stopped_t()>,
                                 __completion_signatures_of_t<__child_of<_Self>, _Env...>,
                                 __completion_signatures_of_t<_Sequences, _Env...>...>;
       };
-- 
2.43.0


From b996dc0293fc8aba82ca4d5edb6b412e6f2d5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 37/68] fix: merge_each completes the item of a nested sequence
 that fails or stops

---
 include/exec/sequence/merge_each.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index bbc256c..1c524cc 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1027,7 +1027,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1036,12 +1036,12 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        __next_seq_op_->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From 6480fd576940ab9facbde0d4afc17150b82ac776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 38/68] fix: merge_each unregisters its stop callback when stop
 was already requested

---
 include/exec/sequence/merge_each.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 1c524cc..751c27e 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1189,6 +1189,7 @@ namespace experimental::execution
         {
           // Stop has already been requested. Don't bother starting
           // the child operations.
+          this->__nested_stop_.unregister_token();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From 8a7fb43124c806a959c546461d0870d5017e6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 39/68] fix: parallel_scheduler operations destroy what they
 own when they are not run

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..cd1b6c5 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -209,6 +209,14 @@ namespace STDEXEC
 
       STDEXEC_IMMOVABLE(__system_op);
 
+      ~__system_op()
+      {
+        if (__owns_sched_impl_)
+        {
+          std::destroy_at(&__preallocated_.template __as<__backend_ptr_t>());
+        }
+      }
+
       /// Starts the work stored in `this`.
       void start() & noexcept
       {
@@ -221,6 +229,7 @@ namespace STDEXEC
         auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
         auto  __impl       = std::move(__sched_impl);
         std::destroy_at(&__sched_impl);
+        __owns_sched_impl_ = false;
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
@@ -233,6 +242,9 @@ namespace STDEXEC
       __aligned_storage<STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE,
                         STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_ALIGN>
         __preallocated_;
+
+      /// Whether `__preallocated_` still holds the backend interface.
+      bool __owns_sched_impl_{true};
     };
   }  // namespace __detail
 
@@ -597,6 +609,9 @@ namespace STDEXEC
       /// Preallocated space for storing the inner operation state, and then storage space for the backend call.
       __aligned_storage<_PreallocatedSize, _PreallocatedAlign> __preallocated_;
 
+      /// Whether `__preallocated_` still holds the inner operation state.
+      bool __owns_inner_op_state_{true};
+
       /// Destroys the inner operation state object, and returns the preallocated storage for it to be used by the backend.
       static auto
       __prepare_storage_for_backend_impl(__bulk_state_base_t* __base) -> std::span<std::byte>
@@ -604,6 +619,7 @@ namespace STDEXEC
         auto* __self = static_cast<__system_bulk_op*>(__base);
         // We don't need anymore the storage for the previous operation state.
         __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
+        __self->__owns_inner_op_state_ = false;
         // Reuse the preallocated storage for the backend.
         return __self->__preallocated_.__as_storage();
       }
@@ -631,6 +647,14 @@ namespace STDEXEC
       auto operator=(__system_bulk_op const &) -> __system_bulk_op& = delete;
       auto operator=(__system_bulk_op&&) -> __system_bulk_op&       = delete;
 
+      ~__system_bulk_op()
+      {
+        if (__owns_inner_op_state_)
+        {
+          std::destroy_at(&__preallocated_.template __as<__inner_op_state>());
+        }
+      }
+
       /// Starts the work stored in `*this`.
       void start() & noexcept
       {
-- 
2.43.0


From bbed40864c2fb9c36d7a0ce2bb492983f1296cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 40/68] fix: parallel_scheduler's connect and transform_sender
 are not noexcept

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index cd1b6c5..8f45395 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -109,7 +109,7 @@ namespace STDEXEC
   {
     template <__bulk_chunked_or_unchunked _Sender, class _Env>
     constexpr auto
-    transform_sender(set_value_t, _Sender&& __sndr, _Env const & __env) const noexcept;
+    transform_sender(set_value_t, _Sender&& __sndr, _Env const & __env) const;
   };
 
   namespace __detail
@@ -700,7 +700,7 @@ namespace STDEXEC
       _Previous                 __previous;
       __detail::__backend_ptr_t __sched;
 
-      auto operator()(_Op& __op) && noexcept
+      auto operator()(_Op& __op) &&
       {
         using __receiver_t = _Op::__intermediate_receiver_t;
         return STDEXEC::connect(std::move(__previous), __receiver_t{__op, std::move(__sched)});
@@ -709,7 +709,7 @@ namespace STDEXEC
 
     /// Connects `__self` to `__rcvr`, returning the operation state containing the work to be done.
     template <receiver _Rcvr>
-    auto connect(_Rcvr __rcvr) && noexcept(__nothrow_move_constructible<_Rcvr>)
+    auto connect(_Rcvr __rcvr) &&
       -> __detail::__system_bulk_op<_IsUnchunked, _Previous, _Size, _Fn, _Rcvr, _Parallelize>
     {
       using __res_t =
@@ -773,7 +773,7 @@ namespace STDEXEC
   struct __transform_parallel_bulk_sender
   {
     template <class _Data, class _Previous>
-    auto operator()(bulk_chunked_t, _Data&& __data, _Previous&& __previous) const noexcept
+    auto operator()(bulk_chunked_t, _Data&& __data, _Previous&& __previous) const
     {
       auto [__pol, __shape, __fn]  = static_cast<_Data&&>(__data);
       using __policy_t             = std::remove_cvref_t<decltype(__pol.__get())>;
@@ -790,7 +790,7 @@ namespace STDEXEC
     }
 
     template <class _Data, class _Previous>
-    auto operator()(bulk_unchunked_t, _Data&& __data, _Previous&& __previous) const noexcept
+    auto operator()(bulk_unchunked_t, _Data&& __data, _Previous&& __previous) const
     {
       auto [__pol, __shape, __fn]  = static_cast<_Data&&>(__data);
       using __policy_t             = std::remove_cvref_t<decltype(__pol.__get())>;
@@ -812,7 +812,7 @@ namespace STDEXEC
   template <__bulk_chunked_or_unchunked _Sender, class _Env>
   constexpr auto __parallel_scheduler_domain::transform_sender(set_value_t,
                                                                _Sender&&    __sndr,
-                                                               _Env const & __env) const noexcept
+                                                               _Env const & __env) const
   {
     if constexpr (__completes_on<_Sender, parallel_scheduler, _Env>)
     {
-- 
2.43.0


From d718dab02eeb5f53f9a199ff6d6fe5aa77995f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 41/68] fix: bulk on the parallel_scheduler completes with
 set_error when it throws

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 82 ++++++++++++++-----
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 8f45395..bdf4fb0 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -383,12 +383,26 @@ namespace STDEXEC
       void set_value() noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
-        auto __args  = std::move(__base_t::__arguments_.__get());
-        __base_t::__arguments_.__destroy();
-        std::destroy_at(this);
-        std::apply([&](auto&&... __args)
-                   { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
-                   std::move(__args));
+        if (__state->__failed_.load(__std::memory_order_acquire))
+        {
+          // One of the calls to the bulk functor has thrown.
+          set_error(std::move(__state->__eptr_));
+          return;
+        }
+        STDEXEC_TRY
+        {
+          auto __args = std::move(__base_t::__arguments_.__get());
+          __base_t::__arguments_.__destroy();
+          std::destroy_at(this);
+          std::apply([&](auto&&... __args) noexcept
+                     { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
+                     std::move(__args));
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // Moving the values has thrown; they have not been destroyed yet.
+          set_error(std::current_exception());
+        }
       }
 
       /// Calls `set_error()` on the final receiver of the bulk operation, passing `__ex`.
@@ -413,6 +427,34 @@ namespace STDEXEC
       void execute(size_t __begin, size_t __end) noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
+        STDEXEC_TRY
+        {
+          __execute(__state, __begin, __end);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // Remember the first exception. It is delivered when the backend has finished the work.
+          if (!__state->__failed_.exchange(true, __std::memory_order_acq_rel))
+          {
+            __state->__eptr_ = std::current_exception();
+          }
+        }
+      }
+
+     protected:
+      void __query_env(__type_index __query_type,
+                       __type_index __value_type,
+                       void*        __dest) const noexcept override
+      {
+        if (__query_type == __mtypeid<get_stop_token_t>)
+        {
+          __query(get_stop_token, __value_type, __dest);
+        }
+      }
+
+     private:
+      void __execute(_BulkState* __state, size_t __begin, size_t __end)
+      {
         if constexpr (_BulkState::__is_unchunked)
         {
           (void) __end;  // not used
@@ -441,18 +483,6 @@ namespace STDEXEC
         }
       }
 
-     protected:
-      void __query_env(__type_index __query_type,
-                       __type_index __value_type,
-                       void*        __dest) const noexcept override
-      {
-        if (__query_type == __mtypeid<get_stop_token_t>)
-        {
-          __query(get_stop_token, __value_type, __dest);
-        }
-      }
-
-     private:
       void __query(get_stop_token_t, __type_index __value_type, void* __dest) const noexcept
       {
         auto __state         = reinterpret_cast<_BulkState const *>(this);
@@ -499,6 +529,9 @@ namespace STDEXEC
       std::span<std::byte> (*__prepare_storage_for_backend)(__bulk_state_base*){nullptr};
       /// The size of the bulk operation.
       _Size __size_;
+      /// Whether a call to the bulk functor has thrown, and what it has thrown.
+      __std::atomic<bool> __failed_{false};
+      std::exception_ptr  __eptr_{};
 
       __bulk_state_base(_Fn&& __fun, _Rcvr&& __rcvr, _Size __size)
         : __fun_{std::move(__fun)}
@@ -532,8 +565,17 @@ namespace STDEXEC
         // Store the input data in the shared state.
         using __typed_forward_args_receiver_t =
           __typed_forward_args_receiver<_Previous, _BulkState, _As...>;
-        auto __r = new (&__state_.__forward_args_helper_)
-          __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        __typed_forward_args_receiver_t* __r = nullptr;
+        STDEXEC_TRY
+        {
+          __r = new (&__state_.__forward_args_helper_)
+            __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          STDEXEC::set_error(std::move(__state_.__rcvr_), std::current_exception());
+          return;
+        }
 
         auto __scheduler = __sched_;
         auto __size      = static_cast<size_t>(__state_.__size_);
-- 
2.43.0


From 895453c488131fc5f6cd137c25400832880b3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 42/68] fix: bulk on the parallel_scheduler advertises how it
 completes

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index bdf4fb0..2d1afc1 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -558,7 +558,7 @@ namespace STDEXEC
         auto st = get_stop_token(STDEXEC::get_env(__state_.__rcvr_));
         if (st.stop_requested())
         {
-          STDEXEC::set_stopped(__state_.__rcvr_);
+          STDEXEC::set_stopped(std::move(__state_.__rcvr_));
           return;
         }
 
@@ -607,9 +607,9 @@ namespace STDEXEC
 
       /// Invoked when the previous sender completes with error to forward the error to the connected receiver.
       template <typename __E>
-      void set_error(__E __e) noexcept
+      void set_error(__E&& __e) noexcept
       {
-        STDEXEC::set_error(std::move(__state_.__rcvr_), std::move(__e));
+        STDEXEC::set_error(std::move(__state_.__rcvr_), static_cast<__E&&>(__e));
       }
 
       /// Gets the environment of this receiver; returns the environment of the connected receiver.
@@ -769,7 +769,14 @@ namespace STDEXEC
     {
       using __cv_previous_t = __copy_cvref_t<_Self, _Previous>;
       auto __completions    = STDEXEC::get_completion_signatures<__cv_previous_t, _Env...>();
-      return STDEXEC::__concat_completion_signatures(__completions, __eptr_completion_t());
+      // The values are stored and sent on by value. The bulk functor and the backend can fail, and
+      // the operation completes with stopped if it is asked to stop before the work is submitted.
+      return STDEXEC::__transform_completion_signatures(
+        __completions,
+        __decay_arguments<set_value_t>(),
+        {},
+        {},
+        completion_signatures<set_error_t(std::exception_ptr), set_stopped_t()>());
     }
 
    private:
-- 
2.43.0


From 20b5810fbf810d135eb910b9fbb09990c7d05f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 43/68] fix: racing first uses of the parallel_scheduler share
 one backend

---
 .../__detail/__parallel_scheduler_default_impl.hpp       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
index 86ce869..729abd2 100644
--- a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
@@ -352,9 +352,14 @@ namespace STDEXEC::__parallel_scheduler_default_impl
 
       // Store the newly created instance.
       __acquire_instance_lock();
-      __instance_ = __new_instance;
+      if (!__instance_)
+      {
+        __instance_ = std::move(__new_instance);
+      }
+      // Otherwise, another thread was faster. Use its instance, so that there is only one.
+      __rcvr = __instance_;
       __release_instance_lock();
-      return __new_instance;
+      return __rcvr;
     }
 
     /// Set `__new_factory` as the new factory for `_Interface` and return the old one.
-- 
2.43.0


From 0390ade1f389fabe6e9c2620409bc6b8e1248f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 44/68] fix: sequential bulk on a task_scheduler submits its
 work once

---
 include/stdexec/__detail/__task_scheduler.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..8ec5f12 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -383,13 +383,16 @@ namespace STDEXEC
           // Start the bulk operation.
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__state_->__parallelize ? __state_->__shape_
+                                                                               : 1,
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__state_->__parallelize
+                                                           ? __state_->__shape_
+                                                           : 1,
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
@@ -499,6 +502,12 @@ namespace STDEXEC
     struct __bulk_state final
       : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
     {
+      using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
+      // If we are not parallelizing, the backend runs a single task.
+      static constexpr bool __parallelize =
+        __same_as<__policy_t, STDEXEC::parallel_policy>
+        || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
+
       constexpr explicit __bulk_state(_Rcvr                        __rcvr,
                                       size_t                       __shape,
                                       _Fn                          __fn,
@@ -523,10 +532,6 @@ namespace STDEXEC
       {
         STDEXEC_TRY
         {
-          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
-          constexpr bool __parallelize =
-            __same_as<__policy_t, STDEXEC::parallel_policy>
-            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
           __visit(__task::__get_execute_bulk_fn<__parallelize>(_BulkTag(),
                                                                __fn_,
                                                                __shape_,
-- 
2.43.0


From 308c2395dc80eb2af05b026f12b921967816d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 45/68] fix: task_scheduler forwards stop requests of any stop
 token

---
 include/stdexec/__detail/__task_scheduler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 8ec5f12..b345f22 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -312,6 +312,8 @@ namespace STDEXEC
 
       constexpr void start() noexcept
       {
+        // Forward stop requests of tokens other than inplace_stop_token.
+        __rcvr_proxy_.__register_stop_callback();
         __backend_.schedule(__rcvr_proxy_, std::span{__storage_});
       }
 
-- 
2.43.0


From e95641c171ce44885114ea75374986b432790709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 46/68] fix: bulk on a task_scheduler of an inline scheduler
 terminates

---
 include/stdexec/__detail/__task_scheduler.hpp | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index b345f22..b1d68a1 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -139,6 +139,28 @@ namespace STDEXEC
       }
     };
 
+    //////////////////////////////////////////////////////////////////////////////////////
+    // The environment of a bulk operation launched by a task_scheduler's backend. That operation is
+    // started on the backend's scheduler, so the start scheduler of the receiver does not apply to
+    // it. (If it did, the bulk operation of an inline scheduler would be dispatched back to the
+    // task_scheduler that wraps it.)
+    struct __bulk_env
+    {
+      [[nodiscard]]
+      auto query(get_allocator_t) const noexcept -> __any_allocator<std::byte>
+      {
+        return __detail::__proxy_env{__rcvr_}.query(get_allocator);
+      }
+
+      [[nodiscard]]
+      constexpr auto query(get_stop_token_t) const noexcept -> never_stop_token
+      {
+        return never_stop_token{};
+      }
+
+      receiver_proxy& __rcvr_;
+    };
+
     //////////////////////////////////////////////////////////////////////////////////////
     // __just_with_scheduler
     template <class _Sch>
@@ -813,7 +835,7 @@ namespace STDEXEC
                                           par,
                                           __count,
                                           __task::__bulk_chunked_fn{__rcvr_proxy});
-      __schedule<__task::__env_t<true>>(__rcvr_proxy, std::move(__sndr), __storage);
+      __schedule<__task::__bulk_env>(__rcvr_proxy, std::move(__sndr), __storage);
     }
 
     constexpr void
@@ -825,7 +847,7 @@ namespace STDEXEC
                                             par,
                                             __count,
                                             __task::__bulk_unchunked_fn{__rcvr_proxy});
-      __schedule<__task::__env_t<true>>(__rcvr_proxy, std::move(__sndr), __storage);
+      __schedule<__task::__bulk_env>(__rcvr_proxy, std::move(__sndr), __storage);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 44e1bbcc299d352848c3989532dd45088d0ebe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 47/68] fix: bulk on a task_scheduler delivers errors once and
 at the end

---
 .../__detail/__parallel_scheduler_backend.hpp | 11 +++++++---
 include/stdexec/__detail/__task_scheduler.hpp | 21 +++++++++++++++----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..e238c17 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -203,8 +203,13 @@ namespace STDEXEC
     };
 
     // Partially implements the _RcvrProxy interface (either receiver_proxy or
-    // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr.
-    template <class _Rcvr, class _RcvrProxy, bool _Infallible = false>
+    // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr. If _Infallible, it is
+    // never completed with an error; if _Unstoppable, it is completed with stopped only if the
+    // receiver's stop token can request stop.
+    template <class _Rcvr,
+              class _RcvrProxy,
+              bool _Infallible  = false,
+              bool _Unstoppable = _Infallible>
     struct STDEXEC_ATTRIBUTE(empty_bases) __receiver_proxy_base
       : _RcvrProxy
       , __stop_callback_for<stop_token_of_t<env_of_t<_Rcvr>>>
@@ -249,7 +254,7 @@ namespace STDEXEC
 
       constexpr void set_stopped() noexcept final
       {
-        if constexpr (_Infallible && unstoppable_token<__stop_token_t>)
+        if constexpr (_Unstoppable && unstoppable_token<__stop_token_t>)
         {
           STDEXEC_ASSERT(!+"set_stopped called on an unstoppable receiver proxy");
           __std::unreachable();
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index b1d68a1..d88c65b 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -524,7 +524,7 @@ namespace STDEXEC
     //! downstream receiver.
     template <class _BulkTag, class _Policy, class _Fn, class _Rcvr, class _Values>
     struct __bulk_state final
-      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
+      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, false, true>
     {
       using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
       // If we are not parallelizing, the backend runs a single task.
@@ -544,6 +544,12 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        if (__failed_.load(__std::memory_order_acquire))
+        {
+          // One of the calls to the bulk function has thrown.
+          STDEXEC::set_error(std::move(this->__rcvr_), std::move(__eptr_));
+          return;
+        }
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -565,7 +571,12 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          // Remember the first exception. The backend may still run other parts of the work, so it
+          // is delivered when the backend has finished.
+          if (!__failed_.exchange(true, __std::memory_order_acq_rel))
+          {
+            __eptr_ = std::current_exception();
+          }
         }
       }
 
@@ -576,6 +587,8 @@ namespace STDEXEC
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __eptr_{};
       __any_task_scheduler_backend __backend_;
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
         __storage_[STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_SIZE];
@@ -867,9 +880,9 @@ namespace STDEXEC
   {
     // Implementation of the get_start_scheduler_t query for __receiver_proxy_base and
     // __proxy_env from __parallel_scheduler_backend.hpp.
-    template <class _Rcvr, class _Proxy, bool _Infallible>
+    template <class _Rcvr, class _Proxy, bool _Infallible, bool _Unstoppable>
     constexpr void
-    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible>::__query(get_start_scheduler_t,
+    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible, _Unstoppable>::__query(get_start_scheduler_t,
                                                                __type_index __value_type,
                                                                void*        __dest) const noexcept
     {
-- 
2.43.0


From 908a558e450a11e7b70cf74139753a1384831c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 48/68] fix: timed_thread_context: always wake the thread when
 an operation is submitted

The thread could look at the queue while an operation was being linked into
it, see nothing and go to sleep. The submitter only notified if the queue had
been empty, so that the operation was delayed until the next time-out.
---
 include/exec/timed_thread_scheduler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..924c4e3 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -229,7 +229,9 @@ namespace experimental::execution
                                                          STDEXEC::__std::memory_order_relaxed);
         return;
       }
-      if (command_queue_.push_back(op))
+      // Wake the thread up whether or not the queue was empty: it may have looked at the queue
+      // while this or a previous operation was not linked into it yet, and have gone to sleep.
+      command_queue_.push_back(op);
       {
         std::scoped_lock lock{ready_mutex_};
         ready_ = true;
-- 
2.43.0


From 2d14a7cde27fc195e70c127a0bdf321db08fe04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:12 +0000
Subject: [PATCH 49/68] fix: timed_thread_context: complete operations
 submitted while the context is stopped

When the context was destroyed, an operation that had been submitted but not
yet taken from the queue was forgotten and never completed.
---
 include/exec/timed_thread_scheduler.hpp | 44 +++++++++++++++----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 924c4e3..974ba81 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -149,29 +149,34 @@ namespace experimental::execution
     using stop_type    = _time_thrd_sched::timed_thread_stop_operation;
     using time_point   = std::chrono::steady_clock::time_point;
 
-    void run()
+    void process_commands() noexcept
     {
-      while (true)
+      while (command_type* op = command_queue_.pop_front())
       {
-        while (command_type* op = command_queue_.pop_front())
+        if (op->command_ == command_type::command_type::schedule)
         {
-          if (op->command_ == command_type::command_type::schedule)
+          auto* task  = static_cast<task_type*>(op);
+          task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
+          heap_.insert(task);
+        }
+        else
+        {
+          STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
+          auto* stop_op = static_cast<stop_type*>(op);
+          if (heap_.erase(stop_op->target_))
           {
-            auto* task  = static_cast<task_type*>(op);
-            task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            heap_.insert(task);
-          }
-          else
-          {
-            STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
-            auto* stop_op = static_cast<stop_type*>(op);
-            if (heap_.erase(stop_op->target_))
-            {
-              stop_op->target_->set_stopped_(stop_op->target_);
-            }
-            stop_op->set_value_(stop_op);
+            stop_op->target_->set_stopped_(stop_op->target_);
           }
+          stop_op->set_value_(stop_op);
         }
+      }
+    }
+
+    void run()
+    {
+      while (true)
+      {
+        process_commands();
         time_point now = std::chrono::steady_clock::now();
         task_type* op  = heap_.front();
         while (op && op->time_point_ <= now)
@@ -192,11 +197,14 @@ namespace experimental::execution
           while (
             !n_submissions_in_flight_.compare_exchange_weak(expected,
                                                             context_closed,
+                                                            STDEXEC::__std::memory_order_acquire,
                                                             STDEXEC::__std::memory_order_relaxed))
           {
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
+          // Nothing can be submitted any more. Take what has been submitted in the meantime.
+          process_commands();
           op = heap_.front();
           while (op)
           {
@@ -237,7 +245,7 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
-- 
2.43.0


From e4f328a30653b0dafaa9166cb9a4271227771532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:12 +0000
Subject: [PATCH 50/68] fix: timed_thread_context: do not lose a stop request
 that overtakes its operation

A stop request made by another thread while an operation is being started can
be submitted before the operation itself. It was then ignored, and the
operation completed at its time as if it had not been stopped.
---
 include/exec/timed_thread_scheduler.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 974ba81..f845191 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -104,6 +104,10 @@ namespace experimental::execution
       timed_thread_schedule_operation_base* prev_  = nullptr;
       timed_thread_schedule_operation_base* left_  = nullptr;
       timed_thread_schedule_operation_base* right_ = nullptr;
+      // A stop request can reach the thread before the operation itself does. Both flags are
+      // accessed by the thread only.
+      bool scheduled_      = false;
+      bool stop_requested_ = false;
       void (*set_stopped_)(timed_thread_operation_base*) noexcept;
     };
 
@@ -155,7 +159,13 @@ namespace experimental::execution
       {
         if (op->command_ == command_type::command_type::schedule)
         {
-          auto* task  = static_cast<task_type*>(op);
+          auto* task       = static_cast<task_type*>(op);
+          task->scheduled_ = true;
+          if (task->stop_requested_)
+          {
+            task->set_stopped_(task);
+            continue;
+          }
           task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
           heap_.insert(task);
         }
@@ -163,7 +173,11 @@ namespace experimental::execution
         {
           STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
           auto* stop_op = static_cast<stop_type*>(op);
-          if (heap_.erase(stop_op->target_))
+          if (!stop_op->target_->scheduled_)
+          {
+            stop_op->target_->stop_requested_ = true;
+          }
+          else if (heap_.erase(stop_op->target_))
           {
             stop_op->target_->set_stopped_(stop_op->target_);
           }
-- 
2.43.0


From 33a7db556d2f4165a16954208383263dab4b2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:43 +0000
Subject: [PATCH 51/68] fix: timed_thread_context: do not touch the context
 after the stopped operation can have let it go

---
 include/exec/timed_thread_scheduler.hpp | 73 +++++++++++++++++--------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index f845191..3958dfc 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -231,26 +231,25 @@ namespace experimental::execution
       }
     }
 
-    void schedule(command_type* op)
+    // Returns false if the context is closed. Otherwise it stays open, and alive, until the matching
+    // end_submission().
+    auto begin_submission() noexcept -> bool
     {
-      std::ptrdiff_t n = n_submissions_in_flight_.fetch_add(1,
-                                                            STDEXEC::__std::memory_order_relaxed);
-      if (n < 0)
+      if (n_submissions_in_flight_.fetch_add(1, STDEXEC::__std::memory_order_relaxed) >= 0)
       {
-        if (op->command_ == command_type::command_type::schedule)
-        {
-          static_cast<task_type*>(op)->set_stopped_(op);
-        }
-        else
-        {
-          STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
-          static_cast<stop_type*>(op)->set_value_(op);
-        }
-        n_submissions_in_flight_.compare_exchange_strong(n,
-                                                         context_closed,
-                                                         STDEXEC::__std::memory_order_relaxed);
-        return;
+        return true;
       }
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      return false;
+    }
+
+    void end_submission() noexcept
+    {
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
+    }
+
+    void submit(command_type* op)
+    {
       // Wake the thread up whether or not the queue was empty: it may have looked at the queue
       // while this or a previous operation was not linked into it yet, and have gone to sleep.
       command_queue_.push_back(op);
@@ -259,7 +258,19 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
+    }
+
+    void schedule(task_type* op)
+    {
+      if (begin_submission())
+      {
+        submit(op);
+        end_submission();
+      }
+      else
+      {
+        op->set_stopped_(op);
+      }
     }
 
     void request_stop()
@@ -301,7 +312,7 @@ namespace experimental::execution
             [](_time_thrd_sched::timed_thread_operation_base* op) noexcept
             {
               auto* self    = static_cast<timed_thread_schedule_at_op*>(op);
-              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel);
               if (counter == 1)
               {
                 self->stop_callback_.reset();
@@ -311,7 +322,7 @@ namespace experimental::execution
             [](_time_thrd_sched::timed_thread_operation_base* op) noexcept
             {
               auto* self    = static_cast<timed_thread_schedule_at_op*>(op);
-              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel);
               if (counter == 1)
               {
                 self->stop_callback_.reset();
@@ -325,7 +336,7 @@ namespace experimental::execution
                      auto* stop = static_cast<_time_thrd_sched::timed_thread_stop_operation*>(op);
                      auto* self = static_cast<timed_thread_schedule_at_op*>(stop->target_);
                      int   counter = self->ref_count_.fetch_sub(1,
-                                                              STDEXEC::__std::memory_order_relaxed);
+                                                              STDEXEC::__std::memory_order_acq_rel);
                      if (counter == 1)
                      {
                        self->stop_callback_.reset();
@@ -372,9 +383,25 @@ namespace experimental::execution
 
       constexpr void request_stop() noexcept
       {
-        if (ref_count_.fetch_add(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        // Once we hold a reference, the thread can finish without completing this operation, so
+        // that the context can be gone. Before that, it cannot: completing the operation waits
+        // for us.
+        timed_thread_context& context = context_;
+        bool const            open    = context.begin_submission();
+        if (ref_count_.fetch_add(1, STDEXEC::__std::memory_order_acq_rel) == 1)
+        {
+          if (open)
+          {
+            context.submit(&stop_op_);
+          }
+          else
+          {
+            stop_op_.set_value_(&stop_op_);
+          }
+        }
+        if (open)
         {
-          context_.schedule(&stop_op_);
+          context.end_submission();
         }
       }
 
-- 
2.43.0


From fa0b6373016891f918add5ab7a5a6fe6ce3d854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:35 +0000
Subject: [PATCH 52/68] fix: __manual_lifetime: do not pass a value through
 braces, they prefer initializer_list constructors

---
 include/stdexec/__detail/__manual_lifetime.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__manual_lifetime.hpp b/include/stdexec/__detail/__manual_lifetime.hpp
index 21d565d..d6122b8 100644
--- a/include/stdexec/__detail/__manual_lifetime.hpp
+++ b/include/stdexec/__detail/__manual_lifetime.hpp
@@ -59,9 +59,17 @@ namespace STDEXEC
       noexcept(STDEXEC::__nothrow_constructible_from<_Ty, _Args...>) -> _Ty&
     {
       // Use placement new instead of std::construct_at to support aggregate initialization with
-      // brace elision.
-      return *std::launder(::new (static_cast<void*>(__buffer_))
-                             _Ty{static_cast<_Args&&>(__args)...});
+      // brace elision. Otherwise avoid braces: they prefer initializer_list constructors.
+      if constexpr (__std::constructible_from<_Ty, _Args...>)
+      {
+        return *std::launder(::new (static_cast<void*>(__buffer_))
+                               _Ty(static_cast<_Args&&>(__args)...));
+      }
+      else
+      {
+        return *std::launder(::new (static_cast<void*>(__buffer_))
+                               _Ty{static_cast<_Args&&>(__args)...});
+      }
     }
 
     //! Construct the `_Ty` in place from the result of calling `func`.
@@ -72,7 +80,7 @@ namespace STDEXEC
       // Use placement new instead of std::construct_at in case the function returns an immovable
       // type.
       return *std::launder(::new (static_cast<void*>(__buffer_))
-                             _Ty{static_cast<_Func&&>(func)(static_cast<_Args&&>(__args)...)});
+                             _Ty(static_cast<_Func&&>(func)(static_cast<_Args&&>(__args)...)));
     }
 
     //! End the lifetime of the contained `_Ty`.
-- 
2.43.0


From 635f67133521957ce48fd46f9ea1db144b9058ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:35 +0000
Subject: [PATCH 53/68] fix: copying a __variant whose alternative's copy
 constructor throws does not terminate

---
 include/stdexec/__detail/__variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__variant.hpp b/include/stdexec/__detail/__variant.hpp
index 721ea18..850db2e 100644
--- a/include/stdexec/__detail/__variant.hpp
+++ b/include/stdexec/__detail/__variant.hpp
@@ -154,7 +154,7 @@ namespace STDEXEC
       {
         template <class _Self, class _Ty>
         constexpr void operator()(_Self &__self, _Ty const &__val) const  //
-          noexcept(__nothrow_decay_copyable<_Ty>)
+          noexcept(__nothrow_decay_copyable<_Ty const &>)
         {
           __self.template emplace<__decay_t<_Ty>>(__val);
         }
-- 
2.43.0


From 18bee1d1d5516e32bedb0075f9ebf04492ba9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 54/68] fix: function takes its allocator from the receiver's
 environment

---
 include/exec/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index f0ba12f..872e719 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -141,14 +141,14 @@ namespace experimental::execution
       using __receiver_t   = __receiver_wrapper<__any_receiver_ref<_Sigs, _Queries>>;
       using __prop_t       = __receiver_t::__prop_t;
       using __stop_token_t = stop_token_of_t<env_of_t<__receiver_t>>;
-      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<_Receiver const &>()));
+      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<env_of_t<_Receiver>>()));
 
       __memory_resource_adaptor_t<__adaptee_t> __resource_;
       __prop_t                                 __env_;
       _any::_state<_Receiver, __stop_token_t>  __rcvr_;
 
       explicit __opstate_base(_Receiver __rcvr)
-        : __resource_(__choose_frame_allocator(std::as_const(__rcvr)))
+        : __resource_(__choose_frame_allocator(STDEXEC::get_env(__rcvr)))
         , __env_(__make_env())
         , __rcvr_(static_cast<_Receiver &&>(__rcvr))
       {}
-- 
2.43.0


From 47ca44a0901130605a94a53117b1ae16ef00969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 55/68] fix: a function with a stop-token query can be
 connected and passes stop requests on

---
 include/exec/any_sender_of.hpp | 6 ++++++
 include/exec/function.hpp      | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/include/exec/any_sender_of.hpp b/include/exec/any_sender_of.hpp
index e59fe6e..85b6584 100644
--- a/include/exec/any_sender_of.hpp
+++ b/include/exec/any_sender_of.hpp
@@ -649,6 +649,12 @@ namespace experimental::execution
       constexpr _any_receiver_ref(Receiver &_rcvr) noexcept
         : _any_receiver_ref::__pointer_receiver(std::addressof(_rcvr))
       {}
+
+      // The _state of an operation need not be movable, and so need not be a receiver itself.
+      template <class Receiver, class StopToken>
+      constexpr _any_receiver_ref(_state<Receiver, StopToken> &_rcvr) noexcept
+        : _any_receiver_ref::__pointer_receiver(std::addressof(_rcvr))
+      {}
     };
   }  // namespace _any
 
diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index 872e719..c20647e 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -131,6 +131,10 @@ namespace experimental::execution
       using __stop_token_t = stop_token_of_t<env_of_t<__receiver_t>>;
 
       _any::_state<_Receiver, __stop_token_t> __rcvr_;
+
+      explicit constexpr __opstate_base(_Receiver __rcvr)
+        : __rcvr_(static_cast<_Receiver &&>(__rcvr))
+      {}
     };
 
     template <class _Receiver, class _Sigs, class _Queries>
@@ -194,6 +198,7 @@ namespace experimental::execution
 
       constexpr void start() & noexcept
       {
+        this->__rcvr_._register_callback();
         __op_.start();
       }
     };
-- 
2.43.0


From bdb561c2e0d74338a8f961493bd4fa21f8f8700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 56/68] fix: an on_coroutine_* task that is not awaited
 destroys its coroutine

---
 include/exec/on_coro_disposition.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/exec/on_coro_disposition.hpp b/include/exec/on_coro_disposition.hpp
index edb8b2e..e946197 100644
--- a/include/exec/on_coro_disposition.hpp
+++ b/include/exec/on_coro_disposition.hpp
@@ -82,6 +82,12 @@ namespace experimental::execution
         : __coro_(std::exchange(__that.__coro_, {}))
       {}
 
+      ~__task()
+      {
+        if (__coro_)
+          STDEXEC::__coroutine_destroy_nothrow(__coro_);
+      }
+
       [[nodiscard]]
       auto await_ready() const noexcept -> bool
       {
-- 
2.43.0


From 207201c669a610c1c67910240109d90cb5bc260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 57/68] fix: pool bulk handles negative shapes and more agents
 than the shape can count

---
 include/exec/thread_pool_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index ed4f44c..62d3cc4 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -208,7 +208,7 @@ namespace experimental::execution
           // With work stealing, is std::min necessary, or can we feel free to ask for more agents (tasks)
           // than we can actually deal with at one time?
           return static_cast<std::uint32_t>(
-            (std::min) (shape_, static_cast<Shape>(pool_.available_parallelism())));
+            STDEXEC::__umin({std::size_t(shape_), std::size_t(pool_.available_parallelism())}));
         }
 
         template <class F>
@@ -329,7 +329,7 @@ namespace experimental::execution
             state.data_.template emplace<tuple_t>(static_cast<As&&>(as)...);
           }
 
-          if (state.shape_)
+          if (Shape{} < state.shape_)
           {
             enqueue();
           }
-- 
2.43.0


From d8ff3c834ddbf3543fad623058036802dc8db324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 58/68] fix: pool bulk accepts values that cannot be
 default-constructed or copied

---
 include/exec/thread_pool_base.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index 62d3cc4..a4b8feb 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -190,7 +190,8 @@ namespace experimental::execution
         using variant_t = STDEXEC::__value_types_of_t<CvSender,
                                                       STDEXEC::env_of_t<Receiver>,
                                                       STDEXEC::__q<STDEXEC::__decayed_std_tuple>,
-                                                      STDEXEC::__q<STDEXEC::__std_variant>>;
+                                                      STDEXEC::__mbind_front_q<STDEXEC::__std_variant,
+                                                                               std::monostate>>;
 
         variant_t        data_;
         DerivedPoolType& pool_;
@@ -214,9 +215,15 @@ namespace experimental::execution
         template <class F>
         void apply(F f)
         {
-          std::visit([&](auto& tupl) -> void
-                     { std::apply([&](auto&... args) -> void { f(args...); }, tupl); },
-                     data_);
+          std::visit(
+            [&]<class Tuple>(Tuple& tupl) -> void
+            {
+              if constexpr (!std::same_as<Tuple, std::monostate>)
+              {
+                std::apply([&](auto&... args) -> void { f(args...); }, tupl);
+              }
+            },
+            data_);
         }
 
         explicit bulk_shared_state(DerivedPoolType& pool, Receiver rcvr, Shape shape, Fun fun)
@@ -396,8 +403,7 @@ namespace experimental::execution
         template <class Self, class... Env>
         using _with_error_invoke_t = STDEXEC::__eptr_completion_unless_t<STDEXEC::__value_types_t<
           STDEXEC::__completion_signatures_of_t<STDEXEC::__copy_cvref_t<Self, Sender>, Env...>,
-          STDEXEC::__mtransform<STDEXEC::__q1<_pool_::__decay_ref_t>,
-                                STDEXEC::__mbind_front_q<bulk_non_throwing, Fun, Shape>>,
+          STDEXEC::__mbind_front_q<bulk_non_throwing, Fun, Shape>,
           STDEXEC::__q<STDEXEC::__mand>>>;
 
         template <class... Tys>
-- 
2.43.0


From eac05c96ee1fa9e0999d920479b73b565ae06854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 59/68] fix: pool bulk decides by the call it makes whether the
 function can throw

---
 include/exec/thread_pool_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index a4b8feb..21cac1b 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -178,7 +178,7 @@ namespace experimental::execution
       template <class Fun, class Shape, class... Args>
       using bulk_non_throwing = STDEXEC::__mbool<
         // If function invocation doesn't throw
-        STDEXEC::__nothrow_callable<Fun, Shape, _pool_::__decay_ref_t<Args>...> &&
+        STDEXEC::__nothrow_callable<Fun&, Shape, Shape, _pool_::__decay_ref_t<Args>...> &&
         // and emplacing a tuple doesn't throw
         noexcept(STDEXEC::__decayed_std_tuple<Args...>(STDEXEC::__declval<Args>()...))
         // there's no need to advertise completion with `exception_ptr`
-- 
2.43.0


From 39a9e2434e77216592d6c64d95d5878181e0398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 60/68] fix: pool bulk honours a sequenced policy

---
 include/exec/thread_pool_base.hpp | 56 ++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index 21cac1b..e8f9879 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -91,8 +91,13 @@ namespace experimental::execution
         {
           auto sch =
             STDEXEC::get_completion_scheduler<STDEXEC::set_value_t>(STDEXEC::get_env(child), env);
-          using sender_t =
-            scheduler::template bulk_sender_t<decltype(child), decltype(shape), decltype(fun)>;
+          using policy_t             = std::remove_cvref_t<decltype(pol.__get())>;
+          constexpr bool parallelize = std::same_as<policy_t, STDEXEC::parallel_policy>
+                                    || std::same_as<policy_t, STDEXEC::parallel_unsequenced_policy>;
+          using sender_t             = scheduler::template bulk_sender_t<parallelize,
+                                                                         decltype(child),
+                                                                         decltype(shape),
+                                                                         decltype(fun)>;
           return sender_t{*sch.pool_,
                           STDEXEC::__forward_like<Sender>(child),
                           shape,
@@ -184,7 +189,12 @@ namespace experimental::execution
         // there's no need to advertise completion with `exception_ptr`
         >;
 
-      template <class CvSender, class Receiver, class Shape, class Fun, bool MayThrow>
+      template <bool Parallelize,
+                class CvSender,
+                class Receiver,
+                class Shape,
+                class Fun,
+                bool MayThrow>
       struct bulk_shared_state : _pool_::task_base
       {
         using variant_t = STDEXEC::__value_types_of_t<CvSender,
@@ -206,10 +216,17 @@ namespace experimental::execution
         [[nodiscard]]
         auto num_agents_required() const -> std::uint32_t
         {
-          // With work stealing, is std::min necessary, or can we feel free to ask for more agents (tasks)
-          // than we can actually deal with at one time?
-          return static_cast<std::uint32_t>(
-            STDEXEC::__umin({std::size_t(shape_), std::size_t(pool_.available_parallelism())}));
+          if constexpr (Parallelize)
+          {
+            // With work stealing, is std::min necessary, or can we feel free to ask for more agents (tasks)
+            // than we can actually deal with at one time?
+            return static_cast<std::uint32_t>(
+              STDEXEC::__umin({std::size_t(shape_), std::size_t(pool_.available_parallelism())}));
+          }
+          else
+          {
+            return static_cast<std::uint32_t>(1);
+          }
         }
 
         template <class F>
@@ -300,12 +317,18 @@ namespace experimental::execution
         }
       };
 
-      template <class CvSender, class Receiver, class Shape, class Fun, bool MayThrow>
+      template <bool Parallelize,
+                class CvSender,
+                class Receiver,
+                class Shape,
+                class Fun,
+                bool MayThrow>
       struct bulk_receiver
       {
         using receiver_concept = STDEXEC::receiver_tag;
 
-        using shared_state = bulk_shared_state<CvSender, Receiver, Shape, Fun, MayThrow>;
+        using shared_state =
+          bulk_shared_state<Parallelize, CvSender, Receiver, Shape, Fun, MayThrow>;
 
         void enqueue() noexcept
         {
@@ -368,7 +391,7 @@ namespace experimental::execution
         shared_state& shared_state_;
       };
 
-      template <class CvSender, class Receiver, std::integral Shape, class Fun>
+      template <bool Parallelize, class CvSender, class Receiver, std::integral Shape, class Fun>
       struct bulk_opstate
       {
         static constexpr bool may_throw =
@@ -377,8 +400,9 @@ namespace experimental::execution
                                        STDEXEC::__mbind_front_q<bulk_non_throwing, Fun, Shape>,
                                        STDEXEC::__q<STDEXEC::__mand>>::value;
 
-        using bulk_rcvr     = bulk_receiver<CvSender, Receiver, Shape, Fun, may_throw>;
-        using shared_state  = bulk_shared_state<CvSender, Receiver, Shape, Fun, may_throw>;
+        using bulk_rcvr = bulk_receiver<Parallelize, CvSender, Receiver, Shape, Fun, may_throw>;
+        using shared_state =
+          bulk_shared_state<Parallelize, CvSender, Receiver, Shape, Fun, may_throw>;
         using inner_opstate = STDEXEC::connect_result_t<CvSender, bulk_rcvr>;
 
         void start() & noexcept
@@ -395,7 +419,7 @@ namespace experimental::execution
         inner_opstate inner_op_;
       };
 
-      template <class Sender, std::integral Shape, class Fun>
+      template <bool Parallelize, class Sender, std::integral Shape, class Fun>
       struct bulk_sender
       {
         using sender_concept = STDEXEC::sender_tag;
@@ -418,7 +442,7 @@ namespace experimental::execution
 
         template <class Self, class Receiver>
         using bulk_opstate_t =
-          bulk_opstate<STDEXEC::__copy_cvref_t<Self, Sender>, Receiver, Shape, Fun>;
+          bulk_opstate<Parallelize, STDEXEC::__copy_cvref_t<Self, Sender>, Receiver, Shape, Fun>;
 
         explicit bulk_sender(DerivedPoolType& pool, Sender sndr, Shape shape, Fun fun)
           : pool_(pool)
@@ -481,8 +505,8 @@ namespace experimental::execution
         Fun              fun_;
       };
 
-      template <STDEXEC::sender Sender, std::integral Shape, class Fun>
-      using bulk_sender_t = bulk_sender<STDEXEC::__decay_t<Sender>, Shape, Fun>;
+      template <bool Parallelize, STDEXEC::sender Sender, std::integral Shape, class Fun>
+      using bulk_sender_t = bulk_sender<Parallelize, STDEXEC::__decay_t<Sender>, Shape, Fun>;
 
       friend thread_pool_base;
 
-- 
2.43.0


From 0ff95fc52d69f0a68f1be31c4b073c9e82b0b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:31 +0000
Subject: [PATCH 61/68] fix: exec::basic_task without a scheduler can be
 awaited from a coroutine whose stop token is not an inplace_stop_token

The erased stop callback was kept in a std::any, which needs copyable objects. Stop
callbacks are neither copyable nor movable, so the await expression never compiled.
---
 include/exec/task.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 64776aa..8310da5 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -15,9 +15,9 @@
  */
 #pragma once
 
-#include <any>
 #include <cassert>
 #include <exception>
+#include <memory>
 #include <utility>
 
 #include "../stdexec/__detail/__meta.hpp"
@@ -315,14 +315,16 @@ namespace experimental::execution
         }
         else if (auto __token = get_stop_token(get_env(__parent)); __token.stop_possible())
         {
-          __stop_callback_.emplace<__stop_callback_t>(std::move(__token),
-                                                      __forward_stop_request{__stop_source_});
+          __stop_callback_ = std::make_shared<__stop_callback_t>(std::move(__token),
+                                                                 __forward_stop_request<>{
+                                                                   __stop_source_});
           __self.__stop_token_ = __stop_source_.get_token();
         }
       }
 
-      inplace_stop_source __stop_source_{};
-      std::any            __stop_callback_{};
+      inplace_stop_source   __stop_source_{};
+      // Type-erased. Stop callbacks can be neither copied nor moved.
+      std::shared_ptr<void> __stop_callback_{};
     };
 
     template <class _Promise, class _ParentPromise = void>
-- 
2.43.0


From 0571f713c4e3f94ed5ca70f96b85fb493580d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 62/68] fix: io_uring_context reports the error of a failed
 io_uring_setup

---
 include/exec/linux/io_uring_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 011cf1f..0baeb8e 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -72,7 +72,7 @@ namespace experimental::execution
     __io_uring_setup(unsigned __entries, ::io_uring_params& __params) -> safe_file_descriptor
     {
       int rc = static_cast<int>(::syscall(__NR_io_uring_setup, __entries, &__params));
-      __throw_error_code_if(rc < 0, -rc);
+      __throw_error_code_if(rc < 0, errno);
       return safe_file_descriptor{rc};
     }
 
-- 
2.43.0


From a272799e80b39d13922f387b7e91e34db6f63694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 63/68] fix: io_uring_context::run completes once when running
 the context throws

---
 include/exec/linux/io_uring_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 0baeb8e..8b5c285 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -669,6 +669,7 @@ namespace experimental::execution
           {
             __callback.reset();
             STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
           }
           __callback.reset();
           if (__context_.stop_requested())
-- 
2.43.0


From f805aa58db504220ecf2dbf41c194e224d58a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 64/68] fix: a cancellation does not let a stopped
 io_uring_context submit the operations behind it

---
 include/exec/linux/io_uring_context.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 8b5c285..814d633 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -257,10 +257,11 @@ namespace experimental::execution
           else
           {
             __op->__vtable_->__submit_(__op, __sqe);
+            bool __stop_this_op = __is_stopped;
 #    ifdef STDEXEC_HAS_IO_URING_ASYNC_CANCELLATION
-            __is_stopped = __is_stopped && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
+            __stop_this_op = __stop_this_op && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
 #    endif
-            if (__is_stopped)
+            if (__stop_this_op)
             {
               __stop(__op);
             }
-- 
2.43.0


From 7b14b49678c17a47fb7590f9ce8211baf64cff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 65/68] fix: an io_uring_context that is stopped completes the
 timers and cancellations submitted to it

---
 include/exec/linux/io_uring_context.hpp | 28 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 814d633..88b8e24 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -204,6 +204,18 @@ namespace experimental::execution
       __op->__vtable_->__complete_(__op, __cqe);
     }
 
+    // Stops a task that has not been submitted yet. A task has to be submitted before it is
+    // completed, so it is submitted to an entry that is never shown to the kernel.
+    inline void __submit_and_stop(__task* __op) noexcept
+    {
+      if (!__op->__vtable_->__ready_(__op))
+      {
+        ::io_uring_sqe __sqe{};
+        __op->__vtable_->__submit_(__op, __sqe);
+      }
+      __stop(__op);
+    }
+
     // This class implements the io_uring submission queue.
     class __submission_queue
     {
@@ -486,7 +498,7 @@ namespace experimental::execution
           ;
         if (__n == __no_new_submissions)
         {
-          __stop(__op);
+          __submit_and_stop(__op);
           return false;
         }
         else
@@ -612,16 +624,12 @@ namespace experimental::execution
           }
           STDEXEC_ASSERT(__n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed)
                          == __no_new_submissions);
-          // There could have been requests in flight. Complete all of them
-          // and then stop it, finally.
+          // There could have been requests in flight. Stop all of them, finally.
           __pending_.append(__requests_.pop_all_reversed());
-          __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
-                                                                      __pending_),
-                                                                    __params_.cq_entries,
-                                                                    true);
-          STDEXEC_ASSERT(__result.__n_submitted == 0);
-          STDEXEC_ASSERT(__result.__pending.empty());
-          __completion_queue_.complete(static_cast<__task_queue&&>(__result.__ready));
+          while (!__pending_.empty())
+          {
+            __submit_and_stop(__pending_.pop_front());
+          }
         }
       }
 
-- 
2.43.0


From adc12283493d9c18ed735bc6bffba54a7d72651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 66/68] fix: an io_uring_context keeps one wakeup in flight
 while it is stopped and when it is run again

---
 include/exec/linux/io_uring_context.hpp | 71 +++++++++++++++----------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 88b8e24..b88b2e0 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -245,8 +245,11 @@ namespace experimental::execution
       // If is_stopped is true, no new tasks are submitted to the io_uring unless it is a cancellation.
       // If is_stopped is true and a task is not ready to be completed, the task is completed with
       // an io_uring_cqe object with the result field set to -ECANCELED.
-      auto submit(__task_queue __tasks, __u32 __max_submissions, bool __is_stopped) noexcept
-        -> __submission_result
+      // The task __wakeup is submitted in any case: it is what wakes up the context.
+      auto submit(__task_queue   __tasks,
+                  __u32          __max_submissions,
+                  bool           __is_stopped,
+                  __task const * __wakeup) noexcept -> __submission_result
       {
         __u32 __tail          = __tail_.load(STDEXEC::__std::memory_order_relaxed);
         __u32 __head          = __head_.load(STDEXEC::__std::memory_order_acquire);
@@ -269,7 +272,7 @@ namespace experimental::execution
           else
           {
             __op->__vtable_->__submit_(__op, __sqe);
-            bool __stop_this_op = __is_stopped;
+            bool __stop_this_op = __is_stopped && __op != __wakeup;
 #    ifdef STDEXEC_HAS_IO_URING_ASYNC_CANCELLATION
             __stop_this_op = __stop_this_op && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
 #    endif
@@ -355,6 +358,7 @@ namespace experimental::execution
     {
       __context* __context_ = nullptr;
       int        __eventfd_ = -1;
+      bool       __started_ = false;
 #    ifdef STDEXEC_HAS_IORING_OP_READ
       std::uint64_t __buffer_ = 0;
 #    else
@@ -440,7 +444,8 @@ namespace experimental::execution
       /// @brief Resets the io context to its initial state.
       void reset()
       {
-        if (__is_running_.load(STDEXEC::__std::memory_order_relaxed) || __n_total_submitted_ > 0)
+        // The wakeup operation stays in flight once the context has been run.
+        if (__is_running_.load(STDEXEC::__std::memory_order_relaxed) || __n_total_submitted_ > 1)
         {
           STDEXEC_THROW(std::runtime_error("exec::io_uring_context::reset() called on a running "
                                            "context"));
@@ -525,7 +530,8 @@ namespace experimental::execution
         __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
                                                                     __pending_),
                                                                   __max_submissions,
-                                                                  __stop_source_->stop_requested());
+                                                                  __stop_source_->stop_requested(),
+                                                                  &__wakeup_operation_);
         __n_total_submitted_ += __result.__n_submitted;
         __n_newly_submitted_ += __result.__n_submitted;
         STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -539,7 +545,8 @@ namespace experimental::execution
           __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
           __result          = __submission_queue_.submit(static_cast<__task_queue&&>(__pending_),
                                                 __max_submissions,
-                                                __stop_source_->stop_requested());
+                                                __stop_source_->stop_requested(),
+                                                &__wakeup_operation_);
           __n_total_submitted_ += __result.__n_submitted;
           __n_newly_submitted_ += __result.__n_submitted;
           STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -560,18 +567,10 @@ namespace experimental::execution
         }
         else
         {
-          // Check whether we restart the context after a context-wide stop.
-          // We have to reset the stop source in this case.
-          int __in_flight = __n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed);
-          if (__in_flight == __no_new_submissions)
+          __reopen();
+          // Once started, the wakeup operation restarts itself and is always in flight.
+          if (!__wakeup_operation_.__started_)
           {
-            __stop_source_.emplace();
-            // Make emplacement of stop source visible to other threads and open the door for new submissions.
-            __n_submissions_in_flight_.store(0, STDEXEC::__std::memory_order_release);
-          }
-          else
-          {
-            // This can only happen for the very first pass of run_until_stopped()
             __wakeup_operation_.start();
           }
         }
@@ -581,9 +580,12 @@ namespace experimental::execution
         while (__n_total_submitted_ > 0 || !__pending_.empty())
         {
           run_some();
-          if (__n_total_submitted_ == 0
-              || (__n_total_submitted_ == 1
-                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)))
+          // Tasks that have been completed or stopped just now may have submitted further tasks.
+          __pending_.append(__requests_.pop_all_reversed());
+          // The wakeup operation is always in flight. Nothing else is left if it is the only one.
+          if (__n_total_submitted_ == 1 && __pending_.empty()
+              && (__break_loop_.load(STDEXEC::__std::memory_order_acquire)
+                  || __stop_source_->stop_requested()))
           {
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
@@ -605,10 +607,9 @@ namespace experimental::execution
           STDEXEC_ASSERT(0 <= __n_total_submitted_);
           __pending_.append(__requests_.pop_all_reversed());
         }
-        STDEXEC_ASSERT(__n_total_submitted_ <= 1);
-        if (__stop_source_->stop_requested() && __pending_.empty())
+        STDEXEC_ASSERT(__n_total_submitted_ == 1);
+        if (__stop_source_->stop_requested())
         {
-          STDEXEC_ASSERT(__n_total_submitted_ == 0);
           // try to shutdown the request queue
           int __n_in_flight_expected = 0;
           while (
@@ -659,6 +660,11 @@ namespace experimental::execution
 
         void start() & noexcept
         {
+          // Restarting a stopped context must not discard a stop request of the receiver.
+          if (!__context_.is_running())
+          {
+            __context_.__reopen();
+          }
           std::optional<__on_stopped_callback> __callback(std::in_place,
                                                           STDEXEC::get_stop_token(
                                                             STDEXEC::get_env(__rcvr_)),
@@ -734,6 +740,19 @@ namespace experimental::execution
      private:
       friend struct __wakeup_operation;
 
+      // Check whether we restart the context after a context-wide stop.
+      // We have to reset the stop source in this case.
+      void __reopen() noexcept
+      {
+        if (__n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed)
+            == __no_new_submissions)
+        {
+          __stop_source_.emplace();
+          // Make emplacement of stop source visible to other threads and open the door for new submissions.
+          __n_submissions_in_flight_.store(0, STDEXEC::__std::memory_order_release);
+        }
+      }
+
       // This constant is used for __n_submissions_in_flight to indicate that no new submissions
       // to this context will be completed by this context.
       static constexpr int __no_new_submissions = -1;
@@ -753,10 +772,8 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__context_->__stop_source_->stop_requested())
-      {
-        __context_->__pending_.push_front(this);
-      }
+      __started_ = true;
+      __context_->__pending_.push_front(this);
     }
 
     template <class _Op>
-- 
2.43.0


From 55da08bf8f6291adb4487182d81cb63f2535eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 67/68] fix: an io_uring timer waits for its stop callbacks
 before it completes

---
 include/exec/linux/io_uring_context.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index b88b2e0..c156266 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -944,7 +944,7 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const &) noexcept
       {
-        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
           __op_->__on_context_stop_.reset();
           __op_->__on_receiver_stop_.reset();
@@ -957,6 +957,7 @@ namespace experimental::execution
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
                                                     2,
+                                                    STDEXEC::__std::memory_order_acquire,
                                                     STDEXEC::__std::memory_order_relaxed))
         {
           if (__op_->context().submit(this))
@@ -1070,10 +1071,11 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
-        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        // Wait for a stop callback that has counted the stop operation but not submitted it yet.
+        __on_context_stop_.reset();
+        __on_receiver_stop_.reset();
+        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
-          __on_context_stop_.reset();
-          __on_receiver_stop_.reset();
           __receiver_t& __receiver = this->__base_.receiver();
           __context&    __context_ = this->__base_.context();
           auto          token      = STDEXEC::get_stop_token(STDEXEC::get_env(__receiver));
-- 
2.43.0


From 711a2842f57203b77469d5957ca520e6b322f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:37 +0000
Subject: [PATCH 68/68] fix: a rejected io_uring_context::run_until_empty does
 not end the running one

---
 include/exec/linux/io_uring_context.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index c156266..d1ff537 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -555,6 +555,11 @@ namespace experimental::execution
       }
 
       void run_until_stopped()
+      {
+        __run(until::stopped);
+      }
+
+      void __run(until __mode)
       {
         bool expected_running = false;
         // Only one thread of execution is allowed to drive the io context.
@@ -567,6 +572,10 @@ namespace experimental::execution
         }
         else
         {
+          if (__mode == until::empty)
+          {
+            __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
+          }
           __reopen();
           // Once started, the wakeup operation restarts itself and is always in flight.
           if (!__wakeup_operation_.__started_)
@@ -731,8 +740,7 @@ namespace experimental::execution
 
       void run_until_empty()
       {
-        __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
-        run_until_stopped();
+        __run(until::empty);
       }
 
       auto get_scheduler() noexcept -> __scheduler;
-- 
2.43.0

