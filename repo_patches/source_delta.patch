From 7498d7a59f20d86cc6ddc2fcde73bbc84f1608e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 01/25] fix: AwaitSticky of several futures used an undeclared
 name and did not compile

---
 include/yaclib/coro/await_sticky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/await_sticky.hpp b/include/yaclib/coro/await_sticky.hpp
index dce18ad..96560e7 100644
--- a/include/yaclib/coro/await_sticky.hpp
+++ b/include/yaclib/coro/await_sticky.hpp
@@ -16,7 +16,7 @@ YACLIB_INLINE auto AwaitSticky(Waited& waited) noexcept {
 template <typename... Waited, typename = std::enable_if_t<(... && is_waitable_v<Waited>)>>
 YACLIB_INLINE auto AwaitSticky(Waited&... waited) noexcept {
   using namespace detail;
-  static constexpr auto kSharedCount = Count<SharedHandle, typename Waited::Handle...>;
+  static constexpr auto kSharedCount = kCount<SharedHandle, typename Waited::Handle...>;
   using Awaiter = std::conditional_t<kSharedCount == 0, MultiAwaitAwaiter<AwaitEvent<true>>,
                                      MultiAwaitAwaiter<StaticSharedEvent<AwaitEvent<true>, kSharedCount>>>;
   YACLIB_ASSERT(... && waited.Valid());
-- 
2.43.0


From 4f14348b4c63b0c4997d865c39af07ae3afd4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 02/25] fix: Ready() was true as soon as a callback was
 registered, before the result exists

---
 include/yaclib/algo/detail/base_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/base_core.hpp b/include/yaclib/algo/detail/base_core.hpp
index a3aac33..926fc3c 100644
--- a/include/yaclib/algo/detail/base_core.hpp
+++ b/include/yaclib/algo/detail/base_core.hpp
@@ -26,7 +26,7 @@ class BaseCore : public InlineCore {
 
   bool Empty() const noexcept {
     auto callback = _callback.load(std::memory_order_acquire);
-    return callback == kEmpty;
+    return callback != kResult;
   }
 
   template <bool Shared>
-- 
2.43.0


From a20216fc3eb63a56223d199ba85b5639430aefbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 03/25] fix: moving a value out of a shared core was not
 ordered after the other owners' reads

---
 include/yaclib/coro/detail/promise_type.hpp   | 2 +-
 include/yaclib/util/detail/unique_counter.hpp | 2 +-
 include/yaclib/util/helper.hpp                | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index f4655bc..edb9919 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -101,7 +101,7 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
     return this->Add(1);
   }
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    return this->Get(std::memory_order_acquire);
   }
   void DecRef() noexcept final {
     this->Sub(1);
diff --git a/include/yaclib/util/detail/unique_counter.hpp b/include/yaclib/util/detail/unique_counter.hpp
index 3395d0d..8017209 100644
--- a/include/yaclib/util/detail/unique_counter.hpp
+++ b/include/yaclib/util/detail/unique_counter.hpp
@@ -23,7 +23,7 @@ struct OneCounter : CounterBase {
     Deleter::Delete(*this);
   }
 
-  std::size_t Get() noexcept {
+  std::size_t Get(std::memory_order = std::memory_order_relaxed) noexcept {
     return 1;
   }
 };
diff --git a/include/yaclib/util/helper.hpp b/include/yaclib/util/helper.hpp
index dd2241d..3c2d251 100644
--- a/include/yaclib/util/helper.hpp
+++ b/include/yaclib/util/helper.hpp
@@ -23,7 +23,8 @@ class Helper final : public Counter<ObjectT, DefaultDeleter> {
   }
 
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    // acquire: the last owner may move the value out, only after the other owners finished with it
+    return this->Get(std::memory_order_acquire);
   }
 };
 
-- 
2.43.0


From 650dcfa4f0c3bab04cfaf741454cf8c868fcfaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 04/25] fix: MakeSharedContractOn declared the wrong return
 type and could not be instantiated

---
 include/yaclib/async/shared_contract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/async/shared_contract.hpp b/include/yaclib/async/shared_contract.hpp
index 7bc01d8..d723e11 100644
--- a/include/yaclib/async/shared_contract.hpp
+++ b/include/yaclib/async/shared_contract.hpp
@@ -23,7 +23,7 @@ template <typename V = void, typename E = StopError>
 }
 
 template <typename V = void, typename E = StopError>
-[[nodiscard]] SharedContract<V, E> MakeSharedContractOn(IExecutor& e) {
+[[nodiscard]] SharedContractOn<V, E> MakeSharedContractOn(IExecutor& e) {
   auto core = MakeShared<detail::SharedCore<V, E>>(detail::kSharedRefWithFuture);
   e.IncRef();
   core->_executor.Reset(NoRefTag{}, &e);
-- 
2.43.0


From b1a2f9bf960c894f7ff2276a10620d1eb6e357c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 05/25] fix: a resumed coroutine moved the executor out of the
 awaited core, which stays in use by its other owners

---
 include/yaclib/coro/detail/promise_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index edb9919..7d48f50 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -122,7 +122,7 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
   }
 
   YACLIB_INLINE void Impl(InlineCore& caller) noexcept {
-    this->_executor = std::move(DownCast<BaseCore>(caller)._executor);
+    this->_executor = DownCast<BaseCore>(caller)._executor;
     YACLIB_ASSERT(this->_executor != nullptr);
   }
   [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
-- 
2.43.0


From 413d75c69e7f64fc65caf878c1f621fcea09f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 06/25] fix: WhenAll into a tuple terminated when a second
 input failed

---
 include/yaclib/async/when/all_tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/async/when/all_tuple.hpp b/include/yaclib/async/when/all_tuple.hpp
index fbe322c..b88c32d 100644
--- a/include/yaclib/async/when/all_tuple.hpp
+++ b/include/yaclib/async/when/all_tuple.hpp
@@ -51,14 +51,14 @@ struct AllTuple<FailPolicy::FirstFail, OutputValue, OutputError, InputCore> {
 
   template <std::size_t Index, typename Result>
   void Consume(Result&& result) {
-    if (!result && !_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
+    if (result) {
+      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
+    } else if (!_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
       if (result.State() == ResultState::Error) {
         std::move(_p).Set(std::forward<Result>(result).Error());
       } else {
         std::move(_p).Set(std::forward<Result>(result).Exception());
       }
-    } else {
-      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
     }
   }
 
-- 
2.43.0


From 93ebe09c524513e64e189ef5750ad15d5298b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 07/25] fix: a Task from Schedule or LazyContract crashed when
 started by another step or a coroutine

---
 include/yaclib/algo/detail/core.hpp         |  9 ++++++++-
 include/yaclib/algo/detail/promise_core.hpp | 20 ++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/core.hpp b/include/yaclib/algo/detail/core.hpp
index e87eda5..14c46e5 100644
--- a/include/yaclib/algo/detail/core.hpp
+++ b/include/yaclib/algo/detail/core.hpp
@@ -153,7 +153,14 @@ class Core : public ResultCoreT<Type, Ret, E>, public FuncCore<Func> {
       return Done<SymmetricTransfer, true>(core.template MoveOrConst<!AsyncShared>());
     };
     if constexpr (IsRun(Type)) {
-      return async_done();
+      if constexpr (kAsync != AsyncType::None) {
+        if (this->_self.caller != nullptr) {
+          return async_done();
+        }
+      }
+      // Not called yet: it's the head of a Task started by another step or coroutine
+      this->_executor->Submit(*this);
+      return Noop<SymmetricTransfer>();
     } else {
       if constexpr (kAsync != AsyncType::None) {
         if (this->_self.unwrapping != 0) {
diff --git a/include/yaclib/algo/detail/promise_core.hpp b/include/yaclib/algo/detail/promise_core.hpp
index c77cd2d..4d3bdce 100644
--- a/include/yaclib/algo/detail/promise_core.hpp
+++ b/include/yaclib/algo/detail/promise_core.hpp
@@ -25,10 +25,12 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
   using Base = std::conditional_t<Shared, SharedCore<V, E>, UniqueCore<V, E>>;
 
   explicit PromiseCore(Func&& f) : F{std::forward<Func>(f)} {
+    this->_self = {};
   }
 
  private:
   void Call() noexcept final {
+    this->_self.unwrapping = 1;
     PromiseT promise{CorePtrT{NoRefTag{}, this}};
     try {
       // We need to move func with capture on stack, because promise can be Set before func return
@@ -51,6 +53,24 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
     this->Store(StopTag{});
     Loop(this, this->template SetResult<false>());
   }
+
+  template <bool SymmetricTransfer>
+  [[nodiscard]] YACLIB_INLINE auto Impl(InlineCore& caller) noexcept {
+    if (this->_self.unwrapping == 0) {
+      // Not called yet: it's the head of a Task started by another step or coroutine
+      this->_executor->Submit(*this);
+      return Noop<SymmetricTransfer>();
+    }
+    return ResultCore<V, E>::template Impl<SymmetricTransfer, Shared>(caller);
+  }
+  [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
+    return Impl<false>(caller);
+  }
+#if YACLIB_SYMMETRIC_TRANSFER != 0
+  [[nodiscard]] yaclib_std::coroutine_handle<> Next(InlineCore& caller) noexcept final {
+    return Impl<true>(caller);
+  }
+#endif
 };
 
 }  // namespace yaclib::detail
-- 
2.43.0


From edd8c14037700da741de5d144e50b03ff0d784e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:18 +0000
Subject: [PATCH 08/25] fix: destroying a completed Task cancelled it and
 released its steps twice

---
 include/yaclib/lazy/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/lazy/task.hpp b/include/yaclib/lazy/task.hpp
index 84891e7..6e0a70e 100644
--- a/include/yaclib/lazy/task.hpp
+++ b/include/yaclib/lazy/task.hpp
@@ -38,7 +38,7 @@ class Task final {
 
   Task() noexcept = default;
   ~Task() noexcept {
-    if (Valid()) {
+    if (Valid() && !Ready()) {
       std::move(*this).Cancel();
     }
   }
-- 
2.43.0


From b003e853a4ef64fe9b23ec8baf3aa567a7b96064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 09/25] fix: fetch_and of fiber atomics added instead of
 and-ing

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 96d16a8..d5f0ac6 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -153,12 +153,12 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
   T fetch_and(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
 
-- 
2.43.0


From 19535365179220e4f7e397a0590161b0fcba502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 10/25] fix: pre- and post-increment and -decrement of fiber
 atomics returned each other's value

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 32 ++++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index d5f0ac6..c6e0a8d 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -185,31 +185,31 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   T operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   T operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   T operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   T operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   T operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   T operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   T operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   T operator&=(T arg) noexcept {
@@ -275,31 +275,31 @@ class Atomic<U*> : public AtomicBase<U*> {
   }
 
   U* operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   U* operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   U* operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   U* operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   U* operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   U* operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   U* operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   U* operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   U* operator+=(std::ptrdiff_t arg) noexcept {
-- 
2.43.0


From feb53eef22daa3abf9b1b0659b6516467afa78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 11/25] fix: a default constructed fiber atomic held an
 indeterminate value

---
 include/yaclib/fault/detail/fiber/atomic_wait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic_wait.hpp b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
index 1c0341a..d6beaa2 100644
--- a/include/yaclib/fault/detail/fiber/atomic_wait.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
@@ -60,7 +60,7 @@ class AtomicWait {
 #endif
 
  protected:
-  T _value;
+  T _value{};
 #if YACLIB_FUTEX != 0
   FiberQueue _queue;
 #endif
-- 
2.43.0


From a284a8eed1649879f267f390a10417419f0cee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 12/25] fix: assignment to and volatile operations of fault
 injected atomics did not compile

---
 include/yaclib/fault/detail/atomic.hpp       | 30 ++++++++++++--------
 include/yaclib/fault/detail/fiber/atomic.hpp | 29 ++++++++++---------
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 4f1cf99..f7e0e7c 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -21,12 +21,12 @@ class AtomicBase : public AtomicWait<Impl, T> {
   using Base::is_lock_free;
 
   T operator=(T desired) noexcept {
-    YACLIB_INJECT_FAULT(auto r = Impl::operator=(desired));
-    return r;
+    YACLIB_INJECT_FAULT(Impl::store(desired, std::memory_order_seq_cst));
+    return desired;
   }
   T operator=(T desired) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = Impl::operator=(desired));
-    return r;
+    YACLIB_INJECT_FAULT(Impl::store(desired, std::memory_order_seq_cst));
+    return desired;
   }
 
   void store(T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
@@ -122,6 +122,7 @@ class AtomicFloatingBase : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -130,6 +131,7 @@ class AtomicFloatingBase<Impl, T, true> : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_add(arg, order));
@@ -174,6 +176,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -182,6 +185,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_and(arg, order));
@@ -215,7 +219,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -224,7 +228,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -233,7 +237,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -242,7 +246,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
@@ -280,6 +284,7 @@ class Atomic : public AtomicIntegralBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename U>
@@ -288,6 +293,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto* r = Impl::fetch_add(arg, order));
@@ -312,7 +318,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -321,7 +327,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -330,7 +336,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -339,7 +345,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index c6e0a8d..90df28c 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -30,10 +30,10 @@ class AtomicBase : public AtomicWait<T> {
   }
 
   operator T() const noexcept {
-    return load();
+    return _value;
   }
   operator T() const volatile noexcept {
-    return load();
+    return _value;
   }
 
   T exchange(T desired, std::memory_order) noexcept {
@@ -44,37 +44,38 @@ class AtomicBase : public AtomicWait<T> {
   }
 
   bool compare_exchange_weak(T& expected, T desired, std::memory_order, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
 
  protected:
-  bool CompareExchangeHelper(T& expected, T desired) {
-    if (this->_value == expected) {
-      this->_value = desired;
+  template <typename V>
+  static bool CompareExchangeHelper(V& value, T& expected, T desired) noexcept {
+    if (value == expected) {
+      value = desired;
       return true;
     } else {
-      expected = this->_value;
+      expected = value;
       return false;
     }
   }
-- 
2.43.0


From 3465cbeb0f7ce6811dc3406768892dfa80c953a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 13/25] fix: compare_exchange of fiber atomics compared
 floating point values instead of their bits

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 90df28c..284571b 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,10 +2,22 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <cstring>
+#include <type_traits>
 #include <utility>
 
 namespace yaclib::detail::fiber {
 
+// std::atomic compares bits and not values: NaN is equal to itself and 0.0 isn't equal to -0.0
+template <typename T>
+bool IsSameValue(const T& lhs, const T& rhs) noexcept {
+  if constexpr (std::has_unique_object_representations_v<T> || std::is_same_v<T, float> || std::is_same_v<T, double>) {
+    return std::memcmp(&lhs, &rhs, sizeof(T)) == 0;
+  } else {
+    return lhs == rhs;
+  }
+}
+
 template <typename T>
 class AtomicBase : public AtomicWait<T> {
   using Base = AtomicWait<T>;
@@ -71,11 +83,12 @@ class AtomicBase : public AtomicWait<T> {
  protected:
   template <typename V>
   static bool CompareExchangeHelper(V& value, T& expected, T desired) noexcept {
-    if (value == expected) {
+    T current = value;
+    if (IsSameValue(current, expected)) {
       value = desired;
       return true;
     } else {
-      expected = value;
+      expected = current;
       return false;
     }
   }
-- 
2.43.0


From ccef6a4f29a8793f2d62019ee69cb90be7ac13ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 14/25] fix: a spurious compare_exchange_weak failure loaded
 with the release order of the exchange

---
 include/yaclib/fault/detail/atomic.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index f7e0e7c..bd1cf51 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -3,6 +3,7 @@
 #include <yaclib/fault/detail/atomic_wait.hpp>
 #include <yaclib/fault/inject.hpp>
 
+#include <atomic>
 #include <type_traits>
 
 namespace yaclib::detail {
@@ -11,6 +12,18 @@ bool ShouldFailAtomicWeak();
 
 void SetAtomicWeakFailFrequency(std::uint32_t k);
 
+// order of the load done by a failed compare_exchange with this order
+constexpr std::memory_order LoadOrder(std::memory_order order) noexcept {
+  switch (order) {
+    case std::memory_order_acq_rel:
+      return std::memory_order_acquire;
+    case std::memory_order_release:
+      return std::memory_order_relaxed;
+    default:
+      return order;
+  }
+}
+
 template <typename Impl, typename T>
 class AtomicBase : public AtomicWait<Impl, T> {
   using Base = AtomicWait<Impl, T>;
@@ -81,7 +94,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(LoadOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -90,7 +103,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   bool compare_exchange_weak(T& expected, T desired,
                              std::memory_order order = std::memory_order_seq_cst) volatile noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(LoadOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
-- 
2.43.0


From d55c54a4a9c9eaaed20a904c92a67981fd2b6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 15/25] fix: signed arithmetic of fiber atomics overflowed
 instead of wrapping around

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 69 ++++++++++++++------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 284571b..dc721d9 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -18,6 +18,27 @@ bool IsSameValue(const T& lhs, const T& rhs) noexcept {
   }
 }
 
+// std::atomic arithmetic wraps around, for signed types too
+template <typename T>
+T WrapAdd(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(lhs) + static_cast<U>(rhs));
+  } else {
+    return lhs + rhs;
+  }
+}
+
+template <typename T>
+T WrapSub(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(lhs) - static_cast<U>(rhs));
+  } else {
+    return lhs - rhs;
+  }
+}
+
 template <typename T>
 class AtomicBase : public AtomicWait<T> {
   using Base = AtomicWait<T>;
@@ -111,39 +132,39 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
   using Base::Base;
 
   T fetch_add(T arg, std::memory_order) noexcept {
-    auto val = _value;
-    _value += arg;
+    T val = _value;
+    _value = WrapAdd<T>(val, arg);
     return val;
   }
   T fetch_add(T arg, std::memory_order) volatile noexcept {
-    auto val = _value;
-    _value += arg;
+    T val = _value;
+    _value = WrapAdd<T>(val, arg);
     return val;
   }
 
   T fetch_sub(T arg, std::memory_order) noexcept {
-    auto val = _value;
-    _value -= arg;
+    T val = _value;
+    _value = WrapSub<T>(val, arg);
     return val;
   }
   T fetch_sub(T arg, std::memory_order) volatile noexcept {
-    auto val = _value;
-    _value -= arg;
+    T val = _value;
+    _value = WrapSub<T>(val, arg);
     return val;
   }
 
   T operator+=(T arg) noexcept {
-    return _value += arg;
+    return _value = WrapAdd<T>(_value, arg);
   }
   T operator+=(T arg) volatile noexcept {
-    return _value += arg;
+    return _value = WrapAdd<T>(_value, arg);
   }
 
   T operator-=(T arg) noexcept {
-    return _value -= arg;
+    return _value = WrapSub<T>(_value, arg);
   }
   T operator-=(T arg) volatile noexcept {
-    return _value -= arg;
+    return _value = WrapSub<T>(_value, arg);
   }
 
  protected:
@@ -199,31 +220,39 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return ++_value;
+    return _value = WrapAdd<T>(_value, 1);
   }
   T operator++() volatile noexcept {
-    return ++_value;
+    return _value = WrapAdd<T>(_value, 1);
   }
 
   T operator++(int) noexcept {
-    return _value++;
+    T val = _value;
+    _value = WrapAdd<T>(val, 1);
+    return val;
   }
   T operator++(int) volatile noexcept {
-    return _value++;
+    T val = _value;
+    _value = WrapAdd<T>(val, 1);
+    return val;
   }
 
   T operator--() noexcept {
-    return --_value;
+    return _value = WrapSub<T>(_value, 1);
   }
   T operator--() volatile noexcept {
-    return --_value;
+    return _value = WrapSub<T>(_value, 1);
   }
 
   T operator--(int) noexcept {
-    return _value--;
+    T val = _value;
+    _value = WrapSub<T>(val, 1);
+    return val;
   }
   T operator--(int) volatile noexcept {
-    return _value--;
+    T val = _value;
+    _value = WrapSub<T>(val, 1);
+    return val;
   }
 
   T operator&=(T arg) noexcept {
-- 
2.43.0


From 7b491089cbadadae16b575dc9a85997a240d6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 16/25] verif: choice and trace hooks in the fault layer
 (YACLIB_VERIF)

---
 src/fault/fiber/scheduler.cpp | 10 ++++++++++
 src/fault/injector.cpp        |  5 +++++
 src/fault/util.cpp            | 16 ++++++++++++++++
 src/fault/util.hpp            | 12 ++++++++++++
 4 files changed, 43 insertions(+)

diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index 05b175b..f6870cb 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -91,6 +91,11 @@ void Scheduler::RunLoop() {
     auto* next = GetNext();
     sCurrent = next;
     TickTime();
+#ifdef YACLIB_VERIF
+    if (detail::verif::resume != nullptr) {
+      detail::verif::resume(next->GetId());
+    }
+#endif
     next->Resume();
     if (next->GetState() == detail::fiber::Completed && !next->IsThreadAlive()) {
       delete next;
@@ -145,6 +150,11 @@ void SetRandomListPick(std::uint32_t k) noexcept {
 }
 
 Node* PollRandomElementFromList(BiList& list) {
+#ifdef YACLIB_VERIF
+  if (detail::verif::pick != nullptr) {
+    detail::verif::pick(&list);
+  }
+#endif
   auto rand_pos = detail::GetRandNumber(2 * sRandomListPick);
   auto reversed = false;
   if (rand_pos >= sRandomListPick) {
diff --git a/src/fault/injector.cpp b/src/fault/injector.cpp
index 721312e..a5152d0 100644
--- a/src/fault/injector.cpp
+++ b/src/fault/injector.cpp
@@ -27,6 +27,11 @@ bool Injector::NeedInject() noexcept {
   if (_pause) {
     return false;
   }
+#ifdef YACLIB_VERIF
+  if (verif::inject != nullptr) {
+    return verif::inject();
+  }
+#endif
   if (_count.fetch_add(1, std::memory_order_relaxed) >= sYieldFrequency) {
     Reset();
     return true;
diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 4f2dd0e..d286b14 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -19,9 +19,25 @@ std::uint32_t GetSeed() {
   return sSeed;
 }
 
+#ifdef YACLIB_VERIF
+namespace verif {
+
+std::uint64_t (*random)(std::uint64_t) = nullptr;
+bool (*inject)() = nullptr;
+void (*pick)(const void*) = nullptr;
+void (*resume)(std::uint64_t) = nullptr;
+
+}  // namespace verif
+#endif
+
 std::uint64_t GetRandNumber(std::uint64_t max) {
 #if YACLIB_FAULT == 2
   sRandCount++;
+#endif
+#ifdef YACLIB_VERIF
+  if (verif::random != nullptr) {
+    return verif::random(max);
+  }
 #endif
   return eng() % max;
 }
diff --git a/src/fault/util.hpp b/src/fault/util.hpp
index 4c8e1d6..771a324 100644
--- a/src/fault/util.hpp
+++ b/src/fault/util.hpp
@@ -17,4 +17,16 @@ std::uint64_t GetRandCount();
 
 void ForwardToRandCount(std::uint64_t random_count);
 
+#ifdef YACLIB_VERIF
+// Set by an external explorer of the fault layer's choices; null: the usual behaviour
+namespace verif {
+
+extern std::uint64_t (*random)(std::uint64_t max);  // decides a random number
+extern bool (*inject)();                            // decides if a fault is injected
+extern void (*pick)(const void* list);              // the next random number is a position in this fiber::BiList
+extern void (*resume)(std::uint64_t fiber_id);      // observes fiber switches
+
+}  // namespace verif
+#endif
+
 }  // namespace yaclib::detail
-- 
2.43.0


From c262c3401f85d5e08558591c7843a9c664d6cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 17/25] fix: timed condition_variable waits without a predicate
 did not link

---
 .../yaclib/fault/detail/condition_variable.hpp    |  9 +++++++--
 src/fault/condition_variable.cpp                  | 15 ---------------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/condition_variable.hpp b/include/yaclib/fault/detail/condition_variable.hpp
index 8816de9..d6936ce 100644
--- a/include/yaclib/fault/detail/condition_variable.hpp
+++ b/include/yaclib/fault/detail/condition_variable.hpp
@@ -11,8 +11,13 @@
 
 namespace yaclib::detail {
 
-constexpr std::cv_status CVStatusFrom(WaitStatus);
-constexpr std::cv_status CVStatusFrom(std::cv_status);
+constexpr std::cv_status CVStatusFrom(WaitStatus status) {
+  return status == WaitStatus::Ready ? std::cv_status::no_timeout : std::cv_status::timeout;
+}
+
+constexpr std::cv_status CVStatusFrom(std::cv_status status) {
+  return status;
+}
 
 // TODO(myannyax) unite with ConditionVariableAny
 
diff --git a/src/fault/condition_variable.cpp b/src/fault/condition_variable.cpp
index c5f1d5d..acb7088 100644
--- a/src/fault/condition_variable.cpp
+++ b/src/fault/condition_variable.cpp
@@ -1,16 +1 @@
 #include <yaclib/fault/detail/condition_variable.hpp>
-
-namespace yaclib::detail {
-
-constexpr std::cv_status CVStatusFrom(WaitStatus status) {
-  if (status == WaitStatus::Ready) {
-    return std::cv_status::no_timeout;
-  }
-  return std::cv_status::timeout;
-}
-
-constexpr std::cv_status CVStatusFrom(std::cv_status status) {
-  return status;
-}
-
-}  // namespace yaclib::detail
-- 
2.43.0


From ec6f6053c599cf820f91b2d61620b19573a24b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 18/25] fix: fiber recursive_mutex never woke a fiber blocked
 in lock

---
 src/fault/fiber/recursive_mutex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault/fiber/recursive_mutex.cpp b/src/fault/fiber/recursive_mutex.cpp
index 8598ff1..5d746ae 100644
--- a/src/fault/fiber/recursive_mutex.cpp
+++ b/src/fault/fiber/recursive_mutex.cpp
@@ -4,7 +4,7 @@
 namespace yaclib::detail::fiber {
 
 void RecursiveMutex::lock() {
-  if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+  while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
     _queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -23,6 +23,7 @@ void RecursiveMutex::unlock() noexcept {
   _occupied_count--;
   if (_occupied_count == 0) {
     _owner_id = 0;
+    _queue.NotifyOne();
   }
 }
 void RecursiveMutex::LockHelper() {
-- 
2.43.0


From c48c9fb6d677e79b694cbbbd8a85e34cdaf581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 19/25] fix: fiber shared_mutex admitted incompatible holders
 and lost blocked readers

---
 src/fault/fiber/shared_mutex.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/fault/fiber/shared_mutex.cpp b/src/fault/fiber/shared_mutex.cpp
index 8e9b7f3..ce05d4d 100644
--- a/src/fault/fiber/shared_mutex.cpp
+++ b/src/fault/fiber/shared_mutex.cpp
@@ -1,11 +1,9 @@
-#include <fault/util.hpp>
-
 #include <yaclib/fault/detail/fiber/shared_mutex.hpp>
 
 namespace yaclib::detail::fiber {
 
 void fiber::SharedMutex::lock() {
-  if (_occupied) {
+  while (_occupied) {
     _exclusive_queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -20,18 +18,14 @@ bool SharedMutex::try_lock() noexcept {
 }
 
 void SharedMutex::unlock() noexcept {
-  const bool unlock_shared = !_shared_queue.Empty() && (_exclusive_queue.Empty() || GetRandNumber(2) == 0);
   _occupied = false;
-  if (unlock_shared) {
-    _shared_queue.NotifyAll();
-  } else {
-    _exclusive_queue.NotifyOne();
-  }
+  _shared_queue.NotifyAll();
+  _exclusive_queue.NotifyOne();
 }
 
 void SharedMutex::lock_shared() {
-  if (_occupied && _exclusive_mode) {
-    _exclusive_queue.Wait(NoTimeoutTag{});
+  while (_occupied && _exclusive_mode) {
+    _shared_queue.Wait(NoTimeoutTag{});
   }
   SharedLockHelper();
 }
-- 
2.43.0


From 3c64ff8ed51677f0a24747571cdfe0101e0e2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 20/25] fix: timed acquisitions of fiber mutexes took a lock
 that was held again or in the wrong mode

---
 .../detail/fiber/recursive_timed_mutex.hpp    | 17 +++++++--------
 .../fault/detail/fiber/shared_timed_mutex.hpp | 21 +++++++++----------
 .../yaclib/fault/detail/fiber/timed_mutex.hpp | 16 +++++++-------
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
index 629f7bf..2dffa74 100644
--- a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
@@ -13,7 +13,7 @@ class RecursiveTimedMutex : public RecursiveMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(timeout_duration + SystemClock::now());
   }
 
   template <typename Clock, typename Duration>
@@ -24,16 +24,13 @@ class RecursiveTimedMutex : public RecursiveMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+      if (_queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()),
-                 "about to be locked twice and not in a good way");
-    if (r) {
-      LockHelper();
-    }
-    return r;
+    LockHelper();
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
index 333e13c..25bd0bc 100644
--- a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
@@ -14,7 +14,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, true);
+    return TimedWaitHelper(timeout_duration + SystemClock::now(), true);
   }
 
   template <typename Clock, typename Duration>
@@ -24,7 +24,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, false);
+    return TimedWaitHelper(timeout_duration + SystemClock::now(), false);
   }
 
   template <typename Clock, typename Duration>
@@ -35,19 +35,18 @@ class SharedTimedMutex : public SharedMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout, bool exclusive) {
-    bool r = true;
-    if (_occupied && (exclusive || _exclusive_mode)) {
-      if (exclusive) {
-        r = _exclusive_queue.Wait(timeout) == WaitStatus::Ready;
-      } else {
-        r = _shared_queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied && (exclusive || _exclusive_mode)) {
+      auto& queue = exclusive ? _exclusive_queue : _shared_queue;
+      if (queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
       }
     }
-    YACLIB_DEBUG(r && _occupied && (exclusive || _exclusive_mode), "about to be locked twice and not in a good way");
-    if (r) {
+    if (exclusive) {
+      LockHelper();
+    } else {
       SharedLockHelper();
     }
-    return r;
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/timed_mutex.hpp b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
index c712e47..8c31c62 100644
--- a/include/yaclib/fault/detail/fiber/timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
@@ -13,7 +13,7 @@ class TimedMutex : public Mutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(timeout_duration + SystemClock::now());
   }
 
   template <typename Clock, typename Duration>
@@ -24,15 +24,13 @@ class TimedMutex : public Mutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied) {
+      if (_queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && _occupied, "about to be locked twice");
-    if (r) {
-      _occupied = true;
-    }
-    return r;
+    _occupied = true;
+    return true;
   }
 };
 
-- 
2.43.0


From 6c27b3fe275f02fe8ad7b3db0b0f5692ec3c6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 21/25] fix: fiber scheduler crashed after a timed waiter was
 notified

---
 src/fault/fiber/scheduler.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index f6870cb..ed1610d 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -130,13 +130,10 @@ void Scheduler::Sleep(std::uint64_t ns) {
 void Scheduler::SleepPreemptive(std::uint64_t ns) {
   ns += detail::GetRandNumber(GetFaultSleepTime());
   Sleep(ns);
-  // <= because wakeup called before time adjustment
-  if (_time <= ns) {
-    auto it = _sleep_list.find(ns);
-    YACLIB_DEBUG(it == _sleep_list.end(), "sleep_list for time that is not passed yet isn't found");
-    if (it->second.Empty()) {
-      _sleep_list.erase(ns);
-    }
+  // The list is still there, and possibly empty, if the fiber was woken before its time
+  auto it = _sleep_list.find(ns);
+  if (it != _sleep_list.end() && it->second.Empty()) {
+    _sleep_list.erase(it);
   }
 }
 
-- 
2.43.0


From cf02e1fd4e1d9f7cd1264e5fe6686112614b40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 22/25] fix: fiber condition_variable::wait_for with a
 predicate restarted its timeout on every wake-up

---
 include/yaclib/fault/detail/fiber/condition_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/condition_variable.hpp b/include/yaclib/fault/detail/fiber/condition_variable.hpp
index fb7cabe..20f28ce 100644
--- a/include/yaclib/fault/detail/fiber/condition_variable.hpp
+++ b/include/yaclib/fault/detail/fiber/condition_variable.hpp
@@ -46,7 +46,7 @@ class ConditionVariable {
   template <typename Rep, typename Period, typename Predicate>
   bool wait_for(std::unique_lock<yaclib::detail::fiber::Mutex>& lock,
                 const std::chrono::duration<Rep, Period>& duration, Predicate predicate) {
-    return WaitImplWithPredicate(lock, duration, predicate);
+    return WaitImplWithPredicate(lock, duration + SystemClock::now(), predicate);
   }
 
   using native_handle_type = std::condition_variable::native_handle_type;
-- 
2.43.0


From abe37d534eff7dc0b227e3305e7da6044332fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 23/25] fix: fiber thread::joinable was true for a thread that
 has nothing to join

---
 src/fault/fiber/thread.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fault/fiber/thread.cpp b/src/fault/fiber/thread.cpp
index 4269861..dd463b0 100644
--- a/src/fault/fiber/thread.cpp
+++ b/src/fault/fiber/thread.cpp
@@ -16,14 +16,14 @@ void Thread::swap(Thread& t) noexcept {
 }
 
 bool Thread::joinable() const noexcept {
-  return get_id() != fault::Scheduler::GetId();
+  return _impl != nullptr;
 }
 
 void Thread::join() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
+  if (get_id() == fault::Scheduler::GetId()) {
     throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
   }
 
@@ -39,9 +39,6 @@ void Thread::detach() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
-    throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
-  }
   AfterJoinOrDetach();
 }
 
-- 
2.43.0


From b3ad9550e8cc2354df1cd0af227164df658158f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 24/25] fix: fiber thread-local pointers of different types
 shared a value and copies did not set it

---
 .../fault/detail/fiber/thread_local_proxy.hpp | 29 ++++++++-----------
 src/fault/fiber/thread_local_proxy.cpp        |  5 ++++
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index c3944a7..2584026 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cstdint>
+
 namespace yaclib::detail::fiber {
 
 void* GetImpl(std::uint64_t i);
@@ -8,22 +10,22 @@ void Set(void* new_value, std::uint64_t i);
 
 void SetDefault(void* new_value, std::uint64_t i);
 
+std::uint64_t NextThreadLocalIndex() noexcept;
+
 template <typename Type>
 class ThreadLocalPtrProxy final {
-  inline static std::uint64_t sNextFreeIndex = 0;
-
  public:
-  ThreadLocalPtrProxy() noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy() noexcept : _i(NextThreadLocalIndex()) {
   }
 
-  ThreadLocalPtrProxy(Type* value) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(Type* value) noexcept : _i(NextThreadLocalIndex()) {
     if (value != nullptr) {
       SetDefault(value, _i);
     }
   }
   ThreadLocalPtrProxy(ThreadLocalPtrProxy&& other) noexcept : _i(other._i) {
   }
-  ThreadLocalPtrProxy(const ThreadLocalPtrProxy& other) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(const ThreadLocalPtrProxy& other) noexcept : _i(NextThreadLocalIndex()) {
     SetDefault(GetImpl(other._i), _i);
   }
 
@@ -32,34 +34,27 @@ class ThreadLocalPtrProxy final {
     return *this;
   }
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy& other) noexcept {
-    if (this->Get() == other.Get()) {
-      return *this;
-    }
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   template <typename U>
   ThreadLocalPtrProxy(ThreadLocalPtrProxy<U>&& other) noexcept : _i(other._i) {
   }
   template <typename U>
-  ThreadLocalPtrProxy(const ThreadLocalPtrProxy<U>& other) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(const ThreadLocalPtrProxy<U>& other) noexcept : _i(NextThreadLocalIndex()) {
     SetDefault(GetImpl(other._i), _i);
   }
 
   template <typename U>
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy<U>&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   template <typename U>
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy<U>& other) noexcept {
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   Type& operator*() const noexcept {
diff --git a/src/fault/fiber/thread_local_proxy.cpp b/src/fault/fiber/thread_local_proxy.cpp
index f61fcf4..20c89c6 100644
--- a/src/fault/fiber/thread_local_proxy.cpp
+++ b/src/fault/fiber/thread_local_proxy.cpp
@@ -27,4 +27,9 @@ void SetDefault(void* new_value, std::uint64_t i) {
   GetMap()[i] = new_value;
 }
 
+std::uint64_t NextThreadLocalIndex() noexcept {
+  static std::uint64_t sNextFreeIndex = 0;
+  return sNextFreeIndex++;
+}
+
 }  // namespace yaclib::detail::fiber
-- 
2.43.0


From 160a05655494a438afa3f5ee3f7b374fd4a4a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 25/25] fix: SetSeed did not restart the fiber random count and
 ForwardToFaultRandomCount overshot it

A random count recorded after a second SetSeed in the same process included the numbers drawn before it,
and ForwardToFaultRandomCount drew that many more numbers instead of forwarding to it, so restoring the recorded
(random count, injector state) pair continued from another point.
---
 src/fault/util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index d286b14..fee65ec 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -13,6 +13,9 @@ static thread_local std::mt19937_64 eng{sSeed};
 void SetSeed(std::uint32_t new_seed) {
   sSeed = new_seed;
   eng.seed(new_seed);
+#if YACLIB_FAULT == 2
+  sRandCount = 0;
+#endif
 }
 
 std::uint32_t GetSeed() {
@@ -52,7 +55,7 @@ std::uint64_t GetRandCount() {
 
 void ForwardToRandCount([[maybe_unused]] std::uint64_t random_count) {
 #if YACLIB_FAULT == 2
-  for (std::uint64_t i = 0; i != random_count; ++i) {
+  while (sRandCount < random_count) {
     GetRandNumber(1);
   }
 #endif
-- 
2.43.0

