From e5d04cb67fef1e9eaf4114bb06e95d4866c7ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/38] fix: make select() and tuple helpers compile with
 current compilers

A function parameter cannot appear in a constant expression, and an rvalue
reference cannot bind to a named one: compute the static size of a select()
from its types alone, and forward the argument in as_tuple.
---
 src/arpc/mpt.h    |  8 ++++----
 src/arpc/select.h | 12 ++++--------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..362945c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
@@ -486,11 +486,11 @@ constexpr decltype(auto) as_tuple(std::pair<U, V>& t) {
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(const std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a tuple value into a `pack` value.
diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..af5473a 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -198,15 +198,12 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
   return pollfds_index_helper(awaitables, mpt::make_index_sequence<idx>{});
 }
 
+// When every input has a static size, that size is 1.
 template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
+constexpr bool select_inputs_have_static_size() {
   return (... && select_input<Args>::has_static_size);
 }
 
-template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
-  return (0 + ... + select_input<Args>::static_size);
-}
 template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
@@ -226,9 +223,8 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
-    std::array<pollfd, size> res;
+  if constexpr (select_inputs_have_static_size<Args...>()) {
+    std::array<pollfd, sizeof...(Args)> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
   } else {
-- 
2.43.0


From 7350d1002a99ecc4fc92c077a94b8d671e7d7e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/38] fix: decode variable-length integers in the byte order
 they are encoded in

write_variant() emits the low-order group first; read_variant() took the first
byte for the high-order group, so any size or id above 127 came back wrong.
Values that do not fit are now reported instead of shifted out of range.
---
 src/arpc/binary_codecs.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..11ab43b 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -594,11 +595,17 @@ class binary_decoder {
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
     std::size_t l = 0;
+    std::size_t shift = 0;
     uint8_t o;
     do {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
+      std::size_t bits = static_cast<std::size_t>(o) & 0x7f;
+      if (shift >= std::numeric_limits<std::size_t>::digits ||
+          ((bits << shift) >> shift) != bits) {
+        throw errors::data_mismatch("Integer out of range in stream");
+      }
+      l |= bits << shift;
+      shift += 7;
     } while ((o & 0x80) != 0);
     return l;
   }
-- 
2.43.0


From b32fb2476102161df192e05e4a3af0dea4e76076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 03/38] fix: select() in a cancelled context must not consume
 events

The react functions of all the ready awaitables ran before the cancellation (or
deadline) of the current context was noticed and thrown, so a mutex token, a
queue element or the bytes just read were lost.
---
 src/arpc/select.h | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index af5473a..b2fa20b 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -204,14 +204,16 @@ constexpr bool select_inputs_have_static_size() {
   return (... && select_input<Args>::has_static_size);
 }
 
+
 template <typename... Args, std::size_t... ints>
-std::tuple<typename select_input<Args>::result_type...> make_select_result(
-    std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
-    mpt::index_sequence<ints...>) {
-  return {std::move(select_input<Args>::make_result(
-      mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
-      min_timeout, min_timeout_is_polling))...};
+auto make_select_result(std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
+                        std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
+                        mpt::index_sequence<ints...>) {
+  return std::tuple<
+      typename select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::result_type...>{
+      select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::make_result(
+          mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
+          min_timeout, min_timeout_is_polling)...};
 }
 
 template <typename... Args, std::size_t... ints>
@@ -271,21 +273,31 @@ template <typename... Args>
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
     if (pres < 0) throw_io_error("Error in select");
 
+    // Check the context before reacting to anything else: if we are to throw,
+    // no other event may have been consumed.
+    const pollfd* context_fds = fds.data() + fds.size() - 2;
+    auto cancelled =
+        detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0, min_timeout,
+                                       min_timeout_is_polling);
+    if (cancelled) {
+      *cancelled;
+    }
+    auto deadline_exceeded =
+        detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1], pres == 0, min_timeout,
+                                       min_timeout_is_polling);
+    if (deadline_exceeded) {
+      *deadline_exceeded;
+    }
+
     auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                        min_timeout_is_polling, mpt::make_index_sequence<n>{}));
+                                        min_timeout_is_polling,
+                                        mpt::make_index_sequence<n - 2>{}));
 
     bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
       return so_far || detail::select_output<decltype(val)>::is_active(val);
     });
     if (active) {
-      auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-      if (cancelled) {
-        *cancelled;
-      }
-      if (deadline_exceeded) {
-        *deadline_exceeded;
-      }
-      return mpt::range<0, n - 2>(std::move(res));
+      return res;
     }
 
     auto now = std::chrono::steady_clock::now();
-- 
2.43.0


From a41df593a966861eaef8533ac2e8676325b27987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 04/38] fix: select() timeouts count from the start of the call

The elapsed time was subtracted from the polling timeouts (so that a polling
awaitable whose react function asked to try again turned into a busy loop) and
not from the plain ones (so that every wake-up without a result restarted them,
and a context deadline could be missed for good).
---
 src/arpc/select.h | 63 +++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index b2fa20b..8b13dce 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -46,15 +46,27 @@ namespace arpc {
 
 namespace detail {
 
+// Time left to wait: plain timeouts count from the start of the select() call,
+// while polling ones are restarted whenever we go back to waiting.
+template <typename A>
+std::chrono::milliseconds time_left(const A& a, std::chrono::milliseconds elapsed) {
+  if (a.timeout() < std::chrono::milliseconds::zero() || a.for_polling()) {
+    return a.timeout();
+  }
+  return std::max(a.timeout() - elapsed, std::chrono::milliseconds::zero());
+}
+
 template <typename A>
 result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd& fd,
                                                               bool was_timeout,
+                                                              std::chrono::milliseconds elapsed,
                                                               std::chrono::milliseconds min_timeout,
                                                               bool min_timeout_is_polling) {
   bool active;
   if (was_timeout) {
-    active = (a.timeout() >= std::chrono::milliseconds::zero() &&
-              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));
+    auto timeout = time_left(a, elapsed);
+    active = (timeout >= std::chrono::milliseconds::zero() &&
+              (timeout <= min_timeout || (min_timeout_is_polling && a.for_polling())));
   } else {
     active = (fd.revents != 0);
   }
@@ -96,22 +108,15 @@ struct select_input_helper<awaitable<T>> {
   static constexpr bool has_static_size = true;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
+                                 std::chrono::milliseconds elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
-    return make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling);
+    return make_one_select_result(a, *fd, was_timeout, elapsed, min_timeout,
+                                  min_timeout_is_polling);
   }
   static void fill_fds(const awaitable<T>& a, pollfd* fds) { *fds = make_pollfd(a); }
   static auto timeout_info(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
-    auto timeout = a.timeout();
-    bool is_polling = a.for_polling();
-
-    if (timeout >= std::chrono::milliseconds::zero()) {
-      if (is_polling) {
-        timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-      }
-    }
-
-    return std::pair(timeout, is_polling);
+    return std::pair(time_left(a, elapsed), a.for_polling());
   }
 };
 
@@ -121,13 +126,14 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   static constexpr bool has_static_size = false;
   static constexpr std::size_t size(const std::vector<awaitable<T>>& v) { return v.size(); }
   static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd, bool was_timeout,
+                                 std::chrono::milliseconds elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
     result_type res;
     res.reserve(v.size());
     for (auto& a : v) {
-      res.push_back(
-          make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));
+      res.push_back(make_one_select_result(a, *fd++, was_timeout, elapsed, min_timeout,
+                                           min_timeout_is_polling));
     }
     return res;
   }
@@ -141,13 +147,10 @@ struct select_input_helper<std::vector<awaitable<T>>> {
     bool min_timeout_is_polling = false;
 
     for (const auto& a : v) {
-      auto timeout = a.timeout();
+      auto timeout = time_left(a, elapsed);
       bool is_polling = a.for_polling();
 
       if (timeout >= std::chrono::milliseconds::zero()) {
-        if (is_polling) {
-          timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-        }
         if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
           min_timeout = timeout;
           min_timeout_is_polling = is_polling;
@@ -207,12 +210,13 @@ constexpr bool select_inputs_have_static_size() {
 
 template <typename... Args, std::size_t... ints>
 auto make_select_result(std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-                        std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
+                        std::chrono::milliseconds elapsed, std::chrono::milliseconds min_timeout,
+                        bool min_timeout_is_polling,
                         mpt::index_sequence<ints...>) {
   return std::tuple<
       typename select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::result_type...>{
       select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::make_result(
-          mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
+          mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout, elapsed,
           min_timeout, min_timeout_is_polling)...};
 }
 
@@ -249,7 +253,7 @@ template <typename... Args>
                                                                  current_context.wait_deadline());
 
   std::chrono::milliseconds elapsed = std::chrono::milliseconds::zero();
-  auto last = std::chrono::steady_clock::now();
+  const auto start = std::chrono::steady_clock::now();
 
   do {
     // Find whether we have a timeout to apply, and whether it's a polling one.
@@ -277,19 +281,19 @@ template <typename... Args>
     // no other event may have been consumed.
     const pollfd* context_fds = fds.data() + fds.size() - 2;
     auto cancelled =
-        detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0, min_timeout,
-                                       min_timeout_is_polling);
+        detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0, elapsed,
+                                       min_timeout, min_timeout_is_polling);
     if (cancelled) {
       *cancelled;
     }
     auto deadline_exceeded =
-        detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1], pres == 0, min_timeout,
-                                       min_timeout_is_polling);
+        detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1], pres == 0, elapsed,
+                                       min_timeout, min_timeout_is_polling);
     if (deadline_exceeded) {
       *deadline_exceeded;
     }
 
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
+    auto res(detail::make_select_result(a, fds.data(), pres == 0, elapsed, min_timeout,
                                         min_timeout_is_polling,
                                         mpt::make_index_sequence<n - 2>{}));
 
@@ -300,9 +304,8 @@ template <typename... Args>
       return res;
     }
 
-    auto now = std::chrono::steady_clock::now();
-    elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-    last = now;
+    elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+        std::chrono::steady_clock::now() - start);
   } while (true);
 }
 
-- 
2.43.0


From 5942c72eac5e94b7c2e111d7a483af749c50e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 05/38] fix: select() survives signals and very long timeouts

An interrupted poll() was reported as an I/O error, and a timeout over 2^31 ms
was truncated when passed to poll(), expiring early.
---
 src/arpc/select.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 8b13dce..4543bdf 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -29,9 +29,11 @@
 #endif  // ESP_PLATFORM
 #include <algorithm>
 #include <array>
+#include <cerrno>
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -274,8 +276,16 @@ template <typename... Args>
 
     auto fds(detail::make_select_pollfds(a));
 
-    int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
-    if (pres < 0) throw_io_error("Error in select");
+    // The timeout may not fit into poll()'s argument: wait in several rounds.
+    constexpr std::chrono::milliseconds max_poll_timeout(std::numeric_limits<int>::max());
+    int pres = poll(fds.data(), fds.size(),
+                    std::min(min_timeout, max_poll_timeout) / std::chrono::milliseconds(1));
+    if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
+    if (pres < 0 || (pres == 0 && min_timeout > max_poll_timeout)) {
+      elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+          std::chrono::steady_clock::now() - start);
+      continue;
+    }
 
     // Check the context before reacting to anything else: if we are to throw,
     // no other event may have been consumed.
-- 
2.43.0


From 1796123df3be990f3f286dded35ab48f8dd62877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 06/38] fix: setting and resetting a flag is not subject to
 cancellation

Both went through select(), so in a cancelled context they threw after moving
the byte through the pipe but before recording the new state, leaving the flag
inconsistent: creating a child of a cancelled context failed, and threads
waiting on the flag could spin or hang.
---
 src/arpc/flag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..60ae2be 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,7 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +44,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
-- 
2.43.0


From 43c1fdc89fceb66d6f4d30a16c733e2dee758104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 07/38] fix: queue::empty() reported the opposite

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 210fda52feea146ce49d585cd1242d4faccc5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 08/38] fix: thread_pool neither loses nor strands functions

run() moved the function out before knowing whether there was room for it, so
losing the race for the last place dropped it. And a caller that only saw room
in the queue could miss a worker that only saw an empty queue, leaving the
function pending next to an idle worker.
---
 src/arpc/executor.cpp | 27 +++++++++++++--------------
 src/arpc/executor.h   | 29 +++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index a4f194b..cae34e1 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -48,20 +48,19 @@ void thread_pool::request_work(promise<fn_type> slot) {
   while (true) {
     auto [have_pending_fn, have_slot_space] =
         select(pending_.can_get(), slots_.can_put());
-    try {
-      std::scoped_lock lock(mu_);
-      if (have_pending_fn) {
-        *have_pending_fn;
-        slot.set_value(pending_.maybe_get());
-        return;
-      }
-      if (have_slot_space) {
-        *have_slot_space;
-        slots_.maybe_put(std::move(slot));
-        return;
-      }
-    } catch (const errors::try_again&) {
-      // Just try again.
+    if (have_pending_fn) *have_pending_fn;
+    if (have_slot_space) *have_slot_space;
+
+    // What select saw may no longer be true: under the lock, take a pending
+    // function if there is one, and wait in a slot only otherwise.
+    std::scoped_lock lock(mu_);
+    if (!pending_.empty()) {
+      slot.set_value(pending_.maybe_get());
+      return;
+    }
+    if (!slots_.full()) {
+      slots_.maybe_put(std::move(slot));
+      return;
     }
   }
 }
diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index e80cecb..fe88b14 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -52,23 +52,24 @@ class thread_pool {
 
   template <typename F>
   void run(F&& f) {
+    fn_type fn(std::forward<F>(f));
     while (true) {
       auto [have_slot, have_pending_space] =
           select(slots_.can_get(), pending_.can_put());
-      try {
-        std::scoped_lock lock(mu_);
-        if (have_slot) {
-          *have_slot;
-          slots_.maybe_get().set_value(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-        if (have_pending_space) {
-          *have_pending_space;
-          pending_.maybe_put(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-      } catch (const errors::try_again&) {
-        // Just try again.
+      if (have_slot) *have_slot;
+      if (have_pending_space) *have_pending_space;
+
+      // What select saw may no longer be true: under the lock, hand the
+      // function over to a waiting worker if there is one, and leave it pending
+      // only otherwise.
+      std::scoped_lock lock(mu_);
+      if (!slots_.empty()) {
+        slots_.maybe_get().set_value(std::move(fn));
+        return;
+      }
+      if (!pending_.full()) {
+        pending_.maybe_put(std::move(fn));
+        return;
       }
     }
   }
-- 
2.43.0


From d9f320e8cb49b84d182018896b90f1ed4e942340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 09/38] fix: promises always make their future ready, which
 delivers once

set() stored the result without locking nor signalling it, so nobody waiting on
the future woke up; promise<void> had no set(). Assigning over a promise that
was not kept left its future waiting forever. And a future that had delivered
kept handing out its moved-from value.
---
 src/arpc/future.h | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..3ee4e4b 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,13 +75,19 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
     if (result_) {
       set_.reset();
-      return *std::move(result_);
+      auto result = std::move(result_);
+      result_.reset();
+      return *std::move(result);
     }
     throw errors::try_again("Future not ready yet");
   }
@@ -107,13 +113,19 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
     if (result_) {
       set_.reset();
-      *result_;
+      auto result = std::move(result_);
+      result_.reset();
+      *result;
       return;
     }
     throw errors::try_again("Future not ready yet");
@@ -308,7 +320,13 @@ class promise {
   using value_type = T;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // Through a temporary, so that a promise that was not kept is broken.
+    promise<value_type> old(std::move(*this));
+    state_ = std::move(other.state_);
+    future_ = std::move(other.future_);
+    return *this;
+  }
 
   promise()
       : state_(
@@ -356,7 +374,13 @@ class promise<void> {
   using value_type = void;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // Through a temporary, so that a promise that was not kept is broken.
+    promise<value_type> old(std::move(*this));
+    state_ = std::move(other.state_);
+    future_ = std::move(other.future_);
+    return *this;
+  }
 
   promise()
       : state_(
@@ -377,6 +401,10 @@ class promise<void> {
 
   void set_exception(std::exception_ptr exc) { state()->set_exception(exc); }
 
+  void set(result_holder<value_type>&& result) {
+    state()->set(std::move(result));
+  }
+
  private:
   using pointer_type =
       std::unique_ptr<detail::future_state<value_type>,
-- 
2.43.0


From 9afca14661a35ccfce82f36636c13413a54bf816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 10/38] fix: usage_lock synchronizes get() with arm() and
 drop()

get() copied the shared pointer with no lock while arm() and drop() wrote it,
and the last user could signal a condition variable already destroyed.
---
 src/arpc/usage_lock.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 333d069..bbbee2b 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -45,33 +45,45 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset(ptr, [this](T*) {
-      {
-        std::scoped_lock lock(mu_);
-        done_ = true;
-      }
+    std::shared_ptr<T> new_ptr(ptr, [this](T*) {
+      std::scoped_lock lock(mu_);
+      done_ = true;
       done_cond_.notify_all();
     });
+    {
+      // The old pointer's deleter, if any, needs the lock.
+      std::scoped_lock lock(mu_);
+      ptr_.swap(new_ptr);
+    }
+    new_ptr.reset();
     std::scoped_lock lock(mu_);
     done_ = false;
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset();
+    std::shared_ptr<T> old_ptr;
+    {
+      std::scoped_lock lock(mu_);
+      ptr_.swap(old_ptr);
+    }
+    old_ptr.reset();
     std::unique_lock lock(mu_);
     done_cond_.wait(lock, [this]() { return done_; });
   }
 
   auto get() {
-    auto res = ptr_;
+    auto res = get_or_null();
     if (!res) {
       throw E(message_);
     }
     return res;
   }
 
-  auto get_or_null() { return ptr_; }
+  auto get_or_null() {
+    std::scoped_lock lock(mu_);
+    return ptr_;
+  }
 
  private:
   const char* const message_;
-- 
2.43.0


From de44609939f1887a40f89c91efd449feaa552d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 11/38] fix: context data and deadline are read and replaced
 under their lock

---
 src/arpc/context.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..275e201 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -43,6 +43,7 @@ context::context(context& parent, bool set_current, bool shield)
     if (!shield) {
       parent_->add_child(this);
     }
+    std::scoped_lock lock(parent_->data_mu_);
     deadline_ = parent_->deadline_;
     data_ = parent_->data_;
   }
@@ -145,18 +146,17 @@ void context::reset_all() {
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
+  std::scoped_lock lock(data_mu_);
   res.reserve(data_.size());
-  {
-    std::scoped_lock lock(data_mu_);
-    for (auto it : data_) {
-      res.push_back(it.second);
-    }
+  for (auto it : data_) {
+    res.push_back(it.second);
   }
   return res;
 }
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From 75cc87a904636e782ee731f753c863b963c2bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 12/38] fix: a context can be destroyed once its last child has
 detached

The child signalled the parent's condition variable after releasing its lock,
when the parent could already be gone.
---
 src/arpc/context.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 275e201..1a7baef 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -79,10 +79,10 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  // Notify under the lock: as soon as the last child is gone and the lock is
+  // free, this object may be destroyed.
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
   child_detached_.notify_one();
 }
 
-- 
2.43.0


From 6e4c17471b76b044424406f1f9efffb747316488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 13/38] fix: channel::linger() set SO_REUSEPORT instead of
 SO_LINGER

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..05f51d3 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -252,7 +252,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From 916fdf7427fcba8d1003ed587d1a51b773373647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 14/38] fix: files are created with defined permissions

open() was called with O_CREAT and no mode.
---
 src/arpc/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..bb7dcdb 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -37,7 +37,8 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
   channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)],
+             0666));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From 4f323f2cdc83b90b943790ced0fad72965b10c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 15/38] fix: malformed COBS data is reported and full last
 blocks are kept

---
 src/arpc/packet_codecs.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..673b798 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -119,20 +119,24 @@ void cobs_codec::encode(std::string& data) {
 }
 
 void cobs_codec::decode(std::string& data) {
+  if (data.empty()) {
+    throw errors::data_mismatch("Empty COBS-encoded data");
+  }
   auto src = data.begin();
   auto dst = data.begin();
   while (src < data.end()) {
     std::size_t count = static_cast<std::uint8_t>(*src++) - 1;
     for (std::size_t i = 0; i < count; i++) {
-      if (src >= data.end()) {
+      if (src >= data.end() || *src == '\0') {
         throw errors::data_mismatch("Truncated COBS-encoded data");
       }
       *dst++ = *src++;
     }
-    if (count < 254) {
+    // The zero that would end the last block isn't part of the data.
+    if (count < 254 && src < data.end()) {
       *dst++ = '\0';
     }
   }
-  data.resize((dst - data.begin()) - 1);
+  data.resize(dst - data.begin());
 }
 }  // namespace arpc
-- 
2.43.0


From ce215b41895bf97a2c5b782ac8c9c7448896b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 16/38] fix: copied, moved and swapped flat containers keep
 their comparator

---
 src/arpc/container/detail/flat_tree.h | 29 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..74eb7d2 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -162,15 +162,23 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    underlying_container::swap(other);
+    std::swap(comp_, other.comp_);
+    std::swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
     underlying_container::operator=(std::forward<flat_tree>(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -197,16 +205,23 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
-                             alloc) {}
+      : underlying_container(static_cast<underlying_container&&>(other),
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
-- 
2.43.0


From 5a49dd7aa8c2e440ee4d443d4815f8d1da3293f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 17/38] fix: flat containers keep the first of several
 equivalent elements

---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 74eb7d2..5b9b74f 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -183,7 +183,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -199,7 +199,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -226,7 +226,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From 1ab7828e6895d8af2ec1c608f0f2bfa238aef3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 18/38] fix: emplace_hint() of flat_map and flat_set didn't
 compile

---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 5b9b74f..b1fce1a 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -312,7 +312,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, value_type(std::forward<Args>(args)...));
   }
 
   // erase
-- 
2.43.0


From afcd3c11d66f577188d6fc171861dc22cd7a3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 19/38] fix: cancelled calls are abandoned and reported to the
 server

---
 src/arpc/client.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c6208f0..3b7a9b2 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -160,6 +160,8 @@ class client_connection {
       try {
         return result.get();
       } catch (const errors::cancelled&) {
+        // The current context, being cancelled, can't wait for locks.
+        context cleanup(context::top());
         connection_.cancel_request(req_id);
         throw;
       }
@@ -299,6 +301,7 @@ class client_connection {
     try {
       send(request);
     } catch (...) {
+      context cleanup(context::top());
       abandon_request(req_id);
       throw;
     }
-- 
2.43.0


From 7b5f4619bcc6baf2f118348227400cb4c71c9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 20/38] fix: reconnectable_connection could wait for itself or
 for blocked users

---
 src/arpc/connection.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 98e56bc..ce1d18f 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -80,6 +80,8 @@ class reconnectable_connection : public connection {
     std::scoped_lock lock(mu_);
     auto ptr = connection_.get_or_null();
     if (!ptr || !ptr->connected()) {
+      // drop() waits for all the users, including us.
+      ptr.reset();
       connection_.drop();
       connection_factory_();
       connection_.arm(&*connection_storage_);
@@ -88,6 +90,10 @@ class reconnectable_connection : public connection {
 
   void disconnect() override {
     std::scoped_lock lock(mu_);
+    // Interrupt the operations in progress, as drop() waits for them.
+    if (auto ptr = connection_.get_or_null()) {
+      ptr->disconnect();
+    }
     connection_.drop();
     connection_storage_.reset();
   }
-- 
2.43.0


From 766f1e5ed68c6615c2785f24fb4946203a0be6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 21/38] fix: the server doesn't use connections that are
 removed while in use

---
 src/arpc/server.h | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 8e1ef88..1dd0fc5 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -165,7 +165,8 @@ class server {
 
   using connection_key = std::size_t;
   using connection_type = typename ConnectionProducer::connection_type;
-  class connection_wrapper {
+  class connection_wrapper
+      : public std::enable_shared_from_this<connection_wrapper> {
    public:
     explicit connection_wrapper(server& server, connection_key key,
                                 std::unique_ptr<connection_type> connection)
@@ -185,9 +186,15 @@ class server {
       }
 
       return connection_->data_available().then([this]() {
-        can_receive_.reset();
+        {
+          std::scoped_lock lock(mu_);
+          if (failed_receive_) {
+            return;
+          }
+          can_receive_.reset();
+        }
 
-        server_.pool_.run([this]() {
+        server_.pool_.run([this, self(this->shared_from_this())]() {
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -232,9 +239,15 @@ class server {
       }
 
       return responses_.async_get().then([this](std::string response) {
-        can_send_.reset();
+        {
+          std::scoped_lock lock(mu_);
+          if (failed_send_) {
+            return;
+          }
+          can_send_.reset();
+        }
 
-        server_.pool_.run([this, response(std::move(response))]() mutable {
+        server_.pool_.run([this, self(this->shared_from_this()), response(std::move(response))]() mutable {
           try {
             connection_->send(std::move(response));
 
@@ -253,6 +266,12 @@ class server {
       });
     }
 
+    void close() {
+      if (connection_) {
+        connection_->disconnect();
+      }
+    }
+
     void add_response(std::string response) { responses_.put(std::move(response)); }
 
    private:
@@ -265,6 +284,8 @@ class server {
         }
         if (failed_send_ || (can_send_ && failed)) {
           failed_receive_ = true;
+          // The connection is about to be removed: don't use it any more.
+          failed_send_ = true;
           removed = true;
         }
         can_receive_.set();
@@ -283,6 +304,7 @@ class server {
         }
         if (failed_receive_ || (can_receive_ && failed)) {
           failed_send_ = true;
+          failed_receive_ = true;
           removed = true;
         }
         can_send_.set();
@@ -301,7 +323,7 @@ class server {
     flag can_receive_, can_send_, can_remove_;
   };
 
-  using connection_map = flat_map<connection_key, std::unique_ptr<connection_wrapper>>;
+  using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
@@ -522,7 +544,7 @@ class server {
             // Ensure we prevent connection counter cycle collisions.
           }
           connections_.insert(
-              {next_connection_key_, std::make_unique<connection_wrapper>(
+              {next_connection_key_, std::make_shared<connection_wrapper>(
                                          *this, next_connection_key_, std::move(new_connection))});
         });
   }
@@ -629,6 +651,10 @@ class server {
       reactor_.join();
     }
 
+    // Interrupt whatever the pool is still doing with the connections.
+    for (auto& cit : connections_) {
+      cit.second->close();
+    }
     connections_.clear();
 
     acceptor_.reset();
-- 
2.43.0


From 6e0da7cdc952f6f70244aff2dcf9d12cd17936a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 22/38] fix: null context data in a request crashed the
 receiver

---
 src/arpc/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 1a7baef..89f6b86 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -159,6 +159,9 @@ void context::set_data(
   std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
+    if (!it) {
+      throw errors::data_mismatch("Null context data");
+    }
     data_[it->portable_class_name()] =
         std::static_pointer_cast<const dynamic_base_class>(std::move(it));
   }
-- 
2.43.0


From f36fd567af00a59256cac9d909a8c990cdb6f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 23/38] fix: shared objects keep their identity when serialized

---
 src/arpc/binary_codecs.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 11ab43b..60b950f 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -161,11 +161,14 @@ class binary_encoder {
       return;
     }
 
-    auto it = shared_object_map_.find(p.get());
+    auto it = shared_object_map_.find(object_address(p.get()));
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(p.get(), next_object_id).first;
+      it = shared_object_map_.emplace(object_address(p.get()), next_object_id)
+               .first;
+      // Keep the object alive so that its address isn't reused.
+      shared_objects_.push_back(p);
       first_time = true;
     }
     write_variant(it->second);
@@ -188,6 +191,17 @@ class binary_encoder {
         encoder_function;
   };
 
+  // Address identifying an object, no matter which of its base classes the
+  // pointer we have to it refers to.
+  template <typename T>
+  static const void* object_address(const T* ptr) {
+    if constexpr (is_dynamic_v<T>) {
+      return static_cast<const dynamic_base_class*>(ptr);
+    } else {
+      return ptr;
+    }
+  }
+
   // Save potentially short integers in a compact form.
   //
   // Use the highest bit in each byte to determine whether more bytes come
@@ -345,6 +359,7 @@ class binary_encoder {
   // speed.
   arpc::flat_map<std::string_view, seen_class_info> class_info_map_;
   arpc::flat_map<const void*, std::size_t> shared_object_map_ = {{nullptr, 0}};
+  std::vector<std::shared_ptr<const void>> shared_objects_;
 
  protected:
   output_stream& out_;
@@ -359,7 +374,11 @@ class binary_decoder {
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      if constexpr (is_dynamic_v<T>) {
+        ptr_ = std::static_pointer_cast<dynamic_base_class>(ptr);
+      } else {
+        ptr_ = ptr;
+      }
     }
 
    private:
@@ -566,7 +585,12 @@ class binary_decoder {
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      if constexpr (is_dynamic_v<T>) {
+        p = std::static_pointer_cast<T>(
+            std::static_pointer_cast<dynamic_base_class>(object_info.ptr));
+      } else {
+        p = std::static_pointer_cast<T>(object_info.ptr);
+      }
     }
   }
 
-- 
2.43.0


From 917e5796d37e15a038f62e0df952a4927db1fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 24/38] fix: decoding makes room for data only as it arrives

---
 src/arpc/binary_codecs.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 60b950f..09f64ac 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -22,6 +22,7 @@
 #ifndef ARPC_BINARY_CODECS_H_
 #define ARPC_BINARY_CODECS_H_
 
+#include <algorithm>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -441,9 +442,15 @@ class binary_decoder {
       void>
   operator()(T& sequence) {
     std::size_t l = read_size();
-    // No need to reserve as we are setting the size directly.
-    sequence.resize(l);
-    read_sequence(std::data(sequence), l);
+    sequence.clear();
+    // No need to reserve as we are setting the size directly, although only as
+    // the data arrives: the size we got can't be trusted.
+    for (std::size_t pos = 0; pos < l;) {
+      std::size_t n = std::min(l - pos, max_untrusted_size);
+      sequence.resize(pos + n);
+      read_sequence(std::data(sequence) + pos, n);
+      pos += n;
+    }
   }
 
   // Containers where we need to read elements one by one and push_back them.
@@ -752,7 +759,7 @@ class binary_decoder {
   template <typename T>
   std::enable_if_t<traits::can_reserve_capacity_v<T>, void> maybe_reserve(
       T& t, typename T::size_type l) {
-    t.reserve(l);
+    t.reserve(std::min<typename T::size_type>(l, max_untrusted_size));
   }
 
   template <typename T>
@@ -761,6 +768,9 @@ class binary_decoder {
 
   std::size_t read_size() { return read_variant(); }
 
+  // Number of elements to make room for without having seen any data.
+  static constexpr std::size_t max_untrusted_size = 65536;
+
   // For contiguous sequences of scalars, just treat them as a block of
   // contiguous
   // memory.
-- 
2.43.0


From 04e7f77a390b6a5173929e22dca4e0d3d5f0a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 25/38] fix: classes holding sequences of themselves had no
 type hash

---
 src/arpc/type_hash.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arpc/type_hash.h b/src/arpc/type_hash.h
index dc9a67a..97360be 100644
--- a/src/arpc/type_hash.h
+++ b/src/arpc/type_hash.h
@@ -145,22 +145,22 @@ struct new_type_hash {
       return type_hash_add(
           type_hash_leaf(detail::type_family::MAP,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_set_v<T>) {
       return type_hash_add(
           type_hash_leaf(detail::type_family::SET,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_const_iterable_v<T>) {
       if constexpr (has_static_size_v<T>) {
         return type_hash_add(
             type_hash_leaf(detail::type_family::ARRAY, false, static_size_v<T>),
             type_hash_v<typename std::iterator_traits<decltype(
-                std::begin(std::declval<T&>()))>::value_type>);
+                std::begin(std::declval<T&>()))>::value_type, Seen>);
       } else {
         return type_hash_add(
             type_hash_leaf(detail::type_family::SEQUENCE, false, 0),
-            type_hash_v<writable_value_type_t<typename T::value_type>>);
+            type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
       }
     } else if constexpr (can_be_serialized_v<T>) {
       return type_hash_add(
@@ -179,7 +179,7 @@ struct new_type_hash {
                          get_custom_serialization_version_v<T>));
     } else if constexpr (is_bindable_aggregate_v<T>) {
       // Hash as a tuple.
-      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>()))>;
+      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>())), Seen>;
     } else {
       return unknown_hash<T>();
     }
-- 
2.43.0


From 0d5d9297b050cdf0431a2a7e02be77e623b0c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 26/38] fix: decoding std::array was ambiguous

---
 src/arpc/binary_codecs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 09f64ac..5975b61 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -105,7 +105,8 @@ class binary_encoder {
   template <typename T>
   std::enable_if_t<
       (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T> &&
+          !traits::is_const_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_saver(), *this);
@@ -494,7 +495,8 @@ class binary_decoder {
   template <typename T>
   std::enable_if_t<
       (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T> &&
+          !traits::is_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
-- 
2.43.0


From 492e625d0d3833c9acdc14d667eecc70d2190b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 27/38] fix: classes derived from one with custom serialization
 didn't compile

---
 src/arpc/serializable_base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arpc/serializable_base.h b/src/arpc/serializable_base.h
index 891318d..4dc63af 100644
--- a/src/arpc/serializable_base.h
+++ b/src/arpc/serializable_base.h
@@ -52,8 +52,9 @@ struct serializable_mixin<false, OwnType, Bases...> : Bases... {
   using dynamic_base_classes =
       mpt::filter_if_t<base_classes, dynamic_class_filter>;
 
-  // Don't inherit load/save behavior from the parent, and provide an empty set
-  // of fields.
+  // Don't inherit load/save behavior or its version from the parent, and
+  // provide an empty set of fields.
+  using custom_serialization_version = void;
   template <typename S>
   void save(S& s) const = delete;
   template <typename S>
-- 
2.43.0


From 8edfb4112c2c6ae1af74c756291829feb23fb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 28/38] fix: assigning an initializer list to a flat container
 replaced its comparator

---
 src/arpc/container/flat_map.h | 8 ++++++--
 src/arpc/container/flat_set.h | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..3910838 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -45,9 +45,11 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
                                    Allocator>::underlying_container;
   using mapped_type = T;
 
-  // Inherit constructors.
+  // Inherit constructors and assignment from initializer lists.
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 
   // operator []
   T& operator[](const Key& key) {
@@ -98,9 +100,11 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
  public:
   using mapped_type = T;
 
-  // Inherit constructors.
+  // Inherit constructors and assignment from initializer lists.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..7b2bf2b 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -39,8 +39,9 @@ template <typename Key, typename Compare = std::less<Key>,
           typename Allocator = std::allocator<Key> >
 class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
-  // Inherit constructors.
+  // Inherit constructors and assignment from initializer lists.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -55,8 +56,9 @@ template <typename Key, typename Compare = std::less<Key>,
 class flat_multiset
     : public detail::flat_tree<Key, true, Key, Compare, Allocator> {
  public:
-  // Inherit constructors.
+  // Inherit constructors and assignment from initializer lists.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From 2eb97ebd95f345b6d774db8b08eae654172920bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 29/38] fix: a shielded context can outlive its parent

The destructor of the shielded context wanted to remove it from the children
of the parent, of which it isn't one and which doesn't wait for it.
---
 src/arpc/context.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 89f6b86..7dac87c 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -38,14 +38,15 @@ context& context::top() {
 }
 
 context::context(context& parent, bool set_current, bool shield)
-    : set_current_(set_current), parent_(&parent), deadline_(std::nullopt) {
-  if (parent_) {
-    if (!shield) {
-      parent_->add_child(this);
-    }
-    std::scoped_lock lock(parent_->data_mu_);
-    deadline_ = parent_->deadline_;
-    data_ = parent_->data_;
+    // The parent doesn't know about shielded children, nor wait for them.
+    : set_current_(set_current),
+      parent_(shield ? nullptr : &parent),
+      deadline_(std::nullopt) {
+  if (parent_) parent_->add_child(this);
+  {
+    std::scoped_lock lock(parent.data_mu_);
+    deadline_ = parent.deadline_;
+    data_ = parent.data_;
   }
 
   if (set_current_) {
-- 
2.43.0


From 8d6ccf46836e73bb75c4d32d9ed2a8d1529c93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 30/38] fix: usage_lock::drop waits for the users of all
 pointers it was armed with

When it was armed again while the previous pointer was in use, the users of
the previous one made drop() and the destructor return too early.
---
 src/arpc/usage_lock.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index bbbee2b..1c5ce10 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -45,9 +45,13 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
+    {
+      std::scoped_lock lock(mu_);
+      in_use_++;
+    }
     std::shared_ptr<T> new_ptr(ptr, [this](T*) {
       std::scoped_lock lock(mu_);
-      done_ = true;
+      in_use_--;
       done_cond_.notify_all();
     });
     {
@@ -55,9 +59,6 @@ class usage_lock {
       std::scoped_lock lock(mu_);
       ptr_.swap(new_ptr);
     }
-    new_ptr.reset();
-    std::scoped_lock lock(mu_);
-    done_ = false;
   }
 
   void drop() {
@@ -69,7 +70,7 @@ class usage_lock {
     }
     old_ptr.reset();
     std::unique_lock lock(mu_);
-    done_cond_.wait(lock, [this]() { return done_; });
+    done_cond_.wait(lock, [this]() { return in_use_ == 0; });
   }
 
   auto get() {
@@ -90,7 +91,8 @@ class usage_lock {
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
   std::condition_variable done_cond_;
-  bool done_ = true;
+  // Pointers we were armed with, until their last users are gone.
+  int in_use_ = 0;
 };
 
 }  // namespace arpc
-- 
2.43.0


From 75ea7c09c933031d5507adf40a09eb42c6457448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 31/38] fix: future::except compiles

The function that gets the value of a future takes its state.
---
 src/arpc/future.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 3ee4e4b..98a27aa 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -179,7 +179,8 @@ class future {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(
+            std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -266,7 +267,8 @@ class future<void> {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(
+            std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From 4ddf5063eeedfaa803ba0e741e750e434a1dcd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 32/38] fix: reading from a connection returns what came before
 its end

---
 src/arpc/connection.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 8586d23..bb43851 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -83,10 +83,16 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
     auto [read, closing] =
         select(channel_.async_read(data, size), closing_.async_wait());
     if (read) {
-      if (*read == 0) break;
-      size -= *read;
-      data += *read;
-      total_read += *read;
+      std::size_t num = 0;
+      try {
+        num = *read;
+      } catch (const errors::eof&) {
+        // Return what was read before.
+      }
+      if (num == 0) break;
+      size -= num;
+      data += num;
+      total_read += num;
     }
     if (closing)
       throw errors::io_error("Read interrupted by connection shutdown");
-- 
2.43.0


From 532b28b83395dd770a26e117c043f5d1c5cf84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 33/38] fix: flushing a connection while it's being closed

---
 src/arpc/connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index bb43851..fd39934 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -73,7 +73,10 @@ void channel_connection::write(const char* data, std::size_t size) {
 
 void channel_connection::putc(char c) { connection::putc(c); }
 
-void channel_connection::flush() { channel_.flush(); }
+void channel_connection::flush() {
+  // Keep the channel open meanwhile.
+  if (auto lock = locked_.get_or_null()) channel_.flush();
+}
 
 std::size_t channel_connection::read(char* data, std::size_t size) {
   auto lock = locked_.get();
-- 
2.43.0


From 6ccd4d5e562a6f8c523a9d5a726cfc2635bae0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 34/38] fix: calls fail when their connection was replaced by
 another

A call that failed to be sent closed the connection, and another one could
make a new connection before the receiver noticed.  The receiver went on with
the new connection, possibly in the middle of a packet, and the calls that
were waiting for responses from the old one didn't end before their deadlines.
---
 src/arpc/client.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index 3b7a9b2..c3965e7 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -267,14 +268,22 @@ class client_connection {
   }
 
   void send(std::string data) {
-    std::scoped_lock lock(sending_mu_);
+    std::unique_lock<mutex> lock(sending_mu_);
+    // Don't connect again before the receiver is done with the connection.
+    while (ready_ && !connection_.connected()) {
+      lock.unlock();
+      received_.wait();
+      lock.lock();
+    }
     try {
       connection_.connect();
       connection_.send(std::move(data));
       ready_.set();
     } catch (...) {
-      // Disconnect the connection.
-      ready_.reset();
+      // Disconnect the connection, which the receiver is going to notice.
+      if (ready_) {
+        received_.reset();
+      }
       connection_.disconnect();
       throw;
     }
@@ -352,6 +361,7 @@ class client_connection {
           // Broadcast the exception to all the pending requests.
           auto exc = std::current_exception();
           broadcast_exception(exc);
+          received_.set();
         }
       }
     }
@@ -409,7 +419,9 @@ class client_connection {
 
   mutex pending_mu_, sending_mu_;
   rpc_defs::request_id_type sequence_;
-  flag ready_;
+  // Whether there's something to receive, and whether nothing is received from
+  // a connection that failed any longer.
+  flag ready_, received_;
   connection_type connection_;
   pending_map_type pending_;
   daemon_thread receiver_;
-- 
2.43.0


From 8788e93dfaf924cfee9356ff736c1bc7036535e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 35/38] fix: results built from an lvalue leave it alone

---
 src/arpc/result_holder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 7da2c6d..274103c 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -76,7 +76,7 @@ class result_holder : public serializable<result_holder<T>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
   template <typename U>
-  explicit result_holder(U&& u) : value_(std::move(u)) {}
+  explicit result_holder(U&& u) : value_(std::forward<U>(u)) {}
 
   template <typename U>
   void set_value(U&& u) {
-- 
2.43.0


From 2c47002c0d3bbbd022c8bbf88181496f4ebc3bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 36/38] fix: promises stay unset when setting their value
 throws

---
 src/arpc/future.h | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 98a27aa..42292a7 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -338,7 +338,7 @@ class promise {
 
   ~promise() {
     if (state_) {
-      state()->set_exception(
+      state().set_exception(
           std::make_exception_ptr(errors::invalid_state("Broken promise")));
     }
   }
@@ -347,13 +347,18 @@ class promise {
 
   template <typename U>
   void set_value(U&& u) {
-    state()->set_value(std::forward<U>(u));
+    state().set_value(std::forward<U>(u));
+    state_.reset();
   }
 
-  void set_exception(std::exception_ptr exc) { state()->set_exception(exc); }
+  void set_exception(std::exception_ptr exc) {
+    state().set_exception(exc);
+    state_.reset();
+  }
 
   void set(result_holder<value_type>&& result) {
-    state()->set(std::move(result));
+    state().set(std::move(result));
+    state_.reset();
   }
 
  private:
@@ -361,9 +366,10 @@ class promise {
       std::unique_ptr<detail::future_state<value_type>,
                       typename detail::future_state<value_type>::releaser>;
 
-  pointer_type state() {
+  // We keep it until it's set, as that may throw.
+  detail::future_state<value_type>& state() {
     if (!state_) throw errors::invalid_state("Promise already set");
-    return std::move(state_);
+    return *state_;
   }
 
   pointer_type state_;
@@ -392,19 +398,26 @@ class promise<void> {
 
   ~promise() {
     if (state_) {
-      state()->set_exception(
+      state().set_exception(
           std::make_exception_ptr(errors::invalid_state("Broken promise")));
     }
   }
 
   future<value_type> get_future() { return std::move(future_); }
 
-  void set_value() { state()->set_value(); }
+  void set_value() {
+    state().set_value();
+    state_.reset();
+  }
 
-  void set_exception(std::exception_ptr exc) { state()->set_exception(exc); }
+  void set_exception(std::exception_ptr exc) {
+    state().set_exception(exc);
+    state_.reset();
+  }
 
   void set(result_holder<value_type>&& result) {
-    state()->set(std::move(result));
+    state().set(std::move(result));
+    state_.reset();
   }
 
  private:
@@ -412,9 +425,10 @@ class promise<void> {
       std::unique_ptr<detail::future_state<value_type>,
                       typename detail::future_state<value_type>::releaser>;
 
-  pointer_type state() {
+  // We keep it until it's set, as that may throw.
+  detail::future_state<value_type>& state() {
     if (!state_) throw errors::invalid_state("Promise already set");
-    return std::move(state_);
+    return *state_;
   }
 
   pointer_type state_;
-- 
2.43.0


From cb861c33aefb850de0ce33ffcf3612a34c81bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 37/38] fix: deadlines and timeouts in the far future

---
 src/arpc/awaitable.h |  9 +++++----
 src/arpc/context.cpp | 11 +++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 1871208..6e14890 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -118,10 +118,11 @@ awaitable<void> polling(const std::chrono::duration<Rep, Period>& duration) {
 
 template <typename Clock, typename Duration>
 awaitable<void> deadline(const std::chrono::time_point<Clock, Duration>& when) {
-  std::chrono::milliseconds delta =
-      std::chrono::duration_cast<std::chrono::milliseconds>(
-          when - std::chrono::system_clock::now());
-  return awaitable<void>(std::max(std::chrono::milliseconds::zero(), delta));
+  // In milliseconds, as far deadlines don't fit into finer units.
+  const auto now = std::chrono::time_point_cast<std::chrono::milliseconds>(
+      std::chrono::system_clock::now());
+  return awaitable<void>(
+      std::max(std::chrono::ceil<std::chrono::milliseconds>(when), now) - now);
 }
 
 }  // namespace arpc
diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 7dac87c..a8a71c1 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -95,8 +95,8 @@ std::optional<context::time_point> context::deadline() const {
 std::optional<context::duration> context::deadline_left() const {
   std::scoped_lock lock(data_mu_);
   if (deadline_) {
-    return std::chrono::duration_cast<duration>(
-        *deadline_ - std::chrono::system_clock::now());
+    return *deadline_ - std::chrono::time_point_cast<duration>(
+                            std::chrono::system_clock::now());
   } else {
     return std::nullopt;
   }
@@ -136,8 +136,11 @@ void context::set_deadline(time_point when) {
 }
 
 void context::set_timeout(duration timeout) {
-  set_deadline(std::chrono::time_point_cast<context::duration>(
-      std::chrono::system_clock::now() + timeout));
+  // Far timeouts may not fit.
+  const auto now = std::chrono::time_point_cast<context::duration>(
+      std::chrono::system_clock::now());
+  set_deadline(timeout < time_point::max() - now ? now + timeout
+                                                 : time_point::max());
 }
 
 void context::reset_all() {
-- 
2.43.0


From 48e5dec8df6044ef841edb672fcca3a1c0ce6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:41 +0000
Subject: [PATCH 38/38] fix: clients leave links that ended while something is
 being sent

---
 src/arpc/client.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c3965e7..0d1cb74 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -276,9 +276,11 @@ class client_connection {
       lock.lock();
     }
     try {
-      connection_.connect();
+      if (!ready_) {
+        connection_.connect();
+        ready_.set();
+      }
       connection_.send(std::move(data));
-      ready_.set();
     } catch (...) {
       // Disconnect the connection, which the receiver is going to notice.
       if (ready_) {
@@ -351,6 +353,10 @@ class client_connection {
             }
           }
         } catch (...) {
+          // Don't wait for requests nobody may take any more to be sent.
+          received_.reset();
+          connection_.disconnect();
+
           // Prevent sending more requests while we disconnect.
           std::scoped_lock lock(sending_mu_);
 
-- 
2.43.0

